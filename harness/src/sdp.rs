//! C23: complete solves with the matrix-inequality and filter-design oracles.
use crate::ensure;
use crate::linalg::*;
use crate::rt::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::LowpassOracle;

#[derive(Clone, Copy, Debug)]
enum Sys {
    Ell,
    EllNoDefer,
    Stable,
}
const SYSTEMS: [Sys; 3] = [Sys::Ell, Sys::EllNoDefer, Sys::Stable];

macro_rules! with_space {
    ($sys:expr, $r2:expr, $x0:expr, $s:ident, $body:expr) => {
        match $sys {
            Sys::Stable => {
                #[allow(unused_mut)]
                let mut $s = EllStable::new_with_scalar($r2, Arr::from($x0.to_vec()));
                $body
            }
            _ => {
                let mut $s = Ell::new_with_scalar($r2, Arr::from($x0.to_vec()));
                $s.no_defer_trick = matches!($sys, Sys::EllNoDefer);
                $body
            }
        }
    };
}

/// minimize obj'x subject to B - x1 F1 - x2 F2 > 0 inside the box |x_k| <= r
#[derive(Clone, Debug)]
struct Lmi {
    m: usize,
    f: [Vec<f64>; 2],
    b: Vec<f64>,
    r: f64,
    obj: [f64; 2],
}
impl Lmi {
    fn at(&self, x: [f64; 2]) -> Vec<f64> {
        (0..self.m * self.m).map(|k| self.b[k] - x[0] * self.f[0][k] - x[1] * self.f[1][k]).collect()
    }
    fn lmin(&self, x: [f64; 2]) -> f64 {
        let a = self.at(x);
        match self.m {
            1 => a[0],
            2 => (a[0] + a[3]) / 2.0 - (((a[0] - a[3]) / 2.0).powi(2) + a[1] * a[1]).sqrt(),
            _ => eig_sym(&a, self.m).0.into_iter().fold(f64::INFINITY, f64::min),
        }
    }
    /// the value range of x2 that is feasible for x1, by concavity of the smallest eigenvalue
    fn best_x2(&self, x1: f64) -> (f64, f64) {
        let (mut lo, mut hi) = (-self.r, self.r);
        for _ in 0..48 {
            let (p, q) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
            if self.lmin([x1, p]) < self.lmin([x1, q]) {
                lo = p
            } else {
                hi = q
            }
        }
        let x2 = (lo + hi) / 2.0;
        (x2, self.lmin([x1, x2]))
    }
    fn edge(&self, f: &dyn Fn(f64) -> f64, inside: f64, end: f64) -> f64 {
        if f(end) > 0.0 {
            return end;
        }
        let (mut a, mut b) = (inside, end);
        for _ in 0..50 {
            let m = (a + b) / 2.0;
            if f(m) > 0.0 {
                a = m
            } else {
                b = m
            }
        }
        a
    }
    /// (largest attainable smallest eigenvalue, minimum of the objective when that is positive)
    fn reference(&self) -> (f64, f64) {
        let (mut lo, mut hi) = (-self.r, self.r);
        for _ in 0..48 {
            let (p, q) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
            if self.best_x2(p).1 < self.best_x2(q).1 {
                lo = p
            } else {
                hi = q
            }
        }
        let x1 = (lo + hi) / 2.0;
        let slack = self.best_x2(x1).1;
        if slack <= 0.02 {
            return (slack, f64::INFINITY);
        }
        let h = |t: f64| self.best_x2(t).1;
        let (a, b) = (self.edge(&h, x1, -self.r), self.edge(&h, x1, self.r));
        let val = |t: f64| {
            let (x2, _) = self.best_x2(t);
            let g = |u: f64| self.lmin([t, u]);
            let end = if self.obj[1] > 0.0 { -self.r } else { self.r };
            let u = if self.obj[1] == 0.0 { x2 } else { self.edge(&g, x2, end) };
            self.obj[0] * t + self.obj[1] * u
        };
        let (mut lo, mut hi) = (a, b);
        for _ in 0..60 {
            let (p, q) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
            if val(p) > val(q) {
                lo = p
            } else {
                hi = q
            }
        }
        (slack, val((lo + hi) / 2.0).min(val(lo)).min(val(hi)))
    }
}
enum Kind {
    New(LMIOracle),
    Old(LMIOldOracle),
    Zero(LMI0Oracle),
}
struct Solve {
    p: Lmi,
    k: Kind,
    level: f64,
}
impl Solve {
    fn new(p: &Lmi, kind: u8) -> Solve {
        let a = |v: &[f64]| Arr::from_shape_vec(p.m, p.m, v.to_vec());
        let fs = vec![a(&p.f[0]), a(&p.f[1])];
        let k = match kind {
            0 => Kind::New(LMIOracle::new(fs, a(&p.b))),
            1 => Kind::Old(LMIOldOracle::new(fs, a(&p.b))),
            _ => Kind::Zero(LMI0Oracle::new(p.f.iter().map(|f| a(&f.iter().map(|v| -v).collect::<Vec<_>>())).collect())),
        };
        Solve { p: p.clone(), k, level: f64::INFINITY }
    }
    fn violated(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        for k in 0..2 {
            for s in [1.0, -1.0] {
                let v = s * x[k] - self.p.r;
                if v > 0.0 {
                    let mut g = Arr::new(2);
                    g[k] = s;
                    return Some((g, SingleCut(v)));
                }
            }
        }
        match &mut self.k {
            Kind::New(o) => o.assess_feas(x),
            Kind::Old(o) => o.assess_feas(x),
            Kind::Zero(o) => o.assess_feas(x).map(|(g, v)| (g, SingleCut(v))),
        }
    }
    fn f(&self, x: &Arr) -> f64 {
        self.p.obj[0] * x[0] + self.p.obj[1] * x[1]
    }
}
impl OracleFeas<Arr> for Solve {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        if let Some(cut) = self.violated(x) {
            return Some(cut);
        }
        let v = self.f(x) - self.level;
        if v > 0.0 {
            return Some((Arr::from(self.p.obj.to_vec()), SingleCut(v)));
        }
        None
    }
    fn update(&mut self, g: f64) {
        self.level = g;
    }
}
impl OracleOptim<Arr> for Solve {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        if let Some(cut) = self.violated(x) {
            return (cut, false);
        }
        let f = self.f(x);
        let obj = Arr::from(self.p.obj.to_vec());
        if f > *gamma {
            return ((obj, SingleCut(f - *gamma)), false);
        }
        *gamma = f;
        ((obj, SingleCut(0.0)), true)
    }
}

pub fn c23(c: &mut Ctx) {
    let th = c.thorough;
    let sym2 = |v: &[f64]| vec![v[0], v[1], v[1], v[2]];
    let vals = [-1.0, 0.0, 2.0];
    let mut items: Vec<(Lmi, bool)> = vec![];
    let objs: Vec<[f64; 2]> = if c.deep { vec![[1.0, 2.0], [-3.0, 1.0], [0.0, 1.0], [1.0, 0.0], [-1.0, -1.0]] } else { vec![[1.0, 2.0], [-3.0, 1.0]] };
    for (i, w1) in words(3, 3).iter().enumerate() {
        for (j, w2) in words(3, 3).iter().enumerate() {
            if !th && j % 3 != i % 3 {
                continue;
            }
            let f = |w: &[usize]| sym2(&w.iter().map(|&k| vals[k]).collect::<Vec<_>>());
            for b in [vec![2.0, 1.0, 1.0, 3.0], vec![-1.0, 0.5, 0.5, -0.5], vec![0.0; 4]] {
                for &obj in &objs {
                    let zero = b.iter().all(|v| *v == 0.0);
                    items.push((Lmi { m: 2, f: [f(w1), f(w2)], b: b.clone(), r: 1.75, obj }, zero));
                }
            }
        }
    }
    let n2 = items.len();
    // order 3
    let base: Vec<Vec<f64>> = vec![
        vec![-7.0, -11.0, 0.0, -11.0, 3.0, 1.0, 0.0, 1.0, 2.0],
        vec![7.0, -18.0, 3.0, -18.0, 8.0, 0.0, 3.0, 0.0, -1.0],
        vec![1.0, 0.0, 2.0, 0.0, -1.0, 0.0, 2.0, 0.0, 0.0],
        vec![2.0, 1.0, -1.0, 1.0, 2.0, 1.0, -1.0, 1.0, 2.0],
        vec![0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0],
        vec![-2.0, -8.0, 1.0, -8.0, 1.0, 1.0, 1.0, 1.0, 1.0],
    ];
    let bs3: Vec<Vec<f64>> = vec![
        vec![33.0, -9.0, 0.0, -9.0, 26.0, 2.0, 0.0, 2.0, 5.0],
        vec![14.0, 9.0, 40.0, 9.0, 91.0, 10.0, 40.0, 10.0, 150.0],
        vec![-5.0, 1.0, 0.0, 1.0, -4.0, 0.0, 0.0, 0.0, -3.0],
    ];
    for i in 0..base.len() {
        for j in 0..base.len() {
            if i == j || (!th && (i + j) % 3 != 0) {
                continue;
            }
            for b in &bs3 {
                for &obj in &objs {
                    items.push((Lmi { m: 3, f: [base[i].clone(), base[j].clone()], b: b.clone(), r: 3.0, obj }, false));
                }
            }
        }
    }
    c.bound(format!("{} semidefinite problems in 2 variables with matrices of order 2 (entries -1, 0, 2) and {} of order 3, in a box, x every applicable matrix-inequality oracle x 3 search spaces: feasibility, optimization and bisection runs against a nested convex search", n2, items.len() - n2));
    let chunks: Vec<Vec<(Lmi, bool)>> = items.chunks(8).map(|v| v.to_vec()).collect();
    c.par(chunks, |c, ch| {
        for (p, zero) in ch {
            c.cur = format!("{:?}", p);
            lmi_case(c, p, *zero);
            if c.stopped() {
                return;
            }
        }
        c.cur.clear();
    });
    if c.stopped() {
        return;
    }
    filters(c);
}

fn lmi_case(c: &mut Ctx, p: &Lmi, zero: bool) {
    let (slack, opt) = p.reference();
    let fat = slack > 0.05;
    let empty = slack < -1e-3;
    if !fat && !empty {
        return;
    }
    let x0 = [0.4, -0.3];
    let r2 = ((p.r + 0.4).powi(2) + (p.r + 0.3).powi(2)) * 1.001;
    let o = Options::new(3000, 1e-18);
    for sys in SYSTEMS {
        for kind in if zero { 0..3u8 } else { 0..2u8 } {
            let d = || format!("{:?} oracle {} {:?} (largest margin {}, minimum {})", sys, kind, p, slack, opt);
            let ok = |x: &Arr| p.lmin([x[0], x[1]]) > -1e-9 && x.iter().all(|v| v.abs() <= p.r);
            let (xf, kf) = with_space!(sys, r2, x0, s, cutting_plane_feas(&mut Solve::new(p, kind), &mut s, &o));
            c.seen(&[xf.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), p.at([0.3, 0.7]), vec![kf as f64]].concat());
            c.transitions += kf as u64 + 1;
            c.traces += 1;
            match &xf {
                Some(x) => ensure!(c, ok(x), "feasibility run returned the infeasible {:?}: {}", x.data(), d()),
                None => ensure!(c, !fat, "no feasible point found in {} iterations: {}", kf, d()),
            }
            let mut gamma = f64::INFINITY;
            let (xo, ko) = with_space!(sys, r2, x0, s, cutting_plane_optim(&mut Solve::new(p, kind), &mut s, &mut gamma, &o));
            c.seen(&[xo.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), p.at([0.3, 0.7]), vec![ko as f64]].concat());
            c.transitions += ko as u64 + 1;
            c.traces += 1;
            match &xo {
                Some(x) => {
                    ensure!(c, ok(x), "optimization returned the infeasible {:?}: {}", x.data(), d());
                    let f = p.obj[0] * x[0] + p.obj[1] * x[1];
                    ensure!(c, (f - gamma).abs() <= 1e-12 * (1.0 + f.abs()), "value {} at the returned point, reported {}: {}", f, gamma, d());
                    if fat {
                        ensure!(c, (f - opt).abs() <= 1e-4, "value {} after {} iterations: {}", f, ko, d());
                    }
                }
                None => ensure!(c, !fat, "no solution found in {} iterations: {}", ko, d()),
            }
            if fat {
                let lim = 6.0 * p.r;
                let mut iv = (-lim, lim);
                let (yes, _) = with_space!(sys, r2, x0, s, {
                    let _ = &mut s;
                    let mut ad = BSearchAdaptor::new(Solve::new(p, kind), s, Options::new(3000, 1e-18));
                    bsearch(&mut ad, &mut iv, &Options::new(60, 1e-4))
                });
                c.transitions += 1;
                c.traces += 1;
                ensure!(c, yes && iv.1 >= opt - 1e-6 && iv.1 <= opt + 0.02, "bisection ended at {:?} ({}): {}", iv, yes, d());
            }
        }
    }
    c.sample(|| format!("{:?}: minimum {}", p, opt));
}

#[derive(Clone, Debug)]
struct Spec {
    n: usize,
    wp: f64,
    ws: f64,
    lp: f64,
    up: f64,
    sp: f64,
}
impl Spec {
    /// rows: (coefficients, lower, upper, is it in the stop band)
    fn rows(&self) -> Vec<(Vec<f64>, f64, f64, bool)> {
        let m = 15 * self.n;
        (0..m)
            .map(|i| {
                let w = std::f64::consts::PI * i as f64 / (m - 1) as f64;
                let t = i as f64 / (m - 1) as f64;
                let r = (0..self.n).map(|j| if j == 0 { 1.0 } else { 2.0 * (w * j as f64).cos() }).collect();
                if t <= self.wp {
                    (r, self.lp, self.up, false)
                } else if t > self.ws {
                    (r, 0.0, f64::INFINITY, true)
                } else {
                    (r, 0.0, f64::INFINITY, false)
                }
            })
            .collect()
    }
    /// smallest attainable stop-band peak, by enumerating the vertices of the linear program in (x, t)
    fn best(&self) -> f64 {
        let n = self.n;
        let mut ineq: Vec<(Vec<f64>, f64)> = vec![];
        for (r, lo, hi, stop) in self.rows() {
            let ext = |s: f64, t: f64| -> Vec<f64> { r.iter().map(|v| s * v).chain([t]).collect() };
            ineq.push((ext(-1.0, 0.0), -lo));
            if hi.is_finite() {
                ineq.push((ext(1.0, 0.0), hi));
            }
            if stop {
                ineq.push((ext(1.0, -1.0), 0.0));
            }
        }
        let mut x0 = vec![0.0; n + 1];
        x0[0] = -1.0;
        ineq.push((x0, 0.0));
        let k = ineq.len();
        let d = n + 1;
        let mut best = f64::INFINITY;
        let mut idx: Vec<usize> = (0..d).collect();
        'all: loop {
            let mut m: Vec<Vec<f64>> = idx.iter().map(|&i| ineq[i].0.iter().cloned().chain([ineq[i].1]).collect()).collect();
            let mut ok = true;
            for p in 0..d {
                let q = (p..d).max_by(|i, j| m[*i][p].abs().partial_cmp(&m[*j][p].abs()).unwrap()).unwrap();
                if m[q][p].abs() < 1e-9 {
                    ok = false;
                    break;
                }
                m.swap(p, q);
                for i in p + 1..d {
                    let f = m[i][p] / m[p][p];
                    for j in p..=d {
                        m[i][j] -= f * m[p][j];
                    }
                }
            }
            if ok {
                let mut x = vec![0.0; d];
                for p in (0..d).rev() {
                    let s: f64 = (p + 1..d).map(|j| m[p][j] * x[j]).sum();
                    x[p] = (m[p][d] - s) / m[p][p];
                }
                if x[n] < best && ineq.iter().all(|(a, b)| dot(a, &x) <= b + 1e-9) {
                    best = x[n];
                }
            }
            let mut i = d;
            loop {
                if i == 0 {
                    break 'all;
                }
                i -= 1;
                if idx[i] < k - d + i {
                    idx[i] += 1;
                    for j in i + 1..d {
                        idx[j] = idx[j - 1] + 1;
                    }
                    break;
                }
            }
        }
        best
    }
    fn peak(&self, x: &[f64]) -> Option<f64> {
        let mut pk = f64::NEG_INFINITY;
        for (r, lo, hi, stop) in self.rows() {
            let v = dot(&r, x);
            if v < lo - 1e-12 || v > hi + 1e-12 {
                return None;
            }
            if stop {
                pk = pk.max(v);
            }
        }
        if x[0] < 0.0 {
            None
        } else {
            Some(pk)
        }
    }
}

fn filters(c: &mut Ctx) {
    let th = c.thorough;
    let mut items: Vec<(Spec, bool)> = vec![];
    for (wp, ws) in [(0.12, 0.2), (0.3, 0.5), (0.1, 0.8), (0.05, 0.6)] {
        for (lp, up) in [(0.9, 1.1), (0.5, 1.7), (0.2, 0.4)] {
            for sp in [0.8, 5.0, 0.2] {
                items.push((Spec { n: 2, wp, ws, lp, up, sp }, true));
                if th && lp != 0.2 {
                    items.push((Spec { n: 3, wp, ws, lp, up, sp }, true));
                }
            }
        }
    }
    if !th {
        items.push((Spec { n: 3, wp: 0.1, ws: 0.6, lp: 0.8, up: 1.2, sp: 0.9 }, true));
    }
    let big: Vec<usize> = if c.deep { (4..=16).chain([20, 24]).collect() } else if th { vec![4, 5, 6, 8, 10, 12, 16] } else { vec![4, 6, 8] };
    for &n in &big {
        for (wp, ws) in [(0.12, 0.3), (0.3, 0.5)] {
            items.push((Spec { n, wp, ws, lp: 0.8, up: 1.25, sp: 2.0 }, false));
        }
    }
    c.bound(format!("{} filter specifications of orders 2 and 3 against vertex enumeration of the exact linear program; orders {:?}: the three search spaces agree on the optimum; feasibility and optimization runs", items.len() - 2 * big.len(), big));
    c.par(items, |c, (sp, exact)| {
        let n = sp.n;
        let best = if *exact { sp.best() } else { f64::NAN };
        let x0 = vec![0.0; n];
        let mut levels = vec![];
        for sys in SYSTEMS {
            let d = || format!("{:?} {:?} smallest attainable peak {}", sys, sp, best);
            let mk = || LowpassOracle::new(n, sp.wp, sp.ws, sp.lp, sp.up, sp.sp);
            let o = Options::new(20000, 1e-16);
            let (xf, kf) = with_space!(sys, 40.0, x0, s, cutting_plane_feas(&mut mk(), &mut s, &o));
            c.seen(&[xf.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), vec![kf as f64, sp.wp, sp.lp]].concat());
            c.transitions += kf as u64 + 1;
            c.traces += 1;
            if let Some(x) = &xf {
                let pk = sp.peak(x.data());
                ensure!(c, pk.map_or(false, |v| v <= sp.sp + 1e-12), "feasibility run returned {:?} with stop-band peak {:?}: {}", x.data(), pk, d());
            } else {
                ensure!(c, !(*exact && best < sp.sp - 0.02), "no design found in {} iterations: {}", kf, d());
            }
            let mut gamma = sp.sp;
            let (xo, ko) = with_space!(sys, 40.0, x0, s, cutting_plane_optim(&mut mk(), &mut s, &mut gamma, &o));
            c.seen(&[xo.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), vec![ko as f64, sp.wp, sp.lp]].concat());
            c.transitions += ko as u64 + 1;
            c.traces += 1;
            match &xo {
                Some(x) => {
                    let pk = sp.peak(x.data());
                    ensure!(c, pk.map_or(false, |v| (v - gamma).abs() <= 1e-9), "design {:?} has stop-band peak {:?} but {} is reported: {}", x.data(), pk, gamma, d());
                    if *exact {
                        ensure!(c, gamma >= best - 1e-7 && gamma <= best + 1e-4, "level {} after {} iterations: {}", gamma, ko, d());
                    }
                    levels.push(gamma);
                }
                None => {
                    ensure!(c, gamma == sp.sp, "no design but the level is {}: {}", gamma, d());
                    ensure!(c, !(*exact && best < sp.sp - 0.02), "no design found in {} iterations: {}", ko, d());
                }
            }
        }
        ensure!(c, levels.is_empty() || levels.len() == 3 || (best - sp.sp).abs() < 0.02, "only {} of 3 search spaces found a design: {:?}", levels.len(), sp);
        for w in levels.windows(2) {
            ensure!(c, (w[0] - w[1]).abs() <= 1e-3 * (1e-3 + w[0].abs()), "search spaces disagree on the optimum: {:?} for {:?}", levels, sp);
        }
        c.sample(|| format!("{:?}: levels {:?}, exact {}", sp, levels, best));
    });
}
