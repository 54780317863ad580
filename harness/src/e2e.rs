//! C22: whole solves. Every problem of a finite family is solved by the real drivers on the real
//! search spaces and compared with an exact enumeration of the polytope's vertices.
use crate::ensure;
use crate::linalg::*;
use crate::rt::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::quasicvx::MyOracle;

/// polytope: rows a.x <= b, with an optional lower bound lo <= a.x for slab rows
#[derive(Clone, Debug)]
struct Poly {
    n: usize,
    rows: Vec<(Vec<f64>, f64)>,
    obj: Vec<f64>,
    /// the row the oracle looks at next
    idx: usize,
    level: f64,
    parallel: bool,
    box_r: f64,
}
impl Poly {
    /// first violated constraint, round robin; the box is given as slabs when `parallel`
    fn violated(&mut self, x: &[f64]) -> Option<(Vec<f64>, f64, Option<f64>)> {
        let total = self.rows.len() + 2 * self.n;
        for _ in 0..total {
            self.idx = (self.idx + 1) % total;
            let i = self.idx;
            if i < self.rows.len() {
                let (a, b) = &self.rows[i];
                let v = dot(a, x) - b;
                if v > 0.0 {
                    return Some((a.clone(), v, None));
                }
            } else {
                let k = (i - self.rows.len()) / 2;
                let s = if (i - self.rows.len()) % 2 == 0 { 1.0 } else { -1.0 };
                let v = s * x[k] - self.box_r;
                if v > 0.0 {
                    let mut g = vec![0.0; self.n];
                    g[k] = s;
                    return Some((g, v, if self.parallel { Some(s * x[k] + self.box_r) } else { None }));
                }
            }
        }
        None
    }
    fn all_rows(&self) -> Vec<(Vec<f64>, f64)> {
        let mut r = self.rows.clone();
        for k in 0..self.n {
            for s in [1.0, -1.0] {
                let mut g = vec![0.0; self.n];
                g[k] = s;
                r.push((g, self.box_r));
            }
        }
        r
    }
}
impl OracleFeas<Arr> for Poly {
    type CutChoice = ParallelCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, ParallelCut)> {
        if let Some((g, v, b1)) = self.violated(x.data()) {
            return Some((Arr::from(g), ParallelCut(v, b1)));
        }
        let v = dot(&self.obj, x.data()) - self.level;
        if v > 0.0 {
            return Some((Arr::from(self.obj.clone()), ParallelCut(v, None)));
        }
        None
    }
    fn update(&mut self, gamma: f64) {
        self.level = gamma;
    }
}
impl OracleOptim<Arr> for Poly {
    type CutChoice = ParallelCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, ParallelCut), bool) {
        if let Some((g, v, b1)) = self.violated(x.data()) {
            return ((Arr::from(g), ParallelCut(v, b1)), false);
        }
        let f = dot(&self.obj, x.data());
        let v = f - *gamma;
        if v > 0.0 {
            return ((Arr::from(self.obj.clone()), ParallelCut(v, None)), false);
        }
        *gamma = f;
        ((Arr::from(self.obj.clone()), ParallelCut(0.0, None)), true)
    }
}
struct Single(Poly);
impl OracleFeas<Arr> for Single {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        self.0.assess_feas(x).map(|(g, ParallelCut(b, _))| (g, SingleCut(b)))
    }
    fn update(&mut self, gamma: f64) {
        self.0.level = gamma;
    }
}
impl OracleOptim<Arr> for Single {
    type CutChoice = SingleCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, SingleCut), bool) {
        let ((g, ParallelCut(b, _)), s) = self.0.assess_optim(x, gamma);
        ((g, SingleCut(b)), s)
    }
}
/// integer points: rounds the centre, answers with the constraint or objective at the rounded point
struct Discrete {
    p: Poly,
    xd: Vec<f64>,
}
impl OracleOptimQ<Arr> for Discrete {
    type CutChoice = SingleCut;
    fn assess_optim_q(&mut self, x: &Arr, gamma: &mut f64, retry: bool) -> ((Arr, SingleCut), bool, Arr, bool) {
        if !retry {
            if let Some((g, v, _)) = self.p.violated(x.data()) {
                return ((Arr::from(g), SingleCut(v)), false, x.clone(), true);
            }
            self.xd = x.iter().map(|v| v.round()).collect();
        }
        let xd = self.xd.clone();
        let shift = |g: &[f64]| dot(g, &xd) - dot(g, x.data());
        if let Some((g, v, _)) = self.p.violated(&xd) {
            let b = v + shift(&g);
            // g'(z - xd) + v <= 0 restated at the centre: g'(z - x) + v - g'(xd - x)
            let b = b - 2.0 * shift(&g);
            return ((Arr::from(g), SingleCut(b)), false, Arr::from(xd), !retry);
        }
        let f = dot(&self.p.obj, &xd);
        let g = self.p.obj.clone();
        let fx = dot(&g, x.data());
        let shrunk = f < *gamma;
        if shrunk {
            *gamma = f;
        }
        ((Arr::from(g), SingleCut(fx - *gamma)), shrunk, Arr::from(xd), !retry)
    }
}

fn solve_lin(rows: &[(&[f64], f64)], n: usize) -> Option<Vec<f64>> {
    let mut m: Vec<Vec<f64>> = rows.iter().map(|(a, b)| a.iter().cloned().chain([*b]).collect()).collect();
    for p in 0..n {
        let q = (p..n).max_by(|i, j| m[*i][p].abs().partial_cmp(&m[*j][p].abs()).unwrap())?;
        if m[q][p].abs() < 1e-9 {
            return None;
        }
        m.swap(p, q);
        for i in 0..n {
            if i != p {
                let f = m[i][p] / m[p][p];
                for j in p..=n {
                    m[i][j] -= f * m[p][j];
                }
            }
        }
    }
    Some((0..n).map(|i| m[i][n] / m[i][i]).collect())
}
/// exact minimum of obj over the polytope by vertex enumeration
fn vertices(p: &Poly, u: f64) -> Vec<Vec<f64>> {
    let rows = p.all_rows();
    let n = p.n;
    let k = rows.len();
    let mut out = vec![];
    let mut idx: Vec<usize> = (0..n).collect();
    loop {
        let sel: Vec<(&[f64], f64)> = idx.iter().map(|&i| (&rows[i].0[..], rows[i].1)).collect();
        if let Some(x) = solve_lin(&sel, n) {
            if rows.iter().all(|(a, b)| dot(a, &x) <= b + 1e-9 * u) {
                out.push(x);
            }
        }
        // next combination
        let mut i = n;
        loop {
            if i == 0 {
                return out;
            }
            i -= 1;
            if idx[i] < k - n + i {
                idx[i] += 1;
                for j in i + 1..n {
                    idx[j] = idx[j - 1] + 1;
                }
                break;
            }
        }
    }
}
/// a lower bound on the inradius: distance of the vertex mean to the closest facet
fn inradius(p: &Poly, vs: &[Vec<f64>]) -> f64 {
    if vs.is_empty() {
        return -1.0;
    }
    let mut m = vec![0.0; p.n];
    for v in vs {
        for i in 0..p.n {
            m[i] += v[i] / vs.len() as f64;
        }
    }
    p.all_rows().iter().map(|(a, b)| (b - dot(a, &m)) / norm(a)).fold(f64::INFINITY, f64::min)
}

#[derive(Clone, Copy, Debug)]
enum Sys {
    Ell,
    EllNoDefer,
    Stable,
}

/// `u`: unit in which the variables are measured (the problem is the base problem times `u`)
/// `wide`: how many times wider than necessary the starting ball is
fn lp_case(c: &mut Ctx, p: &Poly, x0: &[f64], u: f64, wide: f64) {
    let n = p.n;
    let vs = vertices(p, u);
    let rad = inradius(p, &vs);
    let empty = {
        // certainly empty: even the polytope relaxed by 1e-3 has no vertex
        let mut q = p.clone();
        q.rows.iter_mut().for_each(|r| r.1 += 1e-3 * u);
        q.box_r += 1e-3 * u;
        vs.is_empty() && vertices(&q, u).is_empty()
    };
    let fat = rad > 0.05 * u;
    if !fat && !empty {
        return;
    }
    let opt = vs.iter().map(|v| dot(&p.obj, v)).fold(f64::INFINITY, f64::min);
    // a ball that contains the box
    let r2 = {
        let d: f64 = x0.iter().map(|v| (v.abs() + p.box_r).powi(2)).sum();
        d * 1.0001 * wide * wide
    };
    let tol: f64 = if n <= 3 { 1e-18 } else { 1e-12 };
    let o = Options::new(if n <= 3 { 4000 } else { 20000 }, tol * u * u);
    // the level set at distance e above the minimum contains a ball of radius rad * e / (largest
    // value on the polytope - minimum), so a run that stopped because the size fell to `tol` was
    // closer than this to the minimum
    let gap = {
        let worst = vs.iter().map(|v| dot(&p.obj, v)).fold(f64::NEG_INFINITY, f64::max) - opt;
        let gmin = p.all_rows().iter().map(|r| norm(&r.0)).fold(norm(&p.obj), f64::min);
        (2.0 * tol.sqrt() * u * worst / (rad.max(1e-300) * gmin)).max(1e-5 * u)
    };
    // each cut shrinks the volume by exp(-1/(2(n+1))) or more, and the ball that fits stays inside
    let most = 2.0 * (n as f64 + 1.0) * n as f64 * (r2.sqrt() / rad.max(1e-300)).ln() + 2.0;
    for sys in [Sys::Ell, Sys::EllNoDefer, Sys::Stable] {
        for single in [true, false] {
            if !single && wide > 1e6 {
                continue;
            }
            let d = || format!("{:?} single cuts {} start {:?} radius^2 {} rows {:?} box {} objective {:?}", sys, single, x0, r2, p.rows, p.box_r, p.obj);
            macro_rules! with_space {
                ($s:ident, $body:expr) => {
                    match sys {
                        Sys::Stable => {
                            let mut $s = EllStable::new_with_scalar(r2, Arr::from(x0.to_vec()));
                            $body
                        }
                        _ => {
                            let mut $s = Ell::new_with_scalar(r2, Arr::from(x0.to_vec()));
                            $s.no_defer_trick = matches!(sys, Sys::EllNoDefer);
                            $body
                        }
                    }
                };
            }
            let inside = |x: &[f64], tol: f64| p.all_rows().iter().all(|(a, b)| dot(a, x) <= b + tol);
            // feasibility
            let (xf, kf) = with_space!(s, {
                if single {
                    let mut q = Single(p.clone());
                    q.0.level = f64::INFINITY;
                    cutting_plane_feas(&mut q, &mut s, &o)
                } else {
                    let mut q = p.clone();
                    q.level = f64::INFINITY;
                    cutting_plane_feas(&mut q, &mut s, &o)
                }
            });
            c.seen(&[xf.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), x0.to_vec(), p.obj.clone(), vec![kf as f64]].concat());
            c.transitions += kf as u64 + 1;
            match &xf {
                Some(x) => {
                    ensure!(c, !fat || (kf as f64) <= most, "feasibility run took {} iterations, the volume argument allows {}: {}", kf, most, d());
                    ensure!(c, inside(x.data(), 0.0), "feasibility run returned an infeasible point {:?}: {}", x.data(), d());
                }
                None => {
                    ensure!(c, !fat, "no feasible point found in {} iterations although a ball of radius {} fits: {}", kf, rad, d());
                }
            }
            // optimization
            let mut gamma = f64::INFINITY;
            let (xo, ko) = with_space!(s, {
                if single {
                    let mut q = Single(p.clone());
                    cutting_plane_optim(&mut q, &mut s, &mut gamma, &o)
                } else {
                    let mut q = p.clone();
                    cutting_plane_optim(&mut q, &mut s, &mut gamma, &o)
                }
            });
            c.seen(&[xo.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), x0.to_vec(), p.obj.clone(), vec![ko as f64]].concat());
            c.transitions += ko as u64 + 1;
            match &xo {
                Some(x) => {
                    ensure!(c, inside(x.data(), 0.0), "optimization returned an infeasible point {:?}: {}", x.data(), d());
                    let f = dot(&p.obj, x.data());
                    ensure!(c, f == gamma || (f - gamma).abs() <= 1e-12 * f.abs(), "returned point has value {} but the reported optimum is {}: {}", f, gamma, d());
                    ensure!(c, f >= opt - 1e-9 * u, "value {} below the exact minimum {}: {}", f, opt, d());
                    ensure!(c, f <= opt + gap, "value {} but the exact minimum is {} ({} iterations): {}", f, opt, ko, d());
                }
                None => {
                    ensure!(c, !fat, "no solution found in {} iterations although a ball of radius {} fits: {}", ko, rad, d());
                    ensure!(c, gamma == f64::INFINITY, "no solution but the level was set to {}: {}", gamma, d());
                }
            }
            c.traces += 2;
            // bisection on the level
            if fat {
                let lim = 3.0 * p.box_r * p.obj.iter().map(|v| v.abs()).sum::<f64>();
                let mut iv = (-lim, lim);
                let bo = Options::new(60, 1e-4 * u);
                let (ok, _) = with_space!(s, {
                    s.set_xc(Arr::from(x0.to_vec()));
                    let _ = &mut s;
                    if single {
                        let mut ad = BSearchAdaptor::new(Single(p.clone()), s, o.clone_opts());
                        bsearch(&mut ad, &mut iv, &bo)
                    } else {
                        let mut ad = BSearchAdaptor::new(p.clone(), s, o.clone_opts());
                        bsearch(&mut ad, &mut iv, &bo)
                    }
                });
                c.seen(&[vec![iv.0, iv.1], x0.to_vec(), p.obj.clone()].concat());
                c.transitions += 1;
                c.traces += 1;
                ensure!(c, ok, "bisection found no attainable level: {}", d());
                ensure!(c, iv.1 >= opt - 1e-9 * u && iv.1 <= opt + 0.02 * u, "bisection ended at {:?}, exact minimum {}: {}", iv, opt, d());
            }
        }
        // integer points
        if n == 2 && fat && u == 1.0 {
            let o = Options::new(2000, 1e-14);
            let mut q = Discrete { p: p.clone(), xd: vec![0.0; n] };
            let mut gamma = f64::INFINITY;
            let (xo, ko) = match sys {
                Sys::Stable => {
                    let mut s = EllStable::new_with_scalar(r2, Arr::from(x0.to_vec()));
                    cutting_plane_optim_q(&mut q, &mut s, &mut gamma, &o)
                }
                _ => {
                    let mut s = Ell::new_with_scalar(r2, Arr::from(x0.to_vec()));
                    s.no_defer_trick = matches!(sys, Sys::EllNoDefer);
                    cutting_plane_optim_q(&mut q, &mut s, &mut gamma, &o)
                }
            };
            c.seen(&[xo.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), x0.to_vec(), p.obj.clone(), vec![ko as f64]].concat());
            c.transitions += ko as u64 + 1;
            c.traces += 1;
            let d = || format!("discrete {:?} start {:?} rows {:?} box {} objective {:?}", sys, x0, p.rows, p.box_r, p.obj);
            if let Some(x) = xo {
                let inside = p.all_rows().iter().all(|(a, b)| dot(a, x.data()) <= b + 1e-9);
                ensure!(c, inside && x.iter().all(|v| *v == v.round()), "discrete run returned {:?}, not a feasible integer point: {}", x.data(), d());
                ensure!(c, dot(&p.obj, x.data()) == gamma, "discrete run returned {:?} but reports level {}: {}", x.data(), gamma, d());
            }
        }
    }
    c.sample(|| format!("rows {:?} objective {:?} minimum {}", p.rows, p.obj, opt));
}

trait CloneOpts {
    fn clone_opts(&self) -> Options;
}
impl CloneOpts for Options {
    fn clone_opts(&self) -> Options {
        Options::new(self.max_iters, self.tolerance)
    }
}

pub fn c22(c: &mut Ctx) {
    let th = c.thorough;
    let mut items: Vec<(Poly, Vec<f64>)> = vec![];
    // planar problems: every pair (thorough: triple) of half planes from a lattice
    let dirs: Vec<[f64; 2]> = vec![[1.0, 0.0], [1.0, 1.0], [0.0, 1.0], [-1.0, 2.0], [-1.0, 0.0], [-2.0, -1.0], [0.0, -1.0], [1.0, -1.0]];
    let bs: &[f64] = if c.deep { &[-1.6, -1.0, -0.3, 0.1, 0.5, 0.9, 1.25, 1.9] } else if th { &[-1.0, -0.3, 0.5, 1.25, 1.9] } else { &[-1.0, 0.5, 1.25] };
    let halves: Vec<(Vec<f64>, f64)> = dirs.iter().flat_map(|d| bs.iter().map(move |b| (d.to_vec(), *b))).collect();
    let objs: Vec<Vec<f64>> = vec![vec![1.0, 2.0], vec![-3.0, 1.0], vec![0.0, -1.0]];
    let x0s: Vec<Vec<f64>> = vec![vec![0.0, 0.0], vec![2.5, -1.0]];
    for i in 0..halves.len() {
        for j in i + 1..halves.len() {
            for obj in &objs {
                for x0 in &x0s {
                    let p = Poly { n: 2, rows: vec![halves[i].clone(), halves[j].clone()], obj: obj.clone(), idx: 0, level: 0.0, parallel: true, box_r: 2.0 };
                    items.push((p.clone(), x0.clone()));
                    {
                        for k in (j + 1..halves.len()).filter(|k| th || (i + j + k) % 3 == 0) {
                            let mut q = p.clone();
                            q.rows.push(halves[k].clone());
                            items.push((q, x0.clone()));
                        }
                    }
                }
            }
        }
    }
    // three variables
    let d3: Vec<[f64; 3]> = vec![[1.0, 1.0, 1.0], [1.0, -1.0, 0.0], [0.0, 2.0, -1.0], [-1.0, 0.0, 1.0], [-1.0, -1.0, 2.0], [0.5, 0.0, 0.0]];
    for i in 0..d3.len() {
        for j in 0..d3.len() {
            if i == j {
                continue;
            }
            for b in [0.25, -0.5] {
                for obj in [vec![1.0, 2.0, -1.0], vec![-1.0, 0.0, 0.5]] {
                    items.push((
                        Poly { n: 3, rows: vec![(d3[i].to_vec(), b), (d3[j].to_vec(), 1.0)], obj, idx: 0, level: 0.0, parallel: true, box_r: 1.5 },
                        vec![0.5, -0.25, 0.0],
                    ));
                }
            }
        }
    }
    // more variables
    for n in (4..=if c.deep { 7usize } else if th { 6 } else { 5 }).chain([8]) {
        for k in 0..if n == 8 { 3usize } else { 12 } {
            let row = |m: usize| -> Vec<f64> { (0..n).map(|i| [1.0, -1.0, 0.5, 0.0, 2.0][(i * (m + 2) + k + m) % 5]).collect() };
            let obj: Vec<f64> = (0..n).map(|i| [1.0, -2.0, 0.25][(i + k) % 3]).collect();
            let rows: Vec<(Vec<f64>, f64)> = (0..1 + k % 3).map(|m| (row(m), [0.75, -0.25, 0.5][(m + k) % 3])).collect();
            items.push((Poly { n, rows, obj, idx: 0, level: 0.0, parallel: true, box_r: 1.0 + (k % 2) as f64 }, (0..n).map(|i| 0.25 * (i % 3) as f64 - 0.25).collect()));
        }
    }
    c.bound(format!("{} linear problems in 2 to 8 variables (all pairs and {} of lattice half-spaces in a box, all listed objectives, 2 start centres), one in seven also in units 2^-40 and 2^40, and one in {} also from balls 1e3, 1e6 and (single cuts) 1e9 times wider x 3 search spaces x single/parallel cuts: feasibility, optimization, bisection, discrete runs, against exact vertex enumeration", items.len(), if th { "all triples" } else { "a third of the triples" }, if th { 5 } else { 11 }));
    // chunk
    let mut items: Vec<(Poly, Vec<f64>, f64, f64)> = items.into_iter().map(|(p, x)| (p, x, 1.0, 1.0)).collect();
    let mut more = vec![];
    for (p, x, _, _) in items.iter().step_by(if th { 5 } else { 11 }) {
        for w in [1e3, 1e6, 1e9] {
            more.push((p.clone(), x.clone(), 1.0, w));
        }
    }
    for (p, x, _, _) in items.iter().step_by(7) {
        for u in [2f64.powi(-40), 2f64.powi(40)] {
            let mut q = p.clone();
            q.rows.iter_mut().for_each(|r| r.1 *= u);
            q.box_r *= u;
            more.push((q, x.iter().map(|v| v * u).collect::<Vec<f64>>(), u, 1.0));
        }
    }
    items.extend(more);
    // the expensive ones first
    items.sort_by_key(|(p, _, _, _)| std::cmp::Reverse(p.n));
    let chunks: Vec<Vec<(Poly, Vec<f64>, f64, f64)>> = items.chunks(4).map(|x| x.to_vec()).collect();
    c.par(chunks, |c, ch| {
        for (p, x0, u, w) in ch {
            c.cur = format!("{:?} start {:?}", p, x0);
            lp_case(c, p, x0, *u, *w);
            if c.stopped() {
                return;
            }
        }
        c.cur.clear();
    });
    if c.stopped() {
        return;
    }
    apps(c);
}

/// the shipped oracles solved from a grid of starting ellipsoids: all runs agree on the optimum
fn apps(c: &mut Ctx) {
    let th = c.thorough;
    let radii: Vec<f64> = if th { vec![60.0, 100.0, 300.0, 1000.0, 5000.0] } else { vec![60.0, 100.0, 400.0] };
    let starts: Vec<[f64; 2]> = if th {
        words(5, 2).iter().map(|w| [w[0] as f64 * 0.9 - 0.5, w[1] as f64 * 0.8 + 0.25]).collect()
    } else {
        words(3, 2).iter().map(|w| [w[0] as f64 * 1.7 - 0.5, w[1] as f64 * 1.3 + 0.25]).collect()
    };
    c.bound(format!("profit (plain, robust, discrete) and quasi-convex problems from {} starting ellipsoids x 3 search spaces", radii.len() * starts.len()));
    // reference optima by ternary search over the exact objective (concave in the logs / quasi-concave)
    let (p, a, k) = (20.0, 40.0, 30.5);
    let al = [0.1, 0.4];
    let v = [10.0, 35.0];
    let margins = (0.003, 0.007, 1.0, 1.0, 1.0);
    let prof = |p: f64, al: [f64; 2], v: [f64; 2], y: [f64; 2]| (p * a) * (al[0] * y[0] + al[1] * y[1]).exp() - v[0] * y[0].exp() - v[1] * y[1].exp();
    let best = |f: &dyn Fn([f64; 2]) -> f64, lim: f64| -> f64 {
        let inner = |y0: f64| {
            let (mut lo, mut hi) = (-3.0f64, 6.0f64);
            for _ in 0..200 {
                let (m1, m2) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
                if f([y0, m1]) < f([y0, m2]) { lo = m1 } else { hi = m2 }
            }
            f([y0, lo])
        };
        let (mut lo, mut hi) = (-3.0f64, lim.ln());
        for _ in 0..200 {
            let (m1, m2) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
            if inner(m1) < inner(m2) { lo = m1 } else { hi = m2 }
        }
        inner(hi)
    };
    let opt = best(&|y| prof(p, al, v, y), k);
    let rb = |y: [f64; 2]| {
        let e = [margins.0, margins.1];
        let mut w = al;
        for i in 0..2 {
            w[i] += if y[i] > 0.0 { -e[i] } else { e[i] };
        }
        prof(p - margins.2, w, [v[0] + margins.4, v[1] + margins.4], y)
    };
    let opt_rb = best(&rb, k - margins.3);
    // best integer input
    let mut opt_int = f64::NEG_INFINITY;
    for i in 1..=30 {
        for j in 1..=80 {
            opt_int = f64::max(opt_int, prof(p, al, v, [(i as f64).ln(), (j as f64).ln()]));
        }
    }
    // quasi-convex: maximize s/exp(l), s^2 <= l  ->  s exp(-s^2), s = 1/sqrt 2
    let opt_qc = (0.5f64).sqrt() * (-0.5f64).exp();
    let arr = |v: &[f64]| Arr::from(v.to_vec());
    let mut items = vec![];
    for &r in &radii {
        for s in &starts {
            for which in 0..4u8 {
                for sys in [Sys::Ell, Sys::EllNoDefer, Sys::Stable] {
                    items.push((r, *s, which, sys));
                }
            }
        }
    }
    c.par(items, |c, &(r, s, which, sys)| {
        let o = Options::new(2000, 1e-16);
        macro_rules! run {
            ($f:ident, $or:expr, $g:expr, $r:expr) => {{
                let mut gamma: f64 = $g;
                let (x, k) = match sys {
                    Sys::Stable => {
                        let mut sp = EllStable::new_with_scalar($r, arr(&s));
                        $f(&mut $or, &mut sp, &mut gamma, &o)
                    }
                    _ => {
                        let mut sp = Ell::new_with_scalar($r, arr(&s));
                        sp.no_defer_trick = matches!(sys, Sys::EllNoDefer);
                        $f(&mut $or, &mut sp, &mut gamma, &o)
                    }
                };
                (x, k, gamma)
            }};
        }
        let (x, k1, gamma) = match which {
            0 => run!(cutting_plane_optim, ProfitOracle::new((p, a, k), arr(&al), arr(&v)), 0.0, r),
            1 => run!(cutting_plane_optim, ProfitRbOracle::new((p, a, k), arr(&al), arr(&v), margins), 0.0, r),
            2 => run!(cutting_plane_optim_q, ProfitOracleQ::new((p, a, k), arr(&al), arr(&v)), 0.0, r),
            _ => run!(cutting_plane_optim, MyOracle::default(), 0.0, r / 10.0),
        };
        c.seen(&[x.as_ref().map(|x| x.data().to_vec()).unwrap_or_default(), s.to_vec(), vec![k1 as f64, gamma]].concat());
        c.transitions += k1 as u64 + 1;
        c.traces += 1;
        let d = || format!("problem {} radius^2 {} start {:?} {:?}: got {:?} level {} after {} iterations", which, r, s, sys, x.as_ref().map(|x| x.data().to_vec()), gamma, k1);
        ensure!(c, x.is_some(), "no solution: {}", d());
        let x = x.as_ref().unwrap();
        let y = [x[0], x[1]];
        match which {
            0 | 1 => {
                let (ref_opt, val, lim) = if which == 0 { (opt, prof(p, al, v, y), k) } else { (opt_rb, rb(y), k - margins.3) };
                ensure!(c, y[0] <= lim.ln() + 1e-12, "capacity exceeded: {}", d());
                ensure!(c, (val - gamma).abs() < 1e-6, "profit at the returned point is {}: {}", val, d());
                ensure!(c, (gamma - ref_opt).abs() < 1e-3 * ref_opt, "true optimum {}: {}", ref_opt, d());
            }
            2 => {
                ensure!(c, y.iter().all(|v| (v.exp() - v.exp().round()).abs() < 1e-9 * v.exp()), "not integral: {}", d());
                ensure!(c, y[0] <= k.ln() + 1e-12, "capacity exceeded: {}", d());
                ensure!(c, (prof(p, al, v, y) - gamma).abs() < 1e-6, "profit at the returned point is {}: {}", prof(p, al, v, y), d());
                ensure!(c, gamma <= opt_int + 1e-6, "level above the integer optimum {}: {}", opt_int, d());
            }
            _ => {
                ensure!(c, y[0] * y[0] <= y[1] + 1e-12, "constraint violated: {}", d());
                ensure!(c, (y[0] / y[1].exp() - gamma).abs() < 1e-9, "level is not the value at the point: {}", d());
                ensure!(c, (gamma - opt_qc).abs() < 1e-6, "true optimum {}: {}", opt_qc, d());
            }
        }
        c.sample(d);
    });
}
