//! C16..C18: the application oracles (filter design, profit maximization, quasi-convex, SVM, max-cut).
use crate::ensure;
use crate::rt::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::quasicvx::MyOracle;

const EPS: f64 = 1e-9;

// ------------------------------------------------------------------ C16 low-pass filter

#[derive(Clone, Debug)]
struct Lp {
    n: usize,
    wp: f64,
    ws: f64,
    lp: f64,
    up: f64,
    sp: f64,
    /// size of the responses this specification is about
    unit: f64,
}
struct Band {
    rows: Vec<Vec<f64>>,
    npass: usize,
    nstop: usize,
}
fn bands(l: &Lp) -> Band {
    let m = 15 * l.n;
    let rows = (0..m)
        .map(|i| {
            let w = std::f64::consts::PI * i as f64 / (m - 1) as f64;
            (0..l.n).map(|j| if j == 0 { 1.0 } else { 2.0 * (w * j as f64).cos() }).collect()
        })
        .collect();
    // samples at normalized frequency i/(m-1) <= wpass are in the pass band, > wstop in the stop band
    let npass = (0..m).filter(|&i| i as f64 / (m - 1) as f64 <= l.wp).count();
    let nstop = (0..m).filter(|&i| i as f64 / (m - 1) as f64 <= l.ws).count();
    Band { rows, npass, nstop }
}
fn lp_make(l: &Lp) -> LowpassOracle {
    LowpassOracle::new(l.n, l.wp, l.ws, l.lp, l.up, l.sp)
}

/// classification of a design: Some(true) satisfies everything, Some(false) clearly violates, None too close
struct Cls {
    feas: Option<bool>,
    fmax: f64,
    second: f64,
    kmax: usize,
}
/// closer than this to a bound is a matter of rounding; the specification sets the unit
fn eps(l: &Lp) -> f64 {
    EPS * l.unit
}
fn classify(b: &Band, l: &Lp, sp: f64, x: &[f64]) -> Cls {
    let ep = eps(l);
    let m = b.rows.len();
    let mut viol = false;
    let mut near = false;
    let (mut fmax, mut second, mut kmax) = (f64::NEG_INFINITY, f64::NEG_INFINITY, 0);
    let mut chk = |d: f64| {
        // d > 0 violated
        if d.abs() < ep {
            near = true;
        } else if d > 0.0 {
            viol = true;
        }
    };
    for i in 0..m {
        let v: f64 = crate::linalg::dot(&b.rows[i], x);
        if i < b.npass {
            chk(v - l.up);
            chk(l.lp - v);
        } else if i >= b.nstop {
            chk(v - sp);
            chk(-v);
            if v > fmax {
                second = fmax;
                fmax = v;
                kmax = i;
            } else if v > second {
                second = v;
            }
        } else {
            chk(-v);
        }
    }
    chk(-x[0]);
    Cls {
        feas: if viol { Some(false) } else if near { None } else { Some(true) },
        fmax,
        second,
        kmax,
    }
}

/// do all sampled frequencies meet their bounds (the sign of the leading coefficient left aside)?
fn lp_sampled_ok(b: &Band, l: &Lp, sp: f64, x: &[f64]) -> Option<bool> {
    let ep = eps(l);
    let mut near = false;
    for (i, r) in b.rows.iter().enumerate() {
        let v = crate::linalg::dot(r, x);
        let (lo, hi) = if i < b.npass {
            (l.lp, l.up)
        } else if i >= b.nstop {
            (0.0, sp)
        } else {
            (0.0, f64::INFINITY)
        };
        if v > hi + ep || v < lo - ep {
            return Some(false);
        }
        near |= v > hi - ep || v < lo + ep;
    }
    if near {
        None
    } else {
        Some(true)
    }
}

/// Does the cut state one of the design constraints violated at x, with both its bounds?
fn lp_cut_ok(b: &Band, l: &Lp, sp: f64, x: &[f64], g: &[f64], b0: f64, b1: Option<f64>) -> bool {
    let ep = eps(l);
    let m = b.rows.len();
    let cl = |a: f64, r: f64| (a - r).abs() <= 1e-9 * (l.unit + a.abs().max(r.abs()));
    let o1 = |want: Option<f64>| match (b1, want) {
        (None, None) => true,
        (Some(a), Some(r)) => cl(a, r),
        _ => false,
    };
    if b0 < -ep {
        return false;
    }
    for i in 0..m {
        let v = crate::linalg::dot(&b.rows[i], x);
        for s in [1.0, -1.0] {
            if !g.iter().zip(&b.rows[i]).all(|(a, r)| (a - s * r).abs() <= 1e-9) {
                continue;
            }
            let ok = if i < b.npass {
                if s > 0.0 {
                    v > l.up - ep && cl(b0, v - l.up) && o1(Some(v - l.lp))
                } else {
                    v < l.lp + ep && cl(b0, l.lp - v) && o1(Some(l.up - v))
                }
            } else if i >= b.nstop {
                if s > 0.0 {
                    v > sp - ep && cl(b0, v - sp) && o1(Some(v))
                } else {
                    v < ep && cl(b0, -v) && o1(Some(sp - v))
                }
            } else {
                s < 0.0 && v < ep && cl(b0, -v) && o1(None)
            };
            if ok {
                return true;
            }
        }
    }
    // the gain itself
    g[0] == -1.0 && g[1..].iter().all(|v| *v == 0.0) && x[0] < ep && cl(b0, -x[0]) && o1(None)
}

fn lp_query(c: &mut Ctx, o: &mut LowpassOracle, b: &Band, l: &Lp, x: &[f64], optim: Option<f64>, hist: &str) {
    let ep = eps(l);
    let sp = optim.unwrap_or(o.sp_sq);
    let cls = classify(b, l, sp, x);
    c.states += 1;
    c.transitions += 1;
    let xa = Arr::from(x.to_vec());
    let d = || format!("{:?} stop-band bound {} at x = {:?} after {}", l, sp, x, hist);
    match optim {
        None => {
            let r = o.assess_feas(&xa);
            if lp_sampled_ok(b, l, sp, x) == Some(true) {
                ensure!(c, !o.more_alt, "every sampled frequency meets its bound, yet further violations are announced: {}", d());
            } else if lp_sampled_ok(b, l, sp, x) == Some(false) {
                ensure!(c, o.more_alt, "a sampled frequency violates its bound, yet none is announced: {}", d());
            }
            if let Some(f) = cls.feas {
                ensure!(c, r.is_none() == f, "reported feasible: {}, all specifications met: {}: {}", r.is_none(), f, d());
            }
            if let Some((g, ParallelCut(b0, b1))) = r {
                ensure!(c, lp_cut_ok(b, l, sp, x, g.data(), b0, b1), "cut {:?} ({}, {:?}) is not a violated specification: {}", g.data(), b0, b1, d());
            }
        }
        Some(sp0) => {
            let mut gam = sp0;
            let ((g, ParallelCut(b0, b1)), shrunk) = o.assess_optim(&xa, &mut gam);
            if let Some(f) = lp_sampled_ok(b, l, sp, x) {
                ensure!(c, o.more_alt != f, "sampled frequencies meet their bounds: {}, further violations announced: {}: {}", f, o.more_alt, d());
            }
            if let Some(f) = cls.feas {
                ensure!(c, shrunk == f, "improved: {}, all specifications met: {}: {}", shrunk, f, d());
            }
            if shrunk {
                ensure!(c, (gam - cls.fmax).abs() <= 1e-9 * (l.unit + gam.abs()), "new bound {} but the largest stop-band value is {}: {}", gam, cls.fmax, d());
                ensure!(c, gam <= sp0 + ep, "the bound got worse, {} to {}: {}", sp0, gam, d());
                ensure!(c, b0.abs() <= ep && b1.map_or(false, |v| (v - cls.fmax).abs() <= 1e-9 * (l.unit + v.abs())), "objective cut offsets ({}, {:?}), expected (0, {}): {}", b0, b1, cls.fmax, d());
                if cls.fmax - cls.second > 1e-7 * l.unit {
                    ensure!(c, g.data().iter().zip(&b.rows[cls.kmax]).all(|(a, r)| (a - r).abs() <= 1e-9), "objective cut direction {:?} is not the row of the largest stop-band sample {}: {}", g.data(), cls.kmax, d());
                }
            } else {
                ensure!(c, gam == sp0, "bound changed from {} to {} without an improvement: {}", sp0, gam, d());
                ensure!(c, lp_cut_ok(b, l, sp, x, g.data(), b0, b1), "cut {:?} ({}, {:?}) is not a violated specification: {}", g.data(), b0, b1, d());
            }
        }
    }
}

/// Designs whose response has its extreme value at one sampled frequency and crosses a bound there only.
fn single_sample(c: &mut Ctx) {
    let top = if c.deep { 40 } else if c.thorough { 26 } else { 12 };
    let mut items = vec![];
    for n in 3..=top {
        for (wp, ws) in [(0.12, 0.20), (0.31, 0.52), (0.01, 0.97), (0.4, 0.4), (0.251, 0.83)] {
            items.push((n, wp, ws, 1));
        }
    }
    // larger orders: every few samples only
    let far = if c.deep { 100 } else if c.thorough { 66 } else { 40 };
    for n in top + 1..=far {
        for (wp, ws) in [(0.12, 0.20), (0.31, 0.52)] {
            items.push((n, wp, ws, n / 2 + 1));
        }
    }
    c.bound(format!("orders {}..{} x 2 band layouts: the same for every (n/2+1)-th sampled frequency", top + 1, far));
    c.bound(format!("orders 3..{} x 5 band layouts: for every sampled frequency, designs that violate (or are extreme) at this frequency alone, from below and from above, each asked of a fresh oracle and of one asked all earlier ones", top));
    c.par(items, |c, &(n, wp, ws, stride)| {
        let k = 1e5;
        let h = 5.0 * k;
        let m = 15 * n;
        let z = |i: usize| (std::f64::consts::PI * i as f64 / (m - 1) as f64).cos();
        // response a + b cos w + q cos^2 w
        let design = |a: f64, b: f64, q: f64| {
            let mut x = vec![0.0; n];
            x[0] = a + q / 2.0;
            x[1] = b / 2.0;
            x[2] = q / 4.0;
            x
        };
        let base = Lp { n, wp, ws, lp: 0.0, up: 10.0 * k, sp: 10.0 * k, unit: 1.0 };
        let b = bands(&base);
        if b.nstop >= m {
            return;
        }
        let mut olds: Vec<Option<LowpassOracle>> = vec![Some(lp_make(&base)), None];
        for i in (0..m).step_by(stride) {
            let zi = z(i);
            let gap = (0..m).filter(|&j| j != i).map(|j| (z(j) - zi).abs()).fold(f64::INFINITY, f64::min);
            let e = k * gap * gap / 2.0;
            if e < 1e-7 {
                continue;
            }
            // a dip to -e at sample i, at least +e everywhere else
            let dip = design(k * zi * zi - e, -2.0 * k * zi, k);
            // touching from above: everything positive
            let fine = design(k * zi * zi + e, -2.0 * k * zi, k);
            // a peak of height h at sample i, at most h - 2 e everywhere else
            let peak = design(h - k * zi * zi, 2.0 * k * zi, -k);
            let mut specs = vec![(base.clone(), dip.clone()), (base.clone(), fine), (base.clone(), peak.clone())];
            specs.push((Lp { up: h - e, ..base.clone() }, peak.clone()));
            specs.push((Lp { sp: h - e, ..base.clone() }, peak.clone()));
            // shift the dip up: below the pass-band floor at sample i only
            let up = design(k * zi * zi - e + k, -2.0 * k * zi, k);
            specs.push((Lp { lp: k, ..base.clone() }, up));
            for (l, x) in &specs {
                let mut o = lp_make(l);
                lp_query(c, &mut o, &b, l, x, None, "nothing");
                lp_query(c, &mut o, &b, l, x, Some(l.sp), "the same feasibility question");
                lp_query(c, &mut o, &b, l, x, Some(l.sp), "the same question twice");
                if c.stopped() {
                    return;
                }
            }
            if let Some(o) = &mut olds[0] {
                for x in [&dip, &peak, &dip] {
                    lp_query(c, o, &b, &base, x, None, "all earlier samples");
                    if c.stopped() {
                        return;
                    }
                }
                lp_query(c, o, &b, &base, &peak, Some(base.sp), "all earlier samples");
            }
            c.traces += specs.len() as u64 + 1;
        }
        c.sample(|| format!("order {} bands {} {}", n, wp, ws));
    });
}

pub fn c16(c: &mut Ctx) {
    let th = c.thorough;
    let mut cfg = vec![];
    for n in 1..=(if c.deep { 8 } else if th { 6 } else { 4 }) {
        for (wp, ws) in [(0.12, 0.20), (0.31, 0.52), (0.01, 0.97), (0.4, 0.4), (0.251, 0.83)] {
            for (lp, up, sp) in [(0.9, 1.1, 0.3), (0.5, 1.7, 1.2), (0.95, 1.05, 0.15), (0.0, 4.0, 3.0), (0.2, 0.6, 0.1), (2.0, 2.0, 0.5), (1.9, 3.1, 0.004)] {
                cfg.push(Lp { n, wp, ws, lp, up, sp, unit: 1.0 });
            }
            if n <= 3 {
                for e in [-40, -30, -20, -13, -7, -3, 3, 7, 10, 13, 20, 30, 40] {
                    let u = 2f64.powi(e);
                    cfg.push(Lp { n, wp, ws, lp: 0.5 * u, up: 1.7 * u, sp: 1.2 * u, unit: u });
                }
            }
        }
    }
    c.bound(format!("{} filter specifications (orders, band edges, ripple bounds)", cfg.len()));
    // designs: every vector over a value alphabet
    let mut items = vec![];
    for l in cfg {
        let vals: Vec<f64> = match (l.n, th) {
            (1, _) => (-8..=24).map(|k| k as f64 * 0.0873).collect(),
            (2, _) => vec![-0.31, 0.0, 0.07, 0.13, 0.29, 0.41, 0.53, 0.71, 0.97, 1.3],
            (3, _) => vec![-0.3, 0.03, 0.11, 0.27, 0.43, 0.9],
            (4, false) => vec![-0.11, 0.06, 0.19, 0.45],
            (4, true) => vec![-0.11, 0.0, 0.06, 0.13, 0.19, 0.33, 0.45],
            (5, _) if c.deep => vec![-0.05, 0.0, 0.03, 0.07, 0.11, 0.15, 0.2, 0.26, 0.31],
            (5, _) => vec![-0.05, 0.03, 0.11, 0.2, 0.31],
            (7, _) | (8, _) => vec![-0.05, 0.04, 0.2],
            _ => vec![-0.05, 0.04, 0.11, 0.25],
        };
        items.push((l, vals));
    }
    c.bound("per specification: every design vector over the value alphabet, as one long query history (feasibility and objective queries interleaved), and every query history of length 3 over 8 (thorough 10) designs");
    c.par(items, |c, (l, vals)| {
        let b = bands(l);
        if b.nstop >= b.rows.len() {
            return;
        }
        let all: Vec<Vec<f64>> = words(vals.len(), l.n).into_iter().map(|w| w.into_iter().map(|i| vals[i] * l.unit).collect()).collect();
        // one fresh oracle per design, then one oracle over all of them
        for x in &all {
            for opt in [None, Some(l.sp), Some(l.sp * 0.5), Some(10.0 * l.unit), Some(1e4 * l.unit), Some(1e-3 * l.unit), Some(0.0)] {
                let mut o = lp_make(l);
                lp_query(c, &mut o, &b, l, x, opt, "nothing");
                if c.stopped() {
                    return;
                }
            }
        }
        let mut o = lp_make(l);
        for x in &all {
            lp_query(c, &mut o, &b, l, x, None, "a sweep over all earlier designs");
            if c.stopped() {
                return;
            }
        }
        for x in &all {
            lp_query(c, &mut o, &b, l, x, Some(l.sp), "a sweep over all earlier designs");
            if c.stopped() {
                return;
            }
        }
        c.traces += 2 * all.len() as u64;
        // histories: a few feasible, a few infeasible
        let k = if c.deep { 10 } else if c.thorough { 5 } else { 4 };
        let mut pick: Vec<Vec<f64>> = vec![];
        for want in [true, false] {
            let cand: Vec<&Vec<f64>> = all.iter().filter(|x| classify(&b, l, l.sp, x).feas == Some(want)).collect();
            let step = (cand.len() / k).max(1);
            pick.extend(cand.iter().step_by(step).take(k).map(|x| (*x).clone()));
        }
        for w in words(pick.len(), 3) {
            for mode in 0..4u8 {
                let mut o = lp_make(l);
                for (i, &q) in w.iter().enumerate() {
                    let opt = if mode >> (i % 2) & 1 == 1 { Some(o.sp_sq) } else { None };
                    lp_query(c, &mut o, &b, l, &pick[q], opt, "a short history");
                    if c.stopped() {
                        return;
                    }
                }
                c.traces += 1;
            }
        }
        // minimizing the bound along a history of improving objective queries
        for w in words(pick.len(), 3) {
            let mut o = lp_make(l);
            let mut gam = l.sp;
            for &q in &w {
                let cls = classify(&b, l, gam, &pick[q]);
                let g0 = gam;
                let ((g, ParallelCut(b0, b1)), shrunk) = o.assess_optim(&Arr::from(pick[q].clone()), &mut gam);
                c.states += 1;
                c.transitions += 1;
                if cls.feas.is_some() {
                    ensure!(c, Some(shrunk) == cls.feas, "improved: {} specifications met: {:?} with bound {} at {:?}: {:?}", shrunk, cls.feas, g0, pick[q], l);
                }
                if !shrunk {
                    ensure!(c, lp_cut_ok(&b, l, g0, &pick[q], g.data(), b0, b1), "cut {:?} ({}, {:?}) is not a violated specification for bound {} at {:?}: {:?}", g.data(), b0, b1, g0, pick[q], l);
                }
            }
            c.traces += 1;
        }
        c.sample(|| format!("{:?}: {} designs", l, all.len()));
    });
    if c.stopped() {
        return;
    }
    single_sample(c);
    if c.stopped() {
        return;
    }
    // the packaged design case
    let mut orders: Vec<usize> = (2..=(if c.deep { 80 } else if th { 40 } else { 20 })).collect();
    orders.extend([32, 49, 64, 100]);
    c.bound(format!("packaged design case and a wide-tolerance specification, orders {:?}, 12 designs each plus single-coefficient ripples", orders));
    for n in orders {
        // a specification so wide that the flat response and small ripples on it are feasible
        let l = Lp { n, wp: 0.31, ws: 0.52, lp: 0.1, up: 2.3, sp: 1.9, unit: 1.0 };
        let b = bands(&l);
        let mut o = lp_make(&l);
        ensure!(c, o.spectrum.len() == b.rows.len(), "order {}: {} sampled frequencies, expected {}", n, o.spectrum.len(), b.rows.len());
        for j in 0..n {
            for a in [0.05, -0.05, 0.9, -0.61] {
                let mut x = vec![0.0; n];
                x[0] = 1.0;
                x[j] += a;
                lp_query(c, &mut o, &b, &l, &x, None, "single-coefficient ripples");
                lp_query(c, &mut o, &b, &l, &x, Some(l.sp), "single-coefficient ripples");
                o.sp_sq = l.sp;
                c.traces += 1;
                if c.stopped() {
                    return;
                }
            }
        }
        let o = create_lowpass_case(n);
        c.states += 1;
        ensure!(c, o.lp_sq < o.up_sq && o.lp_sq > 0.0 && o.sp_sq > 0.0 && o.sp_sq < o.lp_sq, "packaged low-pass case of order {}: pass band [{}, {}], stop band {}", n, o.lp_sq, o.up_sq, o.sp_sq);
        ensure!(c, (o.lp_sq * o.up_sq - 1.0).abs() < 1e-9, "packaged low-pass case of order {}: ripple bounds {} and {} are not reciprocal", n, o.lp_sq, o.up_sq);
        let l = Lp { n, wp: 0.12, ws: 0.20, lp: o.lp_sq, up: o.up_sq, sp: o.sp_sq, unit: 1.0 };
        let b = bands(&l);
        let mut o2 = create_lowpass_case(n);
        for k in 0..12 {
            let x: Vec<f64> = (0..n).map(|i| if i == 0 { 0.1 * k as f64 } else { (0.37 * (k + i) as f64).sin() * 0.1 }).collect();
            lp_query(c, &mut o2, &b, &l, &x, None, "packaged case");
            if c.stopped() {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C17 profit maximization

#[derive(Clone, Debug)]
struct Pf {
    p: f64,
    a: f64,
    k: f64,
    al: [f64; 2],
    v: [f64; 2],
}
impl Pf {
    fn cobb(&self, y: &[f64]) -> f64 {
        (self.p * self.a).ln() + self.al[0] * y[0] + self.al[1] * y[1]
    }
    fn cost(&self, y: &[f64]) -> f64 {
        self.v[0] * y[0].exp() + self.v[1] * y[1].exp()
    }
    fn profit(&self, y: &[f64]) -> f64 {
        self.cobb(y).exp() - self.cost(y)
    }
    /// constraint values (positive: violated); the second is -inf when trivially satisfied
    fn cons(&self, y: &[f64], gamma: f64) -> [f64; 2] {
        let t = gamma + self.cost(y);
        [
            y[0] - self.k.ln(),
            if t > 0.0 { t.ln() - self.cobb(y) } else { f64::NEG_INFINITY },
        ]
    }
    fn feas(&self, y: &[f64], gamma: f64) -> Option<bool> {
        let f = self.cons(y, gamma);
        if f.iter().any(|v| *v > EPS) {
            Some(false)
        } else if f.iter().any(|v| *v > -EPS) {
            None
        } else {
            Some(true)
        }
    }
    fn grad(&self, y: &[f64], level: f64) -> [f64; 2] {
        let t = level + self.cost(y);
        [self.v[0] * y[0].exp() / t - self.al[0], self.v[1] * y[1].exp() / t - self.al[1]]
    }
}
const KNOWN_F2: &str = "F2 discrete profit oracle: the cut found at the rounded point is restated at the centre with the opposite sign (offset + g'(rounded - centre) instead of + g'(centre - rounded)), so it can remove better integer points; pinned by the iteration count in test_profit_oracle_q";
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-8 * (1.0 + a.abs().max(b.abs()))
}

/// verify an answer at y for level g0; `off` is added to the offset (shift between y and the centre)
#[allow(clippy::too_many_arguments)]
fn pf_answer(c: &mut Ctx, m: &Pf, y: &[f64], g0: f64, g1: f64, g: &[f64], beta: f64, shrunk: bool, xc: &[f64], d: &dyn Fn() -> String) {
    let f = m.cons(y, g0);
    // the cut of the point y, restated relative to the centre xc
    let shift = -(g[0] * (y[0] - xc[0]) + g[1] * (y[1] - xc[1]));
    let right = |t: f64| {
        let b = beta - t;
        if shrunk {
            b.abs() <= 1e-8 * (1.0 + t.abs())
        } else {
            f.iter().any(|v| *v > -EPS && near(b, *v))
        }
    };
    let shift = if !right(shift) && right(-shift) && shift != 0.0 {
        // known finding F2: the restatement has the wrong sign
        if !c.known_hits.iter().any(|k| k.starts_with("F2")) {
            c.known_hits.push(KNOWN_F2.to_string());
        }
        -shift
    } else {
        shift
    };
    let b = beta - shift;
    if let Some(ok) = m.feas(y, g0) {
        ensure!(c, shrunk == ok, "improved: {}, level attainable at the point: {}: {}", shrunk, ok, d());
    }
    if shrunk {
        let pr = m.profit(y);
        ensure!(c, (g1 - pr).abs() <= 1e-8 * (m.cobb(y).exp() + 1.0), "new level {} but the profit there is {}: {}", g1, pr, d());
        ensure!(c, b.abs() <= 1e-8 * (1.0 + shift.abs()), "objective cut offset {} (shift {}), expected the objective surface: {}", beta, shift, d());
        let rev = m.cobb(y).exp();
        let r = [m.v[0] * y[0].exp() / rev - m.al[0], m.v[1] * y[1].exp() / rev - m.al[1]];
        ensure!(c, near(g[0], r[0]) && near(g[1], r[1]), "objective cut direction {:?}, expected {:?}: {}", g, r, d());
    } else {
        ensure!(c, g1 == g0, "level moved from {} to {} without an improvement: {}", g0, g1, d());
        let t0 = near(g[0], 1.0) && near(g[1], 0.0) && near(b, f[0]) && f[0] > -EPS;
        let r = m.grad(y, g0);
        let t1 = near(g[0], r[0]) && near(g[1], r[1]) && near(b, f[1]) && f[1] > -EPS;
        ensure!(c, t0 || t1, "cut {:?} offset {} is neither violated constraint (values {:?}, gradient {:?}): {}", g, b, f, r, d());
    }
}

pub fn c17(c: &mut Ctx) {
    let th = c.thorough;
    let models = vec![
        Pf { p: 20.0, a: 40.0, k: 30.5, al: [0.1, 0.4], v: [10.0, 35.0] },
        Pf { p: 2.0, a: 3.0, k: 5.3, al: [0.3, 0.3], v: [1.0, 0.5] },
        Pf { p: 1.5, a: 10.0, k: 0.7, al: [0.25, 0.5], v: [0.2, 3.0] },
        Pf { p: 50.0, a: 1.0, k: 1000.0, al: [0.6, 0.2], v: [4.0, 4.0] },
        Pf { p: 1e4, a: 300.0, k: 1e5, al: [0.35, 0.45], v: [12.0, 0.7] },
        Pf { p: 0.5, a: 2.0, k: 0.3, al: [0.5, 0.3], v: [0.01, 0.02] },
    ];
    let ys: Vec<f64> = if c.deep {
        (-14..=15).map(|k| k as f64 * 0.2171 + 2.9).collect()
    } else if th {
        vec![-2.1, -1.3, -0.4, 0.0, 0.31, 0.7, 1.13, 1.6, 2.03, 2.92, 3.44, 3.71, 4.4, 5.2, 6.3]
    } else {
        vec![-1.3, -0.4, 0.0, 0.31, 1.13, 2.03, 2.92, 3.71, 4.4]
    };
    let gs: Vec<f64> = vec![0.0, 1.0, 7.0, 52.0, 300.0, 1500.0, -5.0, -400.0, 1e5];
    let pts: Vec<[f64; 2]> = words(ys.len(), 2).into_iter().map(|w| [ys[w[0]], ys[w[1]]]).collect();
    c.bound(format!("{} production models x {} input points x {} profit levels, every query history of length 2 (and 3 over a sub-grid); accepted region checked on the whole grid", models.len(), pts.len(), gs.len()));
    // robust margins: elasticities, price, limit, input prices
    let margins = [[0.0; 5], [0.003, 0.007, 1.0, 1.0, 1.0], [0.05, 0.02, 0.3, 0.2, 0.1], [0.1, 0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.5, 0.0]];
    let mut items: Vec<(usize, Option<usize>, usize)> = vec![];
    for m in 0..models.len() {
        for q in 0..pts.len() {
            items.push((m, None, q));
            for r in 0..margins.len() {
                items.push((m, Some(r), q));
            }
        }
    }
    let arr = |v: &[f64]| Arr::from(v.to_vec());
    c.par(items, |c, &(mi, rb, q0)| {
        let m = &models[mi];
        // the effective model at a point
        let eff = |y: &[f64]| -> Pf {
            match rb {
                None => m.clone(),
                Some(r) => {
                    let e = margins[r];
                    let mut x = m.clone();
                    x.p -= e[2];
                    x.k -= e[3];
                    for i in 0..2 {
                        x.v[i] += e[4];
                        x.al[i] += if y[i] > 0.0 { -e[i] } else { e[i] };
                    }
                    x
                }
            }
        };
        if let Some(r) = rb {
            if m.k - margins[r][3] <= 0.0 {
                return;
            }
        }
        enum O {
            P(ProfitOracle),
            R(ProfitRbOracle),
        }
        let mk = || match rb {
            None => O::P(ProfitOracle::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v))),
            Some(r) => {
                let e = margins[r];
                O::R(ProfitRbOracle::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v), (e[0], e[1], e[2], e[3], e[4])))
            }
        };
        let ask = |o: &mut O, y: &[f64], g: &mut f64| match o {
            O::P(o) => o.assess_optim(&arr(y), g),
            O::R(o) => o.assess_optim(&arr(y), g),
        };
        // histories of length 2 starting at this point, level carried over or not
        for &g0 in &gs {
            for step in 0..pts.len() + 1 {
                // second query: same point (step 0) or another
                let second = if step == 0 { q0 } else { step - 1 };
                if !c.thorough && step > 0 && (step + q0) % 7 != 0 {
                    continue;
                }
                let mut o = mk();
                let mut gam = g0;
                for (k, &q) in [q0, second].iter().enumerate() {
                    let y = pts[q];
                    let e = eff(&y);
                    let before = gam;
                    let ((g, SingleCut(b)), shrunk) = ask(&mut o, &y, &mut gam);
                    c.states += 1;
                    c.transitions += 1;
                    let d = || format!("model {:?} margins {:?} level {} at y = {:?}, query {} of a history starting at {:?} level {}", m, rb.map(|r| margins[r]), before, y, k, pts[q0], g0);
                    pf_answer(c, &e, &y, before, gam, g.data(), b, shrunk, &y, &d);
                    if c.stopped() {
                        return;
                    }
                    if shrunk && rb.is_some() {
                        // the level holds for every parameter choice in the margins
                        let e = margins[rb.unwrap()];
                        let mut worst = f64::INFINITY;
                        for mask in 0..32u32 {
                            let s = |i: u32| if mask >> i & 1 == 1 { 1.0 } else { -1.0 };
                            let w = Pf {
                                p: m.p + s(0) * e[2],
                                a: m.a,
                                k: m.k,
                                al: [m.al[0] + s(1) * e[0], m.al[1] + s(2) * e[1]],
                                v: [m.v[0] + s(3) * e[4], m.v[1] + s(4) * e[4]],
                            };
                            worst = worst.min(w.profit(&y));
                        }
                        ensure!(c, (gam - worst).abs() <= 1e-8 * (1.0 + m.cobb(&y).exp()), "robust level {} but the worst case over the margins is {}: {}", gam, worst, d());
                    }
                    if k == 0 && step == 0 && gam >= 0.0 {
                        // no point that attains the level is cut off
                        for y2 in &pts {
                            c.transitions += 1;
                            if eff(y2).feas(y2, gam) == Some(true) {
                                let val = g[0] * (y2[0] - y[0]) + g[1] * (y2[1] - y[1]) + b;
                                ensure!(c, val <= 1e-8 * (1.0 + b.abs()), "the cut {:?} {} removes {:?} where level {} is attained: {}", g.data(), b, y2, gam, d());
                            }
                        }
                    }
                }
                c.traces += 1;
            }
        }
        c.sample(|| format!("model {} margins {:?} point {:?}", mi, rb, pts[q0]));
    });
    if c.stopped() {
        return;
    }
    // discrete version: (point, level, retry) histories
    let yq: Vec<[f64; 2]> = {
        let v = if c.deep {
            (-20..=22).map(|k| k as f64 * 0.2417 + 1.103).collect()
        } else if th {
            vec![-30.0, -4.0, -2.1, -0.9, -0.75, -0.7, -0.69, -0.2, 0.31, 0.4, 0.41, 0.75, 0.91, 0.92, 1.13, 1.26, 2.03, 2.92, 3.4, 3.9, 6.3, 9.0]
        } else {
            vec![-5.0, -2.1, -0.8, -0.7, -0.69, -0.2, 0.31, 0.4, 0.41, 1.13, 2.03, 2.92, 3.4, 6.3]
        };
        words(v.len(), 2).into_iter().map(|w| [v[w[0]], v[w[1]]]).collect()
    };
    c.bound(format!("discrete oracle: {} models x {} points x {} levels x retry patterns (none, one, two retries at the same point, then a second point) ", models.len(), yq.len(), gs.len()));
    let mut items = vec![];
    for m in 0..models.len() {
        for q in 0..yq.len() {
            items.push((m, q));
        }
    }
    c.par(items, |c, &(mi, q0)| {
        let m = &models[mi];
        for &g0 in &gs {
            for pat in 0..4usize {
                for second in (0..yq.len()).step_by(if c.thorough { 3 } else { 11 }) {
                    let mut o = ProfitOracleQ::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v));
                    let mut gam = g0;
                    // pattern: retries after the first query (only after a candidate was produced)
                    let seq: Vec<(usize, bool)> = match pat {
                        0 => vec![(q0, false), (second, false)],
                        1 => vec![(q0, false), (q0, true), (second, false)],
                        2 => vec![(q0, false), (q0, true), (q0, true), (second, false), (second, true)],
                        _ => vec![(q0, false), (second, false), (second, true), (q0, false)],
                    };
                    let mut cand: Option<[f64; 2]> = None;
                    for (k, &(q, retry)) in seq.iter().enumerate() {
                        let y = yq[q];
                        if retry && cand.is_none() {
                            continue;
                        }
                        let before = gam;
                        let ((g, SingleCut(b)), shrunk, xd, more) = o.assess_optim_q(&arr(&y), &mut gam, retry);
                        c.states += 1;
                        c.transitions += 1;
                        let d = || format!("discrete model {:?} level {} at y = {:?} retry {} (query {} of {:?}, start level {})", m, before, y, retry, k, seq, g0);
                        ensure!(c, more != retry, "more alternatives: {}, retry: {}: {}", more, retry, d());
                        if !retry {
                            match m.feas(&y, before) {
                                None => {
                                    cand = None;
                                    break;
                                }
                                Some(false) => {
                                    cand = None;
                                    ensure!(c, !shrunk && xd.data() == y, "infeasible point but improved {} at {:?}: {}", shrunk, xd.data(), d());
                                    pf_answer(c, m, &y, before, gam, g.data(), b, shrunk, &y, &d);
                                    if c.stopped() {
                                        return;
                                    }
                                    continue;
                                }
                                Some(true) => {
                                    let r = |v: f64| v.exp().round().max(1.0).ln();
                                    cand = Some([r(y[0]), r(y[1])]);
                                }
                            }
                        }
                        let yd = cand.unwrap();
                        ensure!(c, near(xd[0], yd[0]) && near(xd[1], yd[1]), "candidate {:?} is not the rounded point {:?}: {}", xd.data(), yd, d());
                        pf_answer(c, m, &yd, before, gam, g.data(), b, shrunk, &y, &d);
                        if c.stopped() {
                            return;
                        }
                        if shrunk {
                            let ok = [xd[0], xd[1]].iter().all(|v| (v.exp() - v.exp().round()).abs() < 1e-9 * v.exp() && v.exp() > 0.5);
                            ensure!(c, ok, "accepted candidate {:?} is not integral: {}", xd.data(), d());
                        }
                    }
                    c.traces += 1;
                }
            }
        }
    });
    if c.stopped() {
        return;
    }
    c17_long(c, &models, &gs);
    if c.stopped() {
        return;
    }
    c17_wide(c, &models, &gs, &margins);
}

/// single questions over a wide and fine range of points, at fixed levels and at levels close to the profit there
fn c17_wide(c: &mut Ctx, models: &[Pf], gs: &[f64], margins: &[[f64; 5]]) {
    let mut models = models.to_vec();
    // nothing binds: every integer is reachable
    models.push(Pf { p: 1e5, a: 1e3, k: 1e8, al: [0.4, 0.4], v: [0.5, 0.3] });
    let step = if c.deep { 0.09 } else if c.thorough { 0.23 } else { 0.46 };
    let mut ys: Vec<f64> = (0..).map(|k| -8.0 + k as f64 * step + 0.0071).take_while(|v| *v < 9.5).collect();
    ys.extend([0.0, -25.0, -12.0, 14.0, 1e-9, -1e-9]);
    c.bound(format!("plain and robust oracle ({} margins): {} models x {} x {} points in -25..14 x {} levels and 4 levels within 3% of the profit at the point, either phase of the round robin", margins.len(), models.len(), ys.len(), ys.len(), gs.len()));
    let arr = |v: &[f64]| Arr::from(v.to_vec());
    let mut jobs = vec![];
    for m in 0..models.len() {
        for r in 0..=margins.len() {
            for y in &ys {
                jobs.push((m, r, *y));
            }
        }
    }
    c.par(jobs, |c, &(mi, r, y0)| {
        let m = &models[mi];
        let e = if r == 0 { [0.0; 5] } else { margins[r - 1] };
        if m.k - e[3] <= 0.0 {
            return;
        }
        for &y1 in &ys {
            let y = [y0, y1];
            let mut ef = m.clone();
            if r > 0 {
                ef.p -= e[2];
                ef.k -= e[3];
                for i in 0..2 {
                    ef.v[i] += e[4];
                    ef.al[i] += if y[i] > 0.0 { -e[i] } else { e[i] };
                }
            }
            let pr = ef.profit(&y);
            let near_by = [pr - 0.03 * pr.abs(), pr - 0.001 * pr.abs(), pr + 0.001 * pr.abs(), pr + 0.03 * pr.abs()];
            for &g0 in gs.iter().chain(&near_by) {
                if (g0 + ef.cost(&y)).abs() < 1e-4 * ef.cost(&y) {
                    continue; // level and cost cancel
                }
                for phase in 0..2 {
                    let mut gam = g0;
                    // phase 1: the round robin was left at the first constraint by a point beyond the limit
                    let far = [ef.k.ln() + 1.0, 0.5];
                    let mut skip = 0.0;
                    let ((g, SingleCut(b)), shrunk) = if r == 0 {
                        let mut o = ProfitOracle::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v));
                        if phase == 1 {
                            let _ = o.assess_optim(&arr(&far), &mut skip);
                        }
                        o.assess_optim(&arr(&y), &mut gam)
                    } else {
                        let mut o = ProfitRbOracle::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v), (e[0], e[1], e[2], e[3], e[4]));
                        if phase == 1 {
                            let _ = o.assess_optim(&arr(&far), &mut skip);
                        }
                        o.assess_optim(&arr(&y), &mut gam)
                    };
                    c.states += 1;
                    c.transitions += 1;
                    let d = || format!("model {:?} margins {:?} level {} at y = {:?} (phase {})", m, e, g0, y, phase);
                    pf_answer(c, &ef, &y, g0, gam, g.data(), b, shrunk, &y, &d);
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
        c.traces += 1;
    });
    if c.stopped() {
        return;
    }
    let top = if c.deep { 2100 } else if c.thorough { 1030 } else { 270 };
    c.bound(format!("discrete oracle: every integer 0..{} in either coordinate, approached from 7 sides, other coordinate over 14 values and equal, 3 levels, one retry", top));
    let jobs: Vec<(usize, usize, usize)> = (0..models.len()).flat_map(|m| (0..2).flat_map(move |ax| (0..=top).map(move |i| (m, ax, i)))).collect();
    c.par(jobs, |c, &(mi, ax, i)| {
        let m = &models[mi];
        for dl in [-0.49, -0.4, -0.1, 0.0, 0.1, 0.4, 0.49] {
            let t = i as f64 + dl;
            if t <= 0.0 {
                continue;
            }
            for other in [0.02, 0.4, 0.6, 1.0, 1.7, 2.0, 3.3, 7.0, 19.6, 40.0, 100.2, 256.0, 999.7, 20000.3, t] {
                let mut y = [other.ln(), other.ln()];
                y[ax] = t.ln();
                let pr = m.profit(&y);
                for g0 in [pr - 1.0 - 0.2 * pr.abs(), 0.0, pr - 1e-3 * pr.abs()] {
                    if (g0 + m.cost(&y)).abs() < 1e-4 * m.cost(&y) {
                        continue; // level and cost cancel
                    }
                    let mut o = ProfitOracleQ::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v));
                    let mut gam = g0;
                    let ((g, SingleCut(b)), shrunk, xd, more) = o.assess_optim_q(&arr(&y), &mut gam, false);
                    c.states += 1;
                    c.transitions += 1;
                    let d = || format!("discrete model {:?} level {} at exp(y) = {:?}", m, g0, [y[0].exp(), y[1].exp()]);
                    ensure!(c, more, "no alternative announced: {}", d());
                    match m.feas(&y, g0) {
                        None => continue,
                        Some(false) => {
                            ensure!(c, !shrunk && xd.data() == y, "infeasible point but improved {} at {:?}: {}", shrunk, xd.data(), d());
                            pf_answer(c, m, &y, g0, gam, g.data(), b, shrunk, &y, &d);
                        }
                        Some(true) => {
                            let rd = |v: f64| v.exp().round().max(1.0).ln();
                            let yd = [rd(y[0]), rd(y[1])];
                            ensure!(c, near(xd[0], yd[0]) && near(xd[1], yd[1]), "candidate {:?} is not the rounded point {:?}: {}", xd.data(), yd, d());
                            pf_answer(c, m, &yd, g0, gam, g.data(), b, shrunk, &y, &d);
                            let mid = gam;
                            let ((g, SingleCut(b)), shrunk, xd, more) = o.assess_optim_q(&arr(&y), &mut gam, true);
                            c.transitions += 1;
                            ensure!(c, !more && near(xd[0], yd[0]) && near(xd[1], yd[1]), "retry gave {:?} (more {}), expected {:?}: {}", xd.data(), more, yd, d());
                            pf_answer(c, m, &yd, mid, gam, g.data(), b, shrunk, &y, &d);
                        }
                    }
                    if c.stopped() {
                        return;
                    }
                }
            }
        }
        c.traces += 1;
    });
}

/// one oracle instance asked very many questions: every answer is still the right one
fn c17_long(c: &mut Ctx, models: &[Pf], gs: &[f64]) {
    let len = if c.deep { 3_000_000usize } else { 70_000 };
    c.bound(format!("one instance asked {} questions in a row (periodic point and level patterns, strides 1, 5, 7), plain, robust and discrete with a retry after every third candidate", len));
    let ys = [-1.3, -0.4, 0.31, 1.13, 2.03, 2.92, 3.71];
    let pts: Vec<[f64; 2]> = words(ys.len(), 2).into_iter().map(|w| [ys[w[0]], ys[w[1]]]).collect();
    let e = [0.003, 0.007, 0.1, 0.1, 0.5];
    let arr = |v: &[f64]| Arr::from(v.to_vec());
    let mut jobs = vec![];
    for m in 0..models.len() {
        for kind in 0..3usize {
            for stride in [1usize, 5, 7] {
                jobs.push((m, kind, stride));
            }
        }
    }
    c.par(jobs, |c, &(mi, kind, stride)| {
        let m = &models[mi];
        let eff = |y: &[f64]| -> Pf {
            if kind != 1 {
                return m.clone();
            }
            let mut x = m.clone();
            x.p -= e[2];
            x.k -= e[3];
            for i in 0..2 {
                x.v[i] += e[4];
                x.al[i] += if y[i] > 0.0 { -e[i] } else { e[i] };
            }
            x
        };
        let mut p = ProfitOracle::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v));
        let mut r = ProfitRbOracle::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v), (e[0], e[1], e[2], e[3], e[4]));
        let mut q = ProfitOracleQ::new((m.p, m.a, m.k), arr(&m.al), arr(&m.v));
        let mut cand = 0usize;
        for k in 0..len {
            let y = pts[(k * stride + k / 97) % pts.len()];
            let before = gs[(k / 3) % gs.len()];
            let mut gam = before;
            let ef = eff(&y);
            c.transitions += 1;
            let d = || format!("question {} in a row: model {:?} kind {} level {} at y = {:?}", k, m, kind, before, y);
            if kind < 2 {
                let ((g, SingleCut(b)), shrunk) = if kind == 0 { p.assess_optim(&arr(&y), &mut gam) } else { r.assess_optim(&arr(&y), &mut gam) };
                pf_answer(c, &ef, &y, before, gam, g.data(), b, shrunk, &y, &d);
            } else {
                let ((g, SingleCut(b)), shrunk, xd, more) = q.assess_optim_q(&arr(&y), &mut gam, false);
                ensure!(c, more, "no alternative announced: {}", d());
                match m.feas(&y, before) {
                    None => continue,
                    Some(false) => {
                        ensure!(c, !shrunk && xd.data() == y, "infeasible point but improved {} at {:?}: {}", shrunk, xd.data(), d());
                        pf_answer(c, m, &y, before, gam, g.data(), b, shrunk, &y, &d);
                    }
                    Some(true) => {
                        let rd = |v: f64| v.exp().round().max(1.0).ln();
                        let yd = [rd(y[0]), rd(y[1])];
                        ensure!(c, near(xd[0], yd[0]) && near(xd[1], yd[1]), "candidate {:?} is not the rounded point {:?}: {}", xd.data(), yd, d());
                        pf_answer(c, m, &yd, before, gam, g.data(), b, shrunk, &y, &d);
                        cand += 1;
                        if cand % 3 == 0 {
                            let mid = gam;
                            c.transitions += 1;
                            let ((g, SingleCut(b)), shrunk, xd, more) = q.assess_optim_q(&arr(&y), &mut gam, true);
                            ensure!(c, !more && near(xd[0], yd[0]) && near(xd[1], yd[1]), "retry gave {:?} (more {}), expected {:?}: {}", xd.data(), more, yd, d());
                            pf_answer(c, m, &yd, mid, gam, g.data(), b, shrunk, &y, &d);
                        }
                    }
                }
            }
            if c.stopped() {
                return;
            }
        }
        c.states += 1;
        c.traces += 1;
    });
}

// ------------------------------------------------------------------ C18 quasi-convex, SVM, max-cut

pub fn c18(c: &mut Ctx) {
    quasi(c);
    if c.stopped() {
        return;
    }
    quasi_wide(c);
    if c.stopped() {
        return;
    }
    svm(c);
    if c.stopped() {
        return;
    }
    svm_exact(c);
    if c.stopped() {
        return;
    }
    maxcut(c);
}

fn quasi(c: &mut Ctx) {
    let th = c.thorough;
    let xs: Vec<f64> = (-6..=10).map(|k| k as f64 * 0.1713 + 0.0131).collect();
    let ls: Vec<f64> = (-6..=12).map(|k| k as f64 * 0.2111 + 0.0097).collect();
    let gs = [0.0, 0.05, 0.2, 0.4, 0.43, 1.0, 10.0];
    let pts: Vec<[f64; 2]> = xs.iter().flat_map(|&x| ls.iter().map(move |&l| [x, l])).collect();
    c.bound(format!("quasi-convex oracle: {} points x {} levels, histories of length {}", pts.len(), gs.len(), if th { 3 } else { 2 }));
    // constraint values
    let cons = |p: &[f64; 2], g: f64| [p[0] * p[0] - p[1], g * p[1].exp() - p[0]];
    let mut items = vec![];
    for i in 0..pts.len() {
        items.push(i);
    }
    c.par(items, |c, &q0| {
        for &g0 in &gs {
            let seconds: Vec<usize> = (0..pts.len()).step_by(if c.deep { 1 } else if c.thorough { 3 } else { 11 }).collect();
            for &q1 in &seconds {
                let thirds: Vec<usize> = if c.deep { (0..pts.len()).step_by(13).chain([q0]).collect() } else if c.thorough { vec![q0, (q0 + q1) % pts.len()] } else { vec![q0] };
                for &q2 in &thirds {
                    let mut o = MyOracle::default();
                    let mut gam = g0;
                    for (k, &q) in [q0, q1, q2].iter().enumerate() {
                        let p = pts[q];
                        let before = gam;
                        let f = cons(&p, before);
                        let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(p.to_vec()), &mut gam);
                        c.states += 1;
                        c.transitions += 1;
                        let d = || format!("point {:?} level {} (query {} of {:?}, start level {})", p, before, k, [pts[q0], pts[q1], pts[q2]], g0);
                        if f.iter().all(|v| *v < -EPS) {
                            ensure!(c, shrunk, "feasible improving point not accepted: {}", d());
                        }
                        if f.iter().any(|v| *v > EPS) {
                            ensure!(c, !shrunk, "infeasible point accepted (constraint values {:?}): {}", f, d());
                        }
                        if shrunk {
                            ensure!(c, near(gam, p[0] / p[1].exp()), "level {} but the ratio is {}: {}", gam, p[0] / p[1].exp(), d());
                            ensure!(c, b == 0.0 && near(g[0], -1.0) && near(g[1], p[0]), "objective cut {:?} {}: {}", g.data(), b, d());
                        } else {
                            ensure!(c, gam == before, "level moved without improvement: {}", d());
                            let t0 = f[0] > -EPS && near(b, f[0]) && near(g[0], 2.0 * p[0]) && near(g[1], -1.0);
                            let t1 = f[1] > -EPS && near(b, f[1]) && near(g[0], -1.0) && near(g[1], before * p[1].exp());
                            ensure!(c, t0 || t1, "cut {:?} {} is neither violated constraint {:?}: {}", g.data(), b, f, d());
                        }
                        if k == 0 && q1 == 0 && gam >= 0.0 {
                            for p2 in &pts {
                                c.transitions += 1;
                                if cons(p2, gam).iter().all(|v| *v < -EPS) {
                                    let val = g[0] * (p2[0] - p[0]) + g[1] * (p2[1] - p[1]) + b;
                                    ensure!(c, val <= 1e-8, "the cut {:?} {} removes {:?} which attains level {}: {}", g.data(), b, p2, gam, d());
                                }
                            }
                        }
                    }
                    c.traces += 1;
                }
            }
        }
        c.sample(|| format!("quasi-convex oracle at {:?}", pts[q0]));
    });
    if c.stopped() {
        return;
    }
    let len = if c.deep { 30_000_000usize } else { 70_000 };
    c.bound(format!("quasi-convex oracle: one instance asked {} questions in a row (strides 1, 5, 7, 64)", len));
    c.par(vec![1usize, 5, 7, 64], |c, &stride| {
        let mut o = MyOracle::default();
        for k in 0..len {
            let p = pts[(k * stride + k / 331) % pts.len()];
            let before = gs[(k / 3) % gs.len()];
            let mut gam = before;
            let f = cons(&p, before);
            let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(p.to_vec()), &mut gam);
            c.transitions += 1;
            let ok = if f.iter().any(|v| v.abs() <= EPS) {
                true
            } else if f.iter().all(|v| *v < 0.0) {
                shrunk && near(gam, p[0] / p[1].exp()) && b == 0.0 && near(g[0], -1.0) && near(g[1], p[0])
            } else {
                let t0 = f[0] > 0.0 && near(b, f[0]) && near(g[0], 2.0 * p[0]) && near(g[1], -1.0);
                let t1 = f[1] > 0.0 && near(b, f[1]) && near(g[0], -1.0) && near(g[1], before * p[1].exp());
                !shrunk && gam == before && (t0 || t1)
            };
            ensure!(c, ok, "question {} in a row at {:?} level {}: improved {} level {} cut {:?} {}, constraint values {:?}", k, p, before, shrunk, gam, g.data(), b, f);
        }
        c.states += 1;
        c.traces += 1;
    });
}

/// single questions over a wide range of points and levels, asked at either phase of the round robin
fn quasi_wide(c: &mut Ctx) {
    let step = if c.deep { 0.004 } else if c.thorough { 0.02 } else { 0.05 };
    let span = (12.4 / step) as i32;
    let mut xs: Vec<f64> = (-span..=span).map(|k| k as f64 * step + 0.00071).collect();
    xs.extend([0.0, 0.5, -0.5, 1.0, -1.0, 2.0, 25.0, -25.0, 150.0, -150.0, 1e-7, -1e-7]);
    let levels = [0.0, -0.0, 1e-12, 1e-6, 0.013, 0.1, 0.31, 0.4, 0.5, 3.0, 1e3, 1e7, -1e-12, -1e-5, -0.02, -0.15, -0.6, -2.0, -30.0, -1e4, -1e9, f64::NEG_INFINITY];
    c.bound(format!("quasi-convex oracle: {} abscissae in -150..150 x about 240 ordinates each x {} levels including negative and infinite ones, either phase of the round robin", xs.len(), levels.len()));
    let rel = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs());
    c.par(xs, |c, &x| {
        let mut ys: Vec<f64> = (-50..=150).map(|k| k as f64 * 0.0437 + 0.0019).collect();
        ys.extend([0.0, 1.0, 30.0, -30.0, 300.0, -300.0]);
        ys.extend([1e-3, 0.04, 0.3, 1.1, 2.7, 9.0, 40.0, -1e-3, -0.2, -1.0].map(|d| x * x + d));
        for y in ys.into_iter().filter(|y| *y < 650.0) {
            for g0 in levels {
                let f = [x * x - y, -x + g0 * y.exp()];
                if f[0].abs() <= 1e-9 * (1.0 + x * x) || f[1].abs() <= 1e-9 * (x.abs() + (g0 * y.exp()).abs()) {
                    continue;
                }
                for phase in 0..2 {
                    let mut o = MyOracle::default();
                    if phase == 1 {
                        // violates the first constraint: leaves the round robin there
                        let mut g = 0.0;
                        let _ = o.assess_optim(&Arr::from(vec![1.0, 0.0]), &mut g);
                    }
                    let mut gam = g0;
                    let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(vec![x, y]), &mut gam);
                    c.states += 1;
                    c.transitions += 1;
                    let ok = if f[0] < 0.0 && f[1] < 0.0 {
                        shrunk && rel(gam, x / y.exp()) && b == 0.0 && rel(g[0], -1.0) && rel(g[1], x)
                    } else {
                        let t0 = f[0] > 0.0 && rel(b, f[0]) && rel(g[0], 2.0 * x) && rel(g[1], -1.0);
                        let t1 = f[1] > 0.0 && rel(b, f[1]) && rel(g[0], -1.0) && rel(g[1], g0 * y.exp());
                        !shrunk && gam == g0 && (t0 || t1)
                    };
                    ensure!(c, ok, "quasi-convex oracle at ({}, {}) level {} (phase {}): improved {} level {} cut {:?} {}, constraint values {:?}", x, y, g0, phase, shrunk, gam, g.data(), b, f);
                }
            }
        }
        c.traces += 1;
    });
}

fn svm(c: &mut Ctx) {
    let th = c.thorough;
    // data sets: every labelled set of m points over a small lattice
    let mut items: Vec<(usize, usize)> = vec![(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3)];
    if th {
        items.push((1, 4));
        items.push((3, 2));
        items.push((2, 4));
    }
    c.bound(format!("SVM oracle: (features, samples) in {:?}, every data set over {{-1,0,2}} with every labelling x weight grid", items));
    let vals = [-1.0, 0.0, 2.0];
    let ws = [-1.3, -0.4, 0.0, 0.55, 1.7, -60.0, 2e4];
    let mut jobs = vec![];
    for (nf, m) in items {
        for (i, w) in words(3, nf * m).into_iter().enumerate() {
            if !th && nf * m >= 6 && i % 3 != 0 {
                continue;
            }
            if th && !c.deep && nf * m >= 8 && i % 5 != 0 {
                continue;
            }
            jobs.push((nf, m, w));
        }
    }
    // larger fixed data sets, every labelling
    for (nf, m) in [(1, 8), (2, 7), (3, 6), (4, 5), (5, 4)] {
        for k in 0..3 {
            jobs.push((nf, m, (0..nf * m).map(|i| (i * (k + 2) + i / 3) % 3).collect()));
        }
    }
    // many samples or features: the labelling is a rotating pattern, the worst sample at every position
    let (bf, bm) = if c.deep { (66, 66) } else if th { (40, 40) } else { (24, 24) };
    let all: Vec<(usize, usize)> = (1..=bf).flat_map(|a| (1..=bm).map(move |b| (a, b))).filter(|(a, b)| *b > 8 || *a > 5).collect();
    c.bound(format!("SVM oracle: every number of features to {} and of samples to {}, every sample made the worst one in turn", bf, bm));
    for (nf, m) in [(1, 40), (2, 130), (3, 300), (40, 3), (70, 5)].into_iter().chain(all) {
        let k = jobs.len();
        jobs.push((nf, m, (0..nf * m).map(|i| (i * 2 + i / 3 + k) % 3).collect()));
    }
    c.bound("SVM oracle: up to 300 samples and 70 features, every sample made the worst one in turn");
    c.bound("SVM oracle: 15 larger data sets (up to 8 samples, 5 features) with every labelling; all data also in units of 1e-9 and 1e9");
    let jobs: Vec<(usize, usize, Vec<usize>, f64)> = jobs
        .into_iter()
        .flat_map(|(a, b, w)| {
            let us: Vec<f64> = if a * b <= 3 || a * b > 6 { vec![1.0, 1e-9, 1e9] } else { vec![1.0] };
            us.into_iter().map(move |u| (a, b, w.clone(), u)).collect::<Vec<_>>()
        })
        .collect();
    c.par(jobs, |c, (nf, m, w, unit)| {
        let (nf, m, unit) = (*nf, *m, *unit);
        let data: Vec<f64> = w.iter().map(|&i| vals[i] * unit).collect();
        if m > 8 || nf > 5 {
            svm_big(c, nf, m, &data, unit);
            return;
        }
        let ws: &[f64] = if nf > 2 { &[-1.3, 0.0, 0.55, 70.0] } else { &ws };
        for lab in 0..1u32 << m {
            let labels: Vec<i32> = (0..m).map(|i| if lab >> i & 1 == 1 { 1 } else { -1 }).collect();
            let mut o = SvmOracle::new(Arr::from_shape_vec(m, nf, data.clone()), labels.clone());
            odometer(&vec![ws.len(); nf + 1], |d| {
                let xc: Vec<f64> = d.iter().enumerate().map(|(k, &i)| if k < nf { ws[i] / unit } else { ws[i] }).collect();
                let mg: Vec<f64> = (0..m).map(|i| labels[i] as f64 * ((0..nf).map(|j| xc[j] * data[i * nf + j]).sum::<f64>() + xc[nf])).collect();
                let mn = mg.iter().cloned().fold(f64::INFINITY, f64::min);
                for g0 in [3.0, -2.0, 0.0, f64::INFINITY, f64::NEG_INFINITY] {
                    let mut gam = g0;
                    let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(xc.clone()), &mut gam);
                    c.states += 1;
                    c.transitions += 1;
                    let desc = || format!("SVM data {:?} labels {:?} weights {:?}: margins {:?}, got cut {:?} {} level {} shrunk {}", data, labels, xc, mg, g.data(), b, gam, shrunk);
                    let bad = if !shrunk || g.len() != nf + 1 {
                        Some("the oracle always offers its cut as the objective")
                    } else if mn >= 1.0 + EPS {
                        if gam == 0.0 && b == 0.0 && g.data().iter().all(|v| *v == 0.0) { None } else { Some("all margins met but the answer is not the zero cut with level 0") }
                    } else if mn <= 1.0 - EPS {
                        let ok = (gam - mn).abs() < 1e-9
                            && (b - mn).abs() < 1e-9
                            && (0..m).any(|i| mg[i] <= mn + 1e-12 * (1.0 + xc[..nf].iter().fold(0.0f64, |a, v| a.max(v.abs())) * unit * 8.0) && (0..nf).all(|j| (g[j] + labels[i] as f64 * data[i * nf + j]).abs() < 1e-12 * unit) && (g[nf] + labels[i] as f64).abs() < 1e-12);
                        if ok { None } else { Some("cut is not the worst sample's margin constraint") }
                    } else {
                        None
                    };
                    if let Some(why) = bad {
                        let s = desc();
                        c.fail(format!("{}: {}", why, s));
                        return false;
                    }
                }
                true
            });
            if c.stopped() {
                return;
            }
            c.traces += 1;
        }
        c.sample(|| format!("SVM data {:?}", data));
    });
}

/// margins that are exactly representable: one is enough
fn svm_exact(c: &mut Ctx) {
    c.bound("SVM oracle: exact margins (weights in halves): one feature, 1 to 3 samples over {-2,-1,0,1,2}, every labelling; a least margin of exactly 1 counts as met");
    let mut jobs = vec![];
    for m in 1..=3 {
        jobs.extend(words(5, m));
    }
    c.par(jobs, |c, w| {
        let m = w.len();
        let data: Vec<f64> = w.iter().map(|&i| i as f64 - 2.0).collect();
        for lab in 0..1u32 << m {
            let labels: Vec<i32> = (0..m).map(|i| if lab >> i & 1 == 1 { 1 } else { -1 }).collect();
            let mut o = SvmOracle::new(Arr::from_shape_vec(m, 1, data.clone()), labels.clone());
            for a in -6..=6 {
                for b0 in -6..=6 {
                    let xc = [a as f64 / 2.0, b0 as f64 / 2.0];
                    let mg: Vec<f64> = (0..m).map(|i| labels[i] as f64 * (xc[0] * data[i] + xc[1])).collect();
                    let mn = mg.iter().cloned().fold(f64::INFINITY, f64::min);
                    let mut gam = 0.75;
                    let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(xc.to_vec()), &mut gam);
                    c.states += 1;
                    c.transitions += 1;
                    let ok = shrunk
                        && if mn >= 1.0 {
                            gam == 0.0 && b == 0.0 && g.data().iter().all(|v| *v == 0.0)
                        } else {
                            gam == mn && b == mn && (0..m).any(|i| mg[i] == mn && g[0] == -data[i] * labels[i] as f64 && g[1] == -labels[i] as f64)
                        };
                    ensure!(c, ok, "SVM data {:?} labels {:?} weights {:?}: margins {:?}, got cut {:?} {} level {} improved {}", data, labels, xc, mg, g.data(), b, gam, shrunk);
                }
            }
        }
        c.traces += 1;
    });
}

/// one data set with every sample in turn moved to be the worst, for a few weight vectors
fn svm_big(c: &mut Ctx, nf: usize, m: usize, base: &[f64], unit: f64) {
    for worst in 0..m {
        for pat in 0..6usize {
            let labels: Vec<i32> = (0..m).map(|i| if (i + pat) % (2 + pat) == 0 { 1 } else { -1 }).collect();
            // weights: one feature after another carries the separation
            let f = worst % nf;
            let xc: Vec<f64> = (0..=nf).map(|j| if j == f { 1.5 / unit } else if j == nf { 0.25 } else { 0.125 / unit / nf as f64 }).collect();
            let mut data = base.to_vec();
            for i in 0..m {
                // margin 2 or more for all, except the worst one
                let want = if i == worst { [0.3, -1.25, 0.9, -50.0, -4000.0, -5e7][pat] } else { [2.0, 2.0, 2.0, -49.0, -3990.0, -4e7][pat] + (i % 7) as f64 * 0.25 };
                let rest: f64 = (0..nf).filter(|j| *j != f).map(|j| xc[j] * data[i * nf + j]).sum::<f64>() + xc[nf];
                data[i * nf + f] = (want * labels[i] as f64 - rest) / xc[f];
            }
            let mut o = SvmOracle::new(Arr::from_shape_vec(m, nf, data.clone()), labels.clone());
            let mg = |i: usize| labels[i] as f64 * ((0..nf).map(|j| xc[j] * data[i * nf + j]).sum::<f64>() + xc[nf]);
            let mn = mg(worst);
            let mut gam = 3.0;
            let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(xc.clone()), &mut gam);
            c.states += 1;
            c.transitions += 1;
            c.traces += 1;
            let l = labels[worst] as f64;
            let ok = shrunk
                && g.len() == nf + 1
                && (gam - mn).abs() < 1e-9 * (1.0 + mn.abs())
                && (b - mn).abs() < 1e-9 * (1.0 + mn.abs())
                && (0..nf).all(|j| (g[j] + l * data[worst * nf + j]).abs() <= 1e-12 * (unit + data[worst * nf + j].abs()))
                && (g[nf] + l).abs() < 1e-12;
            ensure!(c, ok, "SVM with {} samples, {} features: sample {} has the worst margin {}, got cut {:?} {} level {} (improved {})", m, nf, worst, mn, g.data(), b, gam, shrunk);
            if pat >= 3 {
                continue;
            }
            // and with that sample satisfied too
            data[worst * nf + f] = (2.0 * l - (l * mn - xc[f] * data[worst * nf + f])) / xc[f];
            let mut o = SvmOracle::new(Arr::from_shape_vec(m, nf, data.clone()), labels.clone());
            let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(xc.clone()), &mut gam);
            c.transitions += 1;
            ensure!(c, shrunk && gam == 0.0 && b == 0.0 && g.data().iter().all(|v| *v == 0.0), "SVM with {} samples, {} features, all margins met: got cut {:?} {} level {} (improved {})", m, nf, g.data(), b, gam, shrunk);
        }
    }
}

fn maxcut(c: &mut Ctx) {
    let th = c.thorough;
    let mut plans: Vec<(usize, Vec<f64>)> = vec![(1, vec![0.0]), (2, vec![0.0, 1.0, 2.5, -1.0]), (3, vec![0.0, 1.0, 2.0, -1.0]), (4, vec![0.0, 1.0, 3.0])];
    if th {
        plans.push((5, vec![0.0, 1.0]));
        plans.push((4, vec![-2.0, 0.5, 1.0, 4.0]));
        plans.push((5, vec![1.0, 3.0]));
    } else {
        plans.push((5, vec![1.0, 2.0]));
    }
    c.bound(format!("max-cut oracle: every weighted graph with (vertices, edge weights) in {:?} x every sign pattern (values -0.7, 0, 0.4) x levels below/at/above the cut value", plans));
    let mut jobs = vec![];
    for (n, al) in plans {
        for w in words(al.len(), n * (n - 1) / 2) {
            jobs.push((n, w.into_iter().map(|i| al[i]).collect::<Vec<f64>>()));
        }
    }
    // larger graphs: fixed families, all sign patterns; and other units
    for n in 6..=(if c.deep { 16 } else if th { 12 } else { 9 }) {
        for k in 0..4usize {
            jobs.push((n, (0..n * (n - 1) / 2).map(|i| [1.0, ((i * 5 + 1) % 4) as f64, (i % 3 == 0) as u8 as f64, (i % 5) as f64 - 1.0][k]).collect()));
        }
    }
    for u in [2f64.powi(-50), 2f64.powi(50)] {
        for w in words(3, 3) {
            jobs.push((3, w.into_iter().map(|i| [0.0, 1.0, 3.0][i] * u).collect()));
        }
    }
    for n in 10..=(if c.deep { 100usize } else { 66 }) {
        for k in 0..4usize {
            jobs.push((n, (0..n * (n - 1) / 2).map(|i| [1.0, ((i * 5 + 1) % 4) as f64, (i % 3 == 0) as u8 as f64, (i % 5) as f64 - 1.0][k]).collect()));
        }
    }
    c.bound("max-cut oracle: 4 graphs on every number of vertices from 10 to 66 (100), with and without self loops, every contiguous block, every single vertex and every residue class as one side");
    c.bound("max-cut oracle: fixed graphs on 6 and more vertices, all sign patterns; all 3-vertex graphs in units 2^-50 and 2^50");
    c.par(jobs, |c, (n, e)| {
        let n = *n;
        let mut wm = vec![0.0; n * n];
        let mut p = 0;
        for i in 0..n {
            for j in 0..i {
                wm[i * n + j] = e[p];
                wm[j * n + i] = e[p];
                p += 1;
            }
        }
        if e.len() % 2 == 1 {
            // a vertex's weight to itself is never across a cut
            for i in 0..n {
                wm[i * n + i] = 3.0;
            }
        }
        let mut o = MaxcutOracle::new(Arr::from_shape_vec(n, n, wm.clone()));
        let vals: &[f64] = if n <= 4 { &[-0.7, 0.0, 0.4, -1e-13, 1e-13, -1e9] } else if n <= 8 { &[-0.7, 0.0, 0.4] } else { &[-0.7, 0.4] };
        let pats: Vec<Vec<f64>> = if n > if c.thorough { 12 } else { 9 } {
            let mut v: Vec<Vec<f64>> = vec![];
            for lo in 0..n {
                for hi in [lo + 1, lo + 2, n / 2, n] {
                    if hi > lo {
                        v.push((0..n).map(|i| if i >= lo && i < hi { 0.4 } else { -0.7 }).collect());
                        v.push((0..n).map(|i| if i >= lo && i < hi { -0.7 } else { 0.0 }).collect());
                    }
                }
                v.push((0..n).map(|i| if i % (lo + 2) == 0 { 0.4 } else { -0.7 }).collect());
            }
            v
        } else {
            words(vals.len(), n).into_iter().map(|w| w.into_iter().map(|i| vals[i]).collect()).collect()
        };
        let mut go = |x: Vec<f64>| -> bool {
            let side: Vec<bool> = x.iter().map(|v| *v >= 0.0).collect();
            let mut cut = 0.0;
            let mut gr = vec![0.0; n];
            for i in 0..n {
                for j in 0..n {
                    if side[i] != side[j] {
                        if i < j {
                            cut += wm[i * n + j];
                        }
                        gr[i] -= 2.0 * wm[i * n + j];
                    }
                }
            }
            for g0 in [cut - 1.5, cut, cut + 0.5, 0.0, f64::NEG_INFINITY] {
                let mut gam = g0;
                let ((g, SingleCut(b)), shrunk) = o.assess_optim(&Arr::from(x.clone()), &mut gam);
                c.states += 1;
                c.transitions += 1;
                let want = cut > g0;
                let ok = shrunk == want
                    && gam == if want { cut } else { g0 }
                    && g.data().iter().zip(&gr).all(|(a, r)| (a - r).abs() <= 1e-12 * r.abs())
                    && b == if want { -cut } else { g0 };
                if !ok {
                    c.fail(format!(
                        "max-cut weights {:?} at {:?} level {}: cut value {}, expected improved {} direction {:?}; got improved {} level {} cut {:?} {}",
                        wm, x, g0, cut, want, gr, shrunk, gam, g.data(), b
                    ));
                    return false;
                }
            }
            true
        };
        for x in pats {
            if !go(x) {
                return;
            }
        }
        c.traces += 1;
        c.sample(|| format!("max-cut weights {:?}", wm));
    });
}
