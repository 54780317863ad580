//! C07: the cut formulas, over grids of dimension, size and offsets.
use crate::ells::{st, St};
use crate::ensure;
use crate::rt::*;
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut};
use ellalgo_rs::ell_calc::{EllCalc, EllCalcCore};

type R3 = (f64, f64, f64);

/// rho and sigma, delta scaled: compares rho relative to tau
fn st2(s: &CutStatus) -> St {
    match s {
        CutStatus::Success => St::Success,
        CutStatus::NoSoln => St::NoSoln,
        CutStatus::NoEffect => St::NoEffect,
        CutStatus::Unknown => St::Unknown,
    }
}

fn same(a: R3, b: R3, tau: f64, tol: f64) -> bool {
    (a.0 - b.0).abs() <= tol * tau && (a.1 - b.1).abs() <= tol && (a.2 - b.2).abs() <= tol
}

/// Textbook parameters from the pencil |u|^2-1 + lam (s+a0)(s+a1), with lam chosen optimally.
/// The optimality condition is a quadratic in lam; solved here with the stable root formula.
pub fn ref_lambda(n: f64, a0: f64, a1: f64) -> f64 {
    // log vol = n ln R(lam) - ln(1+lam), R = 1 - lam p + lam^2 m^2/(1+lam), p=a0 a1, m=(a0+a1)/2
    let p = a0 * a1;
    // derivative zero:  n R' (1+lam) = R
    // R = [ (1 - lam p)(1+lam) + lam^2 m2 ]/(1+lam)
    // R' = -p + m2 (2 lam + lam^2)/(1+lam)^2
    // n[-p (1+lam)^2 + m2 (2lam+lam^2)] = (1 - lam p)(1+lam) + lam^2 m2
    // A lam^2 + B lam + C = 0
    // with m2 - p = h = (a1 - a0)^2/4, which keeps thin slabs accurate
    let h = (a1 - a0) * (a1 - a0) / 4.0;
    let a = (n - 1.0) * h;
    let b = 2.0 * n * h - 1.0 + p;
    let c = -n * p - 1.0;
    if a == 0.0 {
        -c / b
    } else {
        let d = (b * b - 4.0 * a * c).max(0.0).sqrt();
        // a >= 0, c <= 0 in the domain: positive root
        if b > 0.0 {
            2.0 * (-c) / (b + d)
        } else {
            (-b + d) / (2.0 * a)
        }
    }
}
fn reference(n: f64, a0: f64, a1: f64) -> R3 {
    if a0 == a1 {
        // flat slab: the part of the ellipsoid in one hyperplane
        return (a0, 1.0, n / (n - 1.0) * (1.0 - a0 * a0));
    }
    let lam = ref_lambda(n, a0, a1);
    let h = (a1 - a0) * (a1 - a0) / 4.0;
    let m2 = (a0 + a1) * (a0 + a1) / 4.0;
    let mm = (a0 + a1) / 2.0;
    let sigma = lam / (1.0 + lam);
    let rho = sigma * mm;
    let delta = 1.0 + lam * h - sigma * m2;
    (rho, sigma, delta)
}

pub fn c07(c: &mut Ctx) {
    let th = c.thorough;
    let ns: Vec<usize> = if th {
        (2..=40).chain([50, 64, 100, 128, 200, 500, 1000, 5000, 50000]).collect()
    } else {
        (2..=40).chain([50, 64, 100, 200, 1000, 20000]).collect()
    };
    let tsqs: Vec<f64> = {
        let mut v = vec![];
        let step = if th { 1 } else { 2 };
        let mut e = -12;
        while e <= 12 {
            v.push(10f64.powi(e));
            v.push(3.7 * 10f64.powi(e));
            e += step;
        }
        for e in [-100, -60, -40, -25, -17, 17, 25, 40, 60, 100] {
            v.push(2.3 * 10f64.powi(e));
        }
        v.push(0.01);
        v.push(1.0);
        v.push(4.0);
        v
    };
    let steps = if c.deep { 1600 } else if th { 900 } else { 300 };
    c.bound(format!(
        "dimensions {:?}, {} squared sizes over 1e-100..1e100, offsets on a {}-point grid of [-1.5,1.5] tau, all pairs",
        ns, tsqs.len(), steps + 1
    ));
    let mut items = vec![];
    for &n in &ns {
        for &t in &tsqs {
            items.push((n, t, steps));
        }
    }
    // every dimension of a wide range, and the usual round numbers, on a coarser grid
    let hi = if th { 520 } else { 260 };
    let coarse = if th { 120 } else { 60 };
    for n in (41..=hi).chain([500, 511, 512, 513, 999, 1000, 1023, 1024, 2000, 4096, 10000, 100000]) {
        for t in [6.25e-3, 1.0, 40.0] {
            items.push((n, t, coarse));
        }
    }
    c.bound(format!("every dimension 41..{} and powers of two and ten to 100000, {}-point offset grid, 3 sizes", hi, coarse + 1));
    c.par(items, |c, &(n, tsq, steps)| {
        let nf = n as f64;
        let tau = tsq.sqrt();
        let h = EllCalc::new(n);
        let k = EllCalcCore::new(nf);
        let mut off = EllCalc::new(n);
        off.use_parallel_cut = false;
        let ctx = |a0: f64, a1: f64| format!("n={} tau^2={:e} b0={:e} b1={:e} (b0/tau={} b1/tau={})", n, tsq, a0 * tau, a1 * tau, a0, a1);
        let tol = 1e-9;
        // offsets avoid every decision boundary (multiples of 1/n, 0, +-1) by a fixed shift
        let mut grid: Vec<f64> = (0..=steps)
            .map(|i| -1.5 + 3.0 * i as f64 / steps as f64 + 0.00137)
            .collect();
        // and close to them
        grid.extend([1e-7, 1e-5, 3e-4, -1e-7, -1e-5, -3e-4, 1.0 - 1e-6, 1.0 - 1e-4, 1.0 + 1e-6, 1.0 + 1e-4, -1.0 - 1e-5, 0.5 + 1e-5, 0.5 - 1e-5]);
        grid.extend([0.012 / nf, -0.37 / nf, -0.98 / nf, -1.02 / nf, -0.9999 / nf, 3.0, 40.0, -25.0, 1e6, f64::INFINITY]);
        // exact coincidences: a plane through the centre, symmetric slabs, flat slabs
        let rt = nf.sqrt();
        for v in [0.25, 0.5, 0.75, 0.9, 0.3 / rt, 0.6 / rt, 0.9 / rt, 1.1 / rt, 0.999 / rt, 0.5 / nf] {
            grid.extend([v, -v]);
        }
        grid.push(0.0);
        // --- single cuts
        let cc = h.calc_central_cut(tsq);
        c.transitions += 1;
        ensure!(c, st(cc.0) == St::Success, "central cut refused: {}", ctx(0.0, 0.0));
        let want_c = (tau / (nf + 1.0), 2.0 / (nf + 1.0), nf * nf / (nf * nf - 1.0));
        ensure!(c, same(cc.1, want_c, tau, tol), "central cut parameters {:?}, expected {:?}: {}", cc.1, want_c, ctx(0.0, 0.0));
        ensure!(c, same(k.calc_central_cut(tsq), want_c, tau, tol), "core central cut: {}", ctx(0.0, 0.0));
        let b0 = h.calc_bias_cut(0.0, tsq);
        ensure!(c, st(b0.0) == St::Success && same(b0.1, cc.1, tau, tol), "deep cut with offset 0 {:?} differs from the central cut {:?}: {}", b0.1, cc.1, ctx(0.0, 0.0));
        let q0 = h.calc_bias_cut_q(0.0, tsq);
        ensure!(c, st(q0.0) == St::Success && same(q0.1, cc.1, tau, tol), "discrete cut with offset 0 {:?} differs from the central cut {:?}: {}", q0.1, cc.1, ctx(0.0, 0.0));
        c.transitions += 2;
        let pcn = h.calc_single_or_parallel_central_cut(&ParallelCut(0.3 * tau, None), tsq);
        ensure!(c, st(pcn.0) == St::Success && same(pcn.1, cc.1, tau, tol), "central cut without second offset differs: {}", ctx(0.3, 0.0));
        for &a in &grid {
            c.states += 1;
            let b = a * tau;
            let x = h.calc_bias_cut_q(b, tsq);
            let xs = st(x.0);
            c.transitions += 1;
            let xn = h.calc_single_or_parallel_q(&ParallelCut(b, None), tsq);
            ensure!(c, st(xn.0) == xs && same(xn.1, x.1, tau, tol), "discrete cut without second offset differs from the single cut: {}", ctx(a, 0.0));
            let want = if a > 1.0 {
                St::NoSoln
            } else if 1.0 + nf * a < -1e-9 {
                St::NoEffect
            } else if 1.0 + nf * a > 1e-9 {
                St::Success
            } else {
                xs
            };
            ensure!(c, xs == St::Success || (x.1 .0 == 0.0 && x.1 .1 == 0.0), "refused discrete cut with step {:?}: {}", x.1, ctx(a, 0.0));
            ensure!(c, xs == want, "discrete verdict {:?} expected {:?}: {}", xs, want, ctx(a, 0.0));
            if xs == St::Success && a > -1.0 {
                let r = reference(nf, a, 1.0);
                let r = (r.0 * tau, r.1, r.2);
                ensure!(c, same(x.1, r, tau, 1e-8), "discrete cut parameters {:?}, optimal ellipsoid {:?}: {}", x.1, r, ctx(a, 1.0));
                let kk = k.calc_bias_cut(b, tau);
                let kf = k.calc_bias_cut_fast(b, tau, tau + nf * b);
                ensure!(c, same(kk, r, tau, 1e-8) && same(kf, r, tau, 1e-8), "core deep cut {:?} / {:?}, optimal ellipsoid {:?}: {}", kk, kf, r, ctx(a, 1.0));
            }
            if a < 0.0 && 1.0 + nf * a > 1e-9 {
                // shallow cut: still shrinks, in the deep form just as in the discrete one
                let y = h.calc_bias_cut(b, tsq);
                let yn = h.calc_single_or_parallel_bias_cut(&ParallelCut(b, None), tsq);
                c.transitions += 2;
                ensure!(c, st2(&y.0) == xs && same(y.1, x.1, tau, tol), "deep and discrete cut disagree on a shallow offset: {:?} {:?} vs {:?} {:?}: {}", y.0, y.1, xs, x.1, ctx(a, 0.0));
                ensure!(c, st(yn.0) == xs && same(yn.1, y.1, tau, tol), "deep cut without second offset differs from the single cut: {}", ctx(a, 0.0));
            }
            if a >= 0.0 {
                let y = h.calc_bias_cut(b, tsq);
                let yn = h.calc_single_or_parallel_bias_cut(&ParallelCut(b, None), tsq);
                c.transitions += 2;
                let ys = st(y.0);
                ensure!(c, ys == xs && same(y.1, x.1, tau, tol), "deep and discrete cut disagree on a non-negative offset: {:?} {:?} vs {:?} {:?}: {}", ys, y.1, xs, x.1, ctx(a, 0.0));
                ensure!(c, st(yn.0) == ys && same(yn.1, y.1, tau, tol), "deep cut without second offset differs from the single cut: {}", ctx(a, 0.0));
                // central with second offset
                let z = h.calc_parallel_central_cut(b, tsq);
                let zo = off.calc_parallel_central_cut(b, tsq);
                let zz = h.calc_single_or_parallel_central_cut(&ParallelCut(0.77 * tau, Some(b)), tsq);
                let w = h.calc_parallel_bias_cut(0.0, b, tsq);
                c.transitions += 4;
                ensure!(c, st(z.0) == St::Success, "central slab refused: {}", ctx(0.0, a));
                ensure!(c, st(zz.0) == St::Success && same(zz.1, z.1, tau, tol), "central dispatch differs: {}", ctx(0.0, a));
                ensure!(c, st(w.0) == St::Success && same(w.1, z.1, tau, 1e-8), "deep slab with b0=0 {:?} differs from the central slab {:?}: {}", w.1, z.1, ctx(0.0, a));
                ensure!(c, st(zo.0) == St::Success && same(zo.1, cc.1, tau, tol), "central slab with slabs disabled {:?} differs from the central cut: {}", zo.1, ctx(0.0, a));
                if a > 1.0 {
                    ensure!(c, same(z.1, cc.1, tau, tol), "central slab with a redundant second plane {:?} differs from the central cut {:?}: {}", z.1, cc.1, ctx(0.0, a));
                } else {
                    let r = reference(nf, 0.0, a);
                    let r = (r.0 * tau, r.1, r.2);
                    ensure!(c, same(z.1, r, tau, 1e-8), "central slab parameters {:?}, optimal ellipsoid {:?}: {}", z.1, r, ctx(0.0, a));
                    let kz = k.calc_parallel_central_cut(b, tsq);
                    ensure!(c, same(kz, r, tau, 1e-8), "core central slab {:?}, optimal {:?}: {}", kz, r, ctx(0.0, a));
                }
            } else {
                let z = h.calc_parallel_central_cut(b, tsq);
                ensure!(c, st(z.0) == St::NoSoln, "central slab lying entirely on the wrong side accepted: {}", ctx(0.0, a));
            }
        }
        // --- slabs
        for &a0 in &grid {
            for &a1 in &grid {
                if a0 != a1 && (a1 - a0).abs() < 1e-9 * a0.abs() {
                    continue; // indistinguishable
                }
                c.states += 1;
                c.traces += 1;
                let (b0, b1) = (a0 * tau, a1 * tau);
                let q = h.calc_parallel_q(b0, b1, tsq);
                let qs = st2(&q.0);
                let qd = h.calc_single_or_parallel_q(&ParallelCut(b0, Some(b1)), tsq);
                c.transitions += 2;
                ensure!(c, qs == St::Success || (q.1 .0 == 0.0 && q.1 .1 == 0.0), "refused slab with step {:?}: {}", q.1, ctx(a0, a1));
                ensure!(c, st(qd.0) == qs && same(qd.1, q.1, tau, tol), "discrete slab dispatch differs: {}", ctx(a0, a1));
                if a1 < a0 {
                    ensure!(c, qs == St::NoSoln, "empty slab accepted (discrete): {}", ctx(a0, a1));
                    if a0 >= 0.0 {
                        let y = h.calc_parallel_bias_cut(b0, b1, tsq);
                        ensure!(c, st(y.0) == St::NoSoln, "empty slab accepted (deep): {}", ctx(a0, a1));
                    }
                    continue;
                }
                if a1 < -1.0 || a0 > 1.0 {
                    ensure!(c, qs == St::NoSoln, "slab missing the ellipsoid accepted (discrete): {}", ctx(a0, a1));
                    if a0 > 1.0 {
                        let y = h.calc_parallel_bias_cut(b0, b1, tsq);
                        ensure!(c, st(y.0) == St::NoSoln, "slab missing the ellipsoid accepted (deep): {}", ctx(a0, a1));
                    }
                    continue;
                }
                let so = off.calc_parallel_q(b0, b1, tsq);
                let ss = h.calc_bias_cut_q(b0, tsq);
                ensure!(c, so.0 == ss.0 && same(so.1, ss.1, tau, tol), "slabs disabled: discrete slab differs from its single cut: {}", ctx(a0, a1));
                if a1 > 1.0 {
                    ensure!(c, q.0 == ss.0 && same(q.1, ss.1, tau, tol), "discrete slab with a redundant second plane {:?} differs from its single cut {:?}: {}", q.1, ss.1, ctx(a0, a1));
                } else {
                    let eta = 1.0 + nf * a0 * a1;
                    let want = if eta < -1e-9 {
                        St::NoEffect
                    } else if eta > 1e-9 {
                        St::Success
                    } else {
                        qs
                    };
                    ensure!(c, qs == want, "discrete slab verdict {:?} expected {:?}: {}", qs, want, ctx(a0, a1));
                    if qs == St::Success && eta > 1e-6 {
                        let kf = k.calc_parallel_bias_cut_fast(b0, b1, tsq, b0 * b1, tsq + nf * b0 * b1);
                        let kp = k.calc_parallel_bias_cut(b0, b1, tsq);
                        let ko = k.calc_parallel_bias_cut_fast_old(b0, b1, tsq, b0 * b1, tsq + nf * b0 * b1);
                        c.transitions += 3;
                        ensure!(c, same(kf, q.1, tau, tol) && same(kp, q.1, tau, tol), "core slab formulas disagree {:?} {:?} {:?}: {}", q.1, kf, kp, ctx(a0, a1));
                        if a0 > -1.0 && (a1 - a0 > 1e-3 || (a0 == a1 && a0.abs() < 0.999)) {
                            let r = reference(nf, a0, a1);
                            let r = (r.0 * tau, r.1, r.2);
                            ensure!(c, same(q.1, r, tau, 1e-7), "discrete slab parameters {:?}, optimal ellipsoid {:?}: {}", q.1, r, ctx(a0, a1));
                            ensure!(c, a0 == a1 || same(ko, r, tau, 1e-6), "alternative slab formula {:?}, optimal ellipsoid {:?}: {}", ko, r, ctx(a0, a1));
                            // mirror image: the slab seen from the other side
                            let m = h.calc_parallel_q(-b1, -b0, tsq);
                            c.transitions += 1;
                            if -a0 < 1.0 {
                                ensure!(c, st(m.0) == St::Success && same((-m.1 .0, m.1 .1, m.1 .2), q.1, tau, 1e-8), "mirrored slab {:?} vs {:?}: {}", m.1, q.1, ctx(a0, a1));
                            }
                        }
                    }
                }
                let useful = if a1 > 1.0 { 1.0 + nf * a0 } else { 1.0 + nf * a0 * a1 };
                if a0 >= 0.0 || (a0 > -1.0 && useful > 1e-6) {
                    let y = h.calc_parallel_bias_cut(b0, b1, tsq);
                    let yd = h.calc_single_or_parallel_bias_cut(&ParallelCut(b0, Some(b1)), tsq);
                    let yo = off.calc_parallel_bias_cut(b0, b1, tsq);
                    let ys = h.calc_bias_cut(b0, tsq);
                    c.transitions += 4;
                    ensure!(c, y.0 == q.0 && same(y.1, q.1, tau, tol), "deep and discrete slab disagree {:?} vs {:?}: {}", y.1, q.1, ctx(a0, a1));
                    ensure!(c, yd.0 == y.0 && same(yd.1, y.1, tau, tol), "deep slab dispatch differs: {}", ctx(a0, a1));
                    ensure!(c, yo.0 == ys.0 && same(yo.1, ys.1, tau, tol), "slabs disabled: deep slab differs from its single cut: {}", ctx(a0, a1));
                }
                // homogeneity: scaling offsets and size together
                for s in [0.125, 64.0] {
                    let z = h.calc_parallel_q(b0 * s, b1 * s, tsq * s * s);
                    c.transitions += 1;
                    ensure!(c, z.0 == q.0 && same((z.1 .0 / s, z.1 .1, z.1 .2), q.1, tau, 1e-8), "slab formulas not homogeneous (scale {}): {:?} vs {:?}: {}", s, z.1, q.1, ctx(a0, a1));
                }
            }
        }
        c.sample(|| ctx(grid[3], grid[20]));
    });
}
