//! C14, C15: positive-definiteness test, its certificates, and the matrix-inequality oracles.
use crate::ensure;
use crate::linalg::*;
use crate::rt::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{OracleFeas, SingleCut};
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;

/// symmetric integer matrices of order n: diagonal over `dg`, strict lower triangle over `off`
fn sym_from(n: usize, dg: &[i64], off: &[i64], digits: &[usize]) -> Vec<i64> {
    let mut m = vec![0i64; n * n];
    let mut p = 0;
    for i in 0..n {
        for j in 0..=i {
            let v = if i == j { dg[digits[p]] } else { off[digits[p]] };
            m[i * n + j] = v;
            m[j * n + i] = v;
            p += 1;
        }
    }
    m
}
fn radix(n: usize, dg: usize, off: usize) -> Vec<usize> {
    let mut r = vec![];
    for i in 0..n {
        for j in 0..=i {
            r.push(if i == j { dg } else { off });
        }
    }
    r
}

/// first order k whose leading minor is not positive, with its sign; None if positive definite
fn first_bad(m: &[i64], n: usize) -> Option<(usize, bool)> {
    for k in 1..=n {
        let d = det_i(m, n, k);
        if d <= 0 {
            return Some((k, d < 0));
        }
    }
    None
}
fn pow2(x: i128) -> bool {
    x != 0 && (x.abs() & (x.abs() - 1)) == 0
}
/// every pivot before order k is a ratio of powers of two: elimination is exact in binary
fn exact_upto(m: &[i64], n: usize, k: usize) -> bool {
    (1..k).all(|i| pow2(det_i(m, n, i)))
}
fn to_f(m: &[i64], s: f64) -> Vec<f64> {
    m.iter().map(|&v| v as f64 * s).collect()
}
fn maxabs(m: &[f64]) -> f64 {
    m.iter().fold(0.0f64, |a, v| a.max(v.abs()))
}
fn arr2(m: &[f64], n: usize) -> Arr {
    Arr::from_shape_vec(n, n, m.to_vec())
}

/// the certificate after a refusal: range, vector, value; checked against the matrix
fn check_witness(c: &mut Ctx, mg: &mut LDLTMgr, a: &[f64], n: usize, strict: bool, d: &dyn Fn() -> String) {
    let (s, e) = mg.pos;
    ensure!(c, s < e && e <= n, "refused with an empty certificate block {:?}: {}", mg.pos, d());
    let ep = mg.witness();
    let v: Vec<f64> = (0..n).map(|i| if i >= s && i < e { mg.wit[i] } else { 0.0 }).collect();
    let q = quad(a, &v);
    let vn = v.iter().map(|x| x.abs()).sum::<f64>();
    ensure!(c, v.iter().all(|x| x.is_finite()) && vn > 1e-9, "certificate vector {:?} is not a finite non-zero vector: {}", v, d());
    let tol = 1e-9 * maxabs(a).max(f64::MIN_POSITIVE) * vn * vn;
    ensure!(c, (q + ep).abs() <= tol, "certificate value {} but v'Av = {} for v = {:?}: {}", ep, q, v, d());
    ensure!(c, if strict { ep > 1e-4 * tol } else { ep >= -tol }, "certificate value {} does not refute the matrix (v = {:?}): {}", ep, v, d());
    // the quadratic form of other matrices in the certificate direction
    let mut probes: Vec<Vec<f64>> = vec![a.to_vec()];
    let mut id = vec![0.0; n * n];
    let mut sk = vec![0.0; n * n];
    for i in 0..n {
        id[i * n + i] = 1.0;
        for j in 0..n {
            sk[i * n + j] = if i == j { i as f64 - 0.5 } else { 0.25 * (i + j) as f64 };
        }
    }
    probes.push(id);
    probes.push(sk);
    for p in probes {
        let q = mg.sym_quad(&arr2(&p, n));
        let r = quad(&p, &v);
        c.transitions += 1;
        ensure!(
            c,
            (q - r).abs() <= 1e-9 * maxabs(&p).max(f64::MIN_POSITIVE) * vn * vn,
            "quadratic form in the certificate direction reported {} but is {} (v = {:?}): {}",
            q,
            r,
            v,
            d()
        );
    }
}

fn check_pd(c: &mut Ctx, mg: &mut LDLTMgr, m: &[i64], n: usize, scale: f64, full: bool) {
    let a = to_f(m, scale);
    let aa = arr2(&a, n);
    let d = || format!("matrix {:?} of order {} scaled by {:e}", m, n, scale);
    c.states += 1;
    c.transitions += 2;
    c.traces += 1;
    let got = mg.factorize(&aa);
    let bad = first_bad(m, n);
    let sure = match bad {
        None => true,
        Some((_, true)) => true,
        Some((k, false)) => exact_upto(m, n, k),
    };
    ensure!(c, mg.is_spd() == got, "is_spd() disagrees with the returned verdict {}: {}", got, d());
    if sure {
        ensure!(c, got == bad.is_none(), "verdict {} but the matrix is positive definite: {}: {}", got, bad.is_none(), d());
        if let Some((k, _)) = bad {
            ensure!(c, mg.pos.1 == k, "certificate block ends at {:?} but the first non-positive leading minor has order {}: {}", mg.pos, k, d());
        }
    }
    if got && sure {
        let r = mg.sqrt();
        let tol = 1e-10 * maxabs(&a);
        for i in 0..n {
            for j in 0..n {
                if j < i {
                    ensure!(c, r.at(i, j) == 0.0, "square root is not upper triangular at ({}, {}): {}", i, j, d());
                }
                let s: f64 = (0..n).map(|k| r.at(k, i) * r.at(k, j)).sum();
                ensure!(c, (s - a[i * n + j]).abs() <= tol, "R'R = {} at ({}, {}) but the matrix has {}: {}", s, i, j, a[i * n + j], d());
            }
        }
    } else if !got {
        let strict = matches!(bad, Some((_, true)));
        check_witness(c, mg, &a, n, strict, &d);
        if c.stopped() {
            return;
        }
    }
    if !full {
        return;
    }
    // the element-access form must agree with the matrix form
    let mut m2 = LDLTMgr::new(n);
    let far = std::cell::Cell::new(0usize);
    let g2 = m2.factor(|i, j| {
        far.set(far.get().max(i.max(j) + 1));
        a[i * n + j]
    });
    if !g2 {
        ensure!(c, far.get() <= m2.pos.1, "row {} was read although the matrix is refused at row {}: {}", far.get(), m2.pos.1, d());
    }
    ensure!(c, g2 == got && (got || m2.pos == mg.pos), "element access verdict {} {:?}, matrix verdict {} {:?}: {}", g2, m2.pos, got, mg.pos, d());
}

/// pivots of an elimination that restarts after an exactly zero pivot, and of plain elimination
/// that skips zero pivots; Some(list) only when every one is exactly representable.
fn semi_exact(m: &[i64], n: usize) -> bool {
    // the leading minors of every contiguous principal block must be powers of two or zero
    for s in 0..n {
        for e in s + 1..=n {
            let idx: Vec<usize> = (s..e).collect();
            let d = pminor_i(m, n, &idx);
            if d != 0 && !pow2(d) {
                return false;
            }
        }
    }
    // and of every principal block (elimination that skips zero pivots)
    for mask in 1u32..(1 << n) {
        let idx: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
        let d = pminor_i(m, n, &idx);
        if d != 0 && !pow2(d) {
            return false;
        }
    }
    true
}

fn check_semi(c: &mut Ctx, m: &[i64], n: usize, scale: f64) {
    let a = to_f(m, scale);
    let d = || format!("relaxed factorization of {:?} of order {} scaled by {:e}", m, n, scale);
    let psd = is_psd_i(m, n);
    let pd = is_pd_i(m, n);
    let mut mg = LDLTMgr::new(n);
    let got = mg.factor_with_allow_semidefinite(|i, j| a[i * n + j]);
    c.states += 1;
    c.transitions += 1;
    c.traces += 1;
    ensure!(c, mg.is_spd() == got, "is_spd() disagrees with the returned verdict {}: {}", got, d());
    if pd {
        ensure!(c, got, "refused a positive definite matrix: {}", d());
    }
    if psd && semi_exact(m, n) {
        ensure!(c, got, "refused a positive semidefinite matrix: {}", d());
    }
    if !got && !psd {
        // a minor that is zero in exact arithmetic but not in binary makes the outcome a matter of rounding
        let fuzzy = (0..n).any(|s| (s + 1..=n).any(|e| pminor_i(m, n, &(s..e).collect::<Vec<_>>()) == 0));
        if fuzzy && !semi_exact(m, n) {
            return;
        }
        // restarts after a zero pivot keep the certificate inside the block: rounding excepted, ep > 0
        let (s, e) = mg.pos;
        let idx: Vec<usize> = (s..e).collect();
        let strict = !idx.is_empty() && pminor_i(m, n, &idx) != 0;
        check_witness(c, &mut mg, &a, n, strict, &d);
        return;
    }
    if got && !psd {
        // has the elimination met an exactly zero leading minor (of the block it works on)?
        let mut start = 0;
        let mut zero = false;
        for e in 1..=n {
            let idx: Vec<usize> = (start..e).collect();
            let dd = pminor_i(m, n, &idx);
            if dd == 0 {
                zero = true;
                start = e;
            } else if dd < 0 {
                // a clearly negative pivot must be refused
                ensure!(c, zero && !semi_exact(m, n), "accepted a matrix with a negative pivot (block {:?}): {}", idx, d());
                break;
            }
        }
        ensure!(c, zero, "accepted an indefinite matrix: {}", d());
        if !c.known_hits.iter().any(|k| k.starts_with("F1")) {
            c.known_hits.push(KNOWN_F1.to_string());
        }
    }
}
const KNOWN_F1: &str = "F1 relaxed (semidefinite) factorization accepts an indefinite matrix once it has met an exactly zero pivot, e.g. [[0,1],[1,0]] (the row of the zero pivot is not inspected)";

pub fn c14(c: &mut Ctx) {
    let th = c.thorough;
    // (order, diagonal alphabet, off-diagonal alphabet)
    let mut plans: Vec<(usize, Vec<i64>, Vec<i64>)> = vec![
        (1, (-6..=6).collect(), vec![0]),
        (2, (-4..=6).collect(), (-5..=5).collect()),
        (3, (-1..=4).collect(), (-2..=2).collect()),
        (4, vec![0, 1, 2, 4], vec![-1, 0, 1]),
        (5, vec![1, 3], vec![-1, 1]),
        (5, vec![2], vec![-1, 0, 1]),
        (6, vec![2], vec![0, 1]),
    ];
    if th {
        plans = vec![
            (1, (-50..=50).collect(), vec![0]),
            (2, (-8..=12).collect(), (-9..=9).collect()),
            (3, (-2..=6).collect(), (-3..=3).collect()),
            (4, vec![-1, 0, 1, 2, 3, 4], vec![-2, -1, 0, 1]),
            (5, vec![1, 2, 4], vec![-1, 0, 1]),
            (6, vec![1, 3], vec![-1, 1]),
            (6, vec![2, 5], vec![0, 1]),
            (7, vec![3], vec![0, 1]),
        ];
    }
    for (n, dg, off) in &plans {
        c.bound(format!(
            "every symmetric matrix of order {} with diagonal in {:?} and off-diagonal in {:?}, scaled by 2^-300..2^300 (strict and relaxed test, certificate, square root)",
            n, dg, off
        ));
    }
    let mut items = vec![];
    for (n, dg, off) in plans {
        for &d0 in &dg {
            // split on the first diagonal digit and the second one
            if n == 1 {
                items.push((n, dg.clone(), off.clone(), d0, None));
            } else {
                for &d1 in &dg {
                    for &o in &off {
                        items.push((n, dg.clone(), off.clone(), d0, Some((o, d1))));
                    }
                }
            }
        }
    }
    c.par(items, |c, (n, dg, off, d0, d1)| {
        let n = *n;
        let mut mg = LDLTMgr::new(n);
        let mut r = radix(n, dg.len(), off.len());
        // fix the leading digits
        r[0] = 1;
        if d1.is_some() {
            r[1] = 1;
            r[2] = 1;
        }
        let i0 = dg.iter().position(|v| v == d0).unwrap();
        let p2 = |e: i32| 2f64.powi(e);
        let wide = [1.0, p2(-40), p2(40), p2(-60), p2(60), p2(-120), p2(120), p2(-300), p2(300)];
        let scales: &[f64] = if n <= 3 { &wide } else { &wide[..1] };
        let mut cnt = 0usize;
        odometer(&r, |dd| {
            if c.stopped() {
                return false;
            }
            let mut dd = dd.to_vec();
            dd[0] = i0;
            if let Some((o, d1)) = d1 {
                dd[1] = off.iter().position(|v| v == o).unwrap();
                dd[2] = dg.iter().position(|v| v == d1).unwrap();
            }
            let m = sym_from(n, dg, off, &dd);
            c.cur = format!("{:?}", m);
            cnt += 1;
            for &s in scales {
                check_pd(c, &mut mg, &m, n, s, n <= 4);
                if c.stopped() {
                    return false;
                }
            }
            if n > 3 {
                // one non-trivial scale, alternating
                let s = p2([-24, 18, -70, 63, -300, 266, -45][cnt % 7]);
                check_pd(c, &mut mg, &m, n, s, false);
            }
            if n <= 4 && !c.stopped() {
                for &s in if n <= 3 { &wide[..] } else { &wide[..5] } {
                    check_semi(c, &m, n, s);
                    if c.stopped() {
                        return false;
                    }
                }
            }
            true
        });
        c.sample(|| format!("order {} matrices starting with diagonal {:?}", n, d0));
        c.cur.clear();
    });
    if c.stopped() {
        return;
    }
    scales(c);
    if c.stopped() {
        return;
    }
    large(c);
    if c.stopped() {
        return;
    }
    reuse(c);
}

/// the verdict does not depend on the units: every power of two over the whole range
fn scales(c: &mut Ctx) {
    let mut mats: Vec<(usize, Vec<i64>)> = vec![];
    for v in [-3, -1, 0, 1, 3] {
        mats.push((1, vec![v]));
    }
    odometer(&radix(2, 4, 3), |d| {
        mats.push((2, sym_from(2, &[-1, 0, 1, 3], &[-1, 0, 2], d)));
        true
    });
    odometer(&radix(3, 2, 3), |d| {
        mats.push((3, sym_from(3, &[1, 3], &[-1, 0, 1], d)));
        true
    });
    for bad in 0..5 {
        let d: Vec<i64> = (0..5).map(|i| if i == bad { -2 } else { 1 + 3 * (i as i64 % 2) }).collect();
        mats.push((5, ldl_int(5, 2, &d)));
    }
    mats.push((5, ldl_int(5, 2, &[1, 4, 2, 8, 1])));
    let step = if c.thorough { 1 } else { 2 };
    let es: Vec<i32> = (-320..=320).step_by(step).collect();
    c.bound(format!("{} matrices of orders 1, 2, 3, 5 scaled by every 2^k, k = -320, {}.. 320 and by 3 * 2^k; in addition one pivot alone of each of these sizes", mats.len(), -320 + step as i32));
    c.par(es, |c, &e| {
        let s = 2f64.powi(e);
        for (n, m) in &mats {
            let mut mg = LDLTMgr::new(*n);
            for s in [s, 3.0 * s] {
                check_pd(c, &mut mg, m, *n, s, true);
                if c.stopped() {
                    return;
                }
            }
            if *n <= 3 {
                check_semi(c, m, *n, s);
                if c.stopped() {
                    return;
                }
            }
        }
        // one pivot alone of size 2^e (positive or negative) among pivots of size 1
        if (-200..=200).contains(&e) {
            for n in 1..=5usize {
                for at in 0..n {
                    for sg in [1.0, -1.0, 1.7, -1.7] {
                        let mut a = vec![0.0; n * n];
                        for i in 0..n {
                            a[i * n + i] = if i == at { sg * s } else { 1.0 + i as f64 };
                        }
                        let d = || format!("diagonal {:?}", (0..n).map(|i| a[i * n + i]).collect::<Vec<_>>());
                        let mut mg = LDLTMgr::new(n);
                        let strict = mg.factorize(&arr2(&a, n));
                        let mut mr = LDLTMgr::new(n);
                        let relaxed = mr.factor_with_allow_semidefinite(|i, j| a[i * n + j]);
                        c.transitions += 2;
                        c.states += 1;
                        ensure!(c, strict == (sg > 0.0) && relaxed == strict, "verdicts {} (strict) and {} (relaxed) for {}", strict, relaxed, d());
                        if !strict {
                            ensure!(c, mg.pos == (0, at + 1) && mr.pos == mg.pos, "certificate blocks {:?} and {:?} for {}", mg.pos, mr.pos, d());
                            for mg in [&mut mg, &mut mr] {
                                let ep = mg.witness();
                                let v: Vec<f64> = (0..n).map(|i| if i <= at { mg.wit[i] } else { 0.0 }).collect();
                                let q = quad(&a, &v);
                                ensure!(c, ep > 0.0 && rclose(q, -ep, 1e-9), "certificate value {} with direction {:?} (v'Av = {}) for {}", ep, v, q, d());
                            }
                        } else {
                            let r = mg.sqrt();
                            for i in 0..n {
                                ensure!(c, rclose(r.at(i, i) * r.at(i, i), a[i * n + i], 1e-12), "square root {:?} of {}", r.data(), d());
                            }
                        }
                        if c.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    });
}

/// A = L D L' with a unit lower triangular integer L and powers of two in D: elimination is exact,
/// and the first non-positive entry of D is the first non-positive pivot, whatever the order.
fn ldl_int(n: usize, pat: usize, d: &[i64]) -> Vec<i64> {
    let l = |i: usize, j: usize| -> i64 {
        if i == j {
            1
        } else if j > i {
            0
        } else {
            match pat {
                0 => 0,
                1 => (i - j == 1) as i64,
                2 => [1, -1, 0][(i + 2 * j) % 3],
                3 => if j == 0 { -1 } else { 0 },
                _ => [0, 1, 0, -1, 2][(i * i + j) % 5],
            }
        }
    };
    let mut m = vec![0i64; n * n];
    for i in 0..n {
        for j in 0..n {
            m[i * n + j] = (0..=i.min(j)).map(|k| l(i, k) * d[k] * l(j, k)).sum();
        }
    }
    m
}
fn large(c: &mut Ctx) {
    let ns: Vec<usize> = if c.thorough { (4..=20).collect() } else { (4..=17).collect() };
    c.bound(format!("orders {:?}: 5 factor patterns x 3 pivot magnitudes x (positive definite, or first bad pivot of value -4, -1, 0 at every position, the rest of either sign) x scales, strict and relaxed", ns));
    let mut items = vec![];
    for &n in &ns {
        for pat in 0..5 {
            items.push((n, pat));
        }
    }
    let big: Vec<usize> = if c.thorough { (ns[ns.len() - 1] + 1..=66).collect() } else { (18..=34).chain([40, 48, 50, 64]).collect() };
    c.bound(format!("the same with orders {:?}, 3 factor patterns, unit pivots", big));
    for n in big {
        for pat in [0, 1, 3] {
            items.push((n, pat));
        }
    }
    c.par(items, |c, &(n, pat)| {
        for mag in 0..if n > 20 { 1 } else { 3usize } {
            for bad in 0..=n {
                for v in if bad == n { vec![1] } else { vec![-4, -1, 0] } {
                    for after in if bad + 1 >= n { vec![1] } else { vec![1, -1] } {
                        let d: Vec<i64> = (0..n)
                            .map(|i| {
                                if i == bad {
                                    v
                                } else {
                                    let p = [1, 4, [1, 2, 8][i % 3]][mag];
                                    if i > bad { after * p } else { p }
                                }
                            })
                            .collect();
                        let m = ldl_int(n, pat, &d);
                        c.cur = format!("order {} pattern {} pivots {:?}", n, pat, d);
                        let mut mg = LDLTMgr::new(n);
                        for s in [1.0, 2f64.powi(-70), 2f64.powi(90)] {
                            check_pd(c, &mut mg, &m, n, s, true);
                            if c.stopped() {
                                return;
                            }
                        }
                        if v != 0 {
                            let a = to_f(&m, 1.0);
                            let mut r = LDLTMgr::new(n);
                            let got = r.factor_with_allow_semidefinite(|i, j| a[i * n + j]);
                            c.transitions += 1;
                            ensure!(c, got == (bad == n) && r.is_spd() == got, "relaxed verdict {} for pivots {:?} (pattern {})", got, d, pat);
                            if !got {
                                ensure!(c, r.pos == (0, bad + 1), "relaxed certificate block {:?}, first bad pivot {} of {:?}", r.pos, bad, d);
                                check_witness(c, &mut r, &a, n, true, &|| format!("relaxed, pattern {} pivots {:?}", pat, d));
                                if c.stopped() {
                                    return;
                                }
                            }
                        } else if after == 1 && pat == 0 {
                            // diagonal semidefinite: accepted
                            let a = to_f(&m, 1.0);
                            let mut r = LDLTMgr::new(n);
                            ensure!(c, r.factor_with_allow_semidefinite(|i, j| a[i * n + j]), "relaxed test refuses the diagonal semidefinite {:?}", d);
                        }
                    }
                }
            }
        }
        c.cur.clear();
    });
}

/// one manager used for a history of matrices answers as a fresh one does
fn reuse(c: &mut Ctx) {
    let mats: Vec<Vec<i64>> = vec![
        vec![2, 1, 0, 1, 2, 1, 0, 1, 2],
        vec![1, 0, 0, 0, 1, 0, 0, 0, 1],
        vec![-1, 0, 0, 0, 1, 0, 0, 0, 1],
        vec![1, 2, 0, 2, 1, 0, 0, 0, 3],
        vec![4, 1, 3, 1, 5, -2, 3, -2, 1],
        vec![0, 1, 2, 1, 3, 0, 2, 0, 1],
        vec![1, 1, 1, 1, 1, 1, 1, 1, 2],
        vec![3, 0, 0, 0, 0, 0, 0, 0, -1],
        vec![25, 15, -5, 15, 18, 0, -5, 0, 11],
        vec![0, 15, -5, 15, 18, 0, -5, 0, 11],
    ];
    let ops = mats.len() * 2;
    let len = if c.thorough { 4 } else { 3 };
    c.bound(format!("every sequence of {} factorizations (strict/relaxed) over {} matrices of order 3 by one manager, against a fresh one", len, mats.len()));
    let n = 3;
    let run = |mg: &mut LDLTMgr, op: usize| -> (bool, Vec<u64>) {
        let m = &mats[op / 2];
        let ok = if op % 2 == 0 {
            mg.factor(|i, j| m[i * n + j] as f64)
        } else {
            mg.factor_with_allow_semidefinite(|i, j| m[i * n + j] as f64)
        };
        let mut out = vec![mg.pos.0 as u64, mg.pos.1 as u64];
        if ok && op % 2 == 0 {
            out.extend(mg.sqrt().data().iter().map(|v| v.to_bits()));
        } else if !ok {
            out.push(mg.witness().to_bits());
            let (s, e) = mg.pos;
            out.extend((s..e).map(|i| mg.wit[i].to_bits()));
            for q in &mats {
                let qa = arr2(&to_f(q, 1.0), n);
                out.push(mg.sym_quad(&qa).to_bits());
            }
        }
        (ok, out)
    };
    let fresh: Vec<(bool, Vec<u64>)> = (0..ops).map(|op| run(&mut LDLTMgr::new(n), op)).collect();
    for w in words(ops, len) {
        let mut mg = LDLTMgr::new(n);
        c.traces += 1;
        for (k, &op) in w.iter().enumerate() {
            let got = run(&mut mg, op);
            c.states += 1;
            c.transitions += 1;
            ensure!(
                c,
                got == fresh[op],
                "operation {} ({} factorization of {:?}) answers differently after the history {:?}: {:?} instead of {:?}",
                k,
                if op % 2 == 0 { "strict" } else { "relaxed" },
                mats[op / 2],
                &w[..k],
                got,
                fresh[op]
            );
        }
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug)]
struct Lmi {
    n: usize,
    f: Vec<Vec<i64>>,
    b: Option<Vec<i64>>,
    /// grid of the variables in units of 1/2
    grid: Vec<Vec<i64>>,
    hist: bool,
    /// F and B are multiplied by this power of two
    unit: f64,
    /// the variables are measured in this power of two (F is divided by it as well)
    xu: f64,
}

/// twice the matrix B - sum F x (or sum F x without B), x given in halves
fn lmi_at(l: &Lmi, x2: &[i64]) -> Vec<i64> {
    let mut m = vec![0i64; l.n * l.n];
    for k in 0..m.len() {
        let s: i64 = (0..x2.len()).map(|i| l.f[i][k] * x2[i]).sum();
        m[k] = match &l.b {
            Some(b) => 2 * b[k] - s,
            None => s,
        };
    }
    m
}

enum Or {
    Lazy(LMIOracle),
    Old(LMIOldOracle),
    Zero(LMI0Oracle),
}
impl Or {
    fn new(kind: u8, l: &Lmi) -> Or {
        let fs: Vec<Arr> = l.f.iter().map(|f| arr2(&to_f(f, l.unit / l.xu), l.n)).collect();
        match kind {
            0 => Or::Lazy(LMIOracle::new(fs, arr2(&to_f(l.b.as_ref().unwrap(), l.unit), l.n))),
            1 => Or::Old(LMIOldOracle::new(fs, arr2(&to_f(l.b.as_ref().unwrap(), l.unit), l.n))),
            _ => Or::Zero(LMI0Oracle::new(fs)),
        }
    }
    fn ask(&mut self, x: &[f64]) -> Option<(Vec<f64>, f64)> {
        let x = Arr::from(x.to_vec());
        match self {
            Or::Lazy(o) => o.assess_feas(&x).map(|(g, SingleCut(b))| (g.data().to_vec(), b)),
            Or::Old(o) => o.assess_feas(&x).map(|(g, SingleCut(b))| (g.data().to_vec(), b)),
            Or::Zero(o) => o.assess_feas(&x).map(|(g, b)| (g.data().to_vec(), b)),
        }
    }
}

fn check_lmi(c: &mut Ctx, l: &Lmi, kind: u8) {
    let n = l.n;
    let feas: Vec<bool> = l
        .grid
        .iter()
        .map(|y| {
            let m = lmi_at(l, y);
            // large orders: only the strictly feasible points are used as witnesses
            if n > 9 { first_bad(&m, n).is_none() } else { is_psd_i(&m, n) }
        })
        .collect();
    let mut o = Or::new(kind, l);
    let scale = l.f.iter().flatten().chain(l.b.iter().flatten()).fold(1i64, |a, v| a.max(v.abs())) as f64 * l.unit;
    let mut fresh: Vec<Option<(Vec<f64>, f64)>> = vec![];
    for x2 in &l.grid {
        let x: Vec<f64> = x2.iter().map(|&v| v as f64 / 2.0 * l.xu).collect();
        let m = lmi_at(l, x2);
        let bad = first_bad(&m, n);
        let sure = match bad {
            Some((k, false)) => exact_upto(&m, n, k),
            _ => true,
        };
        let d = || format!("oracle kind {} F = {:?} B = {:?} (times {:e}, variables in units of {:e}) at x = {:?}", kind, l.f, l.b, l.unit, l.xu, x);
        let r = o.ask(&x);
        c.states += 1;
        c.transitions += 1;
        if sure {
            ensure!(c, r.is_none() == bad.is_none(), "reported feasible: {}, matrix positive definite: {}: {}", r.is_none(), bad.is_none(), d());
        }
        if let Some((g, b)) = &r {
            let clear = matches!(bad, Some((_, true)));
            ensure!(c, g.len() == x.len() && g.iter().all(|v| v.is_finite()) && b.is_finite(), "malformed cut {:?} {}: {}", g, b, d());
            ensure!(c, if clear { *b > 0.0 } else { *b >= -1e-9 * scale }, "cut offset {} at an infeasible point: {}", b, d());
            // identity: the cut is -v'A(.)v for one fixed v whose leading structure is the failing block
            for (y2, fy) in l.grid.iter().zip(&feas) {
                c.transitions += 1;
                if !*fy {
                    continue;
                }
                let y: Vec<f64> = y2.iter().map(|&v| v as f64 / 2.0 * l.xu).collect();
                let val: f64 = g.iter().zip(y.iter().zip(&x)).map(|(g, (y, x))| g * (y - x)).sum::<f64>() + b;
                let mag = g.iter().map(|v| v.abs()).sum::<f64>() * 20.0 * l.xu + b.abs();
                ensure!(c, val <= 1e-9 * mag.max(scale), "the cut {:?} {} removes the feasible point {:?} by {}: {}", g, b, y, val, d());
            }
            // tightness: direction and offset of the certificate of the first failing block
            if let (Some((k, true)), true) = (bad, sure) {
                let v = ref_witness(&m, n, k);
                let s = if l.b.is_some() { 1.0 } else { -1.0 };
                let gr: Vec<f64> = l.f.iter().map(|f| s * quad(&to_f(f, l.unit / l.xu), &v)).collect();
                let br = -quad(&to_f(&m, 0.5 * l.unit), &v);
                // same hyperplane up to positive scale
                let t = b / br;
                let vs: f64 = v.iter().map(|x| x.abs()).sum();
                let ok = t > 0.0 && g.iter().zip(&gr).all(|(a, r)| (a - t * r).abs() <= 1e-8 * t * vs * vs * scale / l.xu);
                ensure!(c, ok, "cut {:?} {} is not a multiple of the certificate's {:?} {}: {}", g, b, gr, br, d());
            }
        }
        fresh.push(r);
    }
    c.traces += 1;
    if l.hist {
        // every ordered pair and triple of queries: the answer depends on the query only
        let k = l.grid.len();
        for a in 0..k {
            for b in 0..k {
                let mut o = Or::new(kind, l);
                for &q in &[a, b, a] {
                    let x: Vec<f64> = l.grid[q].iter().map(|&v| v as f64 / 2.0 * l.xu).collect();
                    let r = o.ask(&x);
                    c.transitions += 1;
                    ensure!(c, r == fresh[q], "answer at {:?} depends on earlier queries: {:?} instead of {:?} (kind {} F {:?} B {:?})", x, r, fresh[q], kind, l.f, l.b);
                }
                c.traces += 1;
            }
        }
    }
    c.sample(|| format!("kind {} F {:?} B {:?} grid of {} points", kind, l.f, l.b, l.grid.len()));
}
/// v with v_k = 1 and (A v)_i = 0 for i < k (k counted from 1), A integer with positive leading minors before k
fn ref_witness(m: &[i64], n: usize, k: usize) -> Vec<f64> {
    let q = k - 1;
    let mut v = vec![0.0; n];
    v[q] = 1.0;
    if q > 0 {
        // Cramer on the leading block
        let det = det_i(m, n, q) as f64;
        for j in 0..q {
            let mut t = vec![0i64; q * q];
            for r in 0..q {
                for s in 0..q {
                    t[r * q + s] = if s == j { -m[r * n + q] } else { m[r * n + s] };
                }
            }
            v[j] = det_i(&t, q, q) as f64 / det;
        }
    }
    v
}

fn grid2(n: usize, lo: i64, hi: i64, step: i64) -> Vec<Vec<i64>> {
    let vals: Vec<i64> = (lo..=hi).step_by(step as usize).collect();
    words(vals.len(), n).into_iter().map(|w| w.into_iter().map(|i| vals[i]).collect()).collect()
}

pub fn c15(c: &mut Ctx) {
    let th = c.thorough;
    let mut items: Vec<(Lmi, u8)> = vec![];
    // order 2, two variables: every pair of coefficient matrices over {-1,0,1}
    let al: Vec<i64> = vec![-1, 0, 1];
    let mut m2 = vec![];
    odometer(&radix(2, 3, 3), |d| {
        m2.push(sym_from(2, &al, &al, d));
        true
    });
    let bs = vec![vec![1, 0, 0, 1], vec![2, 1, 1, 3], vec![1, 2, 2, 1], vec![0, 0, 0, 2], vec![-1, 0, 0, 1]];
    let g = if c.deep { grid2(2, -12, 12, 1) } else if th { grid2(2, -6, 6, 1) } else { grid2(2, -4, 4, 2) };
    for f1 in &m2 {
        for f2 in &m2 {
            for b in &bs {
                let l = Lmi { n: 2, f: vec![f1.clone(), f2.clone()], b: Some(b.clone()), grid: g.clone(), hist: false, unit: 1.0, xu: 1.0 };
                items.push((l.clone(), 0));
                items.push((l, 1));
            }
            let l = Lmi { n: 2, f: vec![f1.clone(), f2.clone()], b: None, grid: g.clone(), hist: false, unit: 1.0, xu: 1.0 };
            items.push((l, 2));
        }
    }
    c.bound(format!("order 2: all {} pairs of coefficient matrices over -1..1 x 5 constant matrices x {} grid points x 3 oracles", m2.len() * m2.len(), g.len()));
    // order 3, 1..3 variables, fixed family
    let fam: Vec<Vec<i64>> = vec![
        vec![-7, -11, 0, -11, 3, 0, 0, 0, 1],
        vec![7, -18, 8, -18, 0, 3, 8, 3, -4],
        vec![1, 0, 0, 0, 1, 0, 0, 0, 1],
        vec![2, 1, 0, 1, -1, 1, 0, 1, 1],
        vec![0, 0, 1, 0, 0, 0, 1, 0, 0],
        vec![-2, 0, 1, 0, -3, 0, 1, 0, 1],
        vec![0, 1, 0, 1, 0, 0, 0, 0, 2],
        vec![1, 1, 1, 1, 1, 1, 1, 1, 1],
    ];
    let bf: Vec<Vec<i64>> = vec![
        vec![33, -9, 0, -9, 26, 5, 0, 5, 9],
        vec![14, 9, 40, 9, 91, 10, 40, 10, 15],
        vec![1, 0, 0, 0, 1, 0, 0, 0, 1],
        vec![4, 1, 0, 1, 4, 1, 0, 1, 4],
        vec![0, 1, 0, 1, 3, 0, 0, 0, 1],
    ];
    let nf = fam.len();
    for nv in 1..=3usize {
        let g = match nv {
            1 => grid2(1, -12, 12, 1),
            2 if c.deep => grid2(2, -16, 16, 1),
            3 if c.deep => grid2(3, -6, 6, 1),
            2 => grid2(2, -6, 6, if th { 1 } else { 2 }),
            _ => grid2(3, -4, 4, if th { 1 } else { 2 }),
        };
        let mut n_cfg = 0;
        for w in words(nf, nv) {
            if !th && nv == 3 && !(w[0] < w[1] && w[1] != w[2]) {
                continue;
            }
            n_cfg += 1;
            let fs: Vec<Vec<i64>> = w.iter().map(|&i| fam[i].clone()).collect();
            for b in &bf {
                let l = Lmi { n: 3, f: fs.clone(), b: Some(b.clone()), grid: g.clone(), hist: false, unit: 1.0, xu: 1.0 };
                items.push((l.clone(), 0));
                items.push((l, 1));
            }
            items.push((Lmi { n: 3, f: fs, b: None, grid: g.clone(), hist: false, unit: 1.0, xu: 1.0 }, 2));
        }
        c.bound(format!("order 3, {} variables: {} coefficient choices x {} constant matrices x {} grid points x 3 oracles", nv, n_cfg, bf.len(), g.len()));
    }
    // order 4 and 1 (diagonal and full), one and two variables
    let f4: Vec<Vec<i64>> = vec![
        vec![1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 2, 0, 0, 0, 0, -2],
        vec![2, 1, 0, 0, 1, 2, 1, 0, 0, 1, 2, 1, 0, 0, 1, 2],
        vec![0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 0, 1, 1, 0, 1, 0],
        vec![1, 1, 1, 1, 1, 2, 2, 2, 1, 2, 3, 3, 1, 2, 3, 4],
    ];
    let b4 = vec![vec![4, 1, 0, 0, 1, 4, 1, 0, 0, 1, 4, 1, 0, 0, 1, 4], vec![1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]];
    for a in &f4 {
        for e in &f4 {
            for b in &b4 {
                let l = Lmi { n: 4, f: vec![a.clone(), e.clone()], b: Some(b.clone()), grid: grid2(2, -6, 6, 1), hist: false, unit: 1.0, xu: 1.0 };
                items.push((l.clone(), 0));
                items.push((l, 1));
            }
            items.push((Lmi { n: 4, f: vec![a.clone(), e.clone()], b: None, grid: grid2(2, -6, 6, 1), hist: false, unit: 1.0, xu: 1.0 }, 2));
        }
    }
    for f in [-2i64, 1, 3] {
        for b in [-1i64, 0, 2] {
            let l = Lmi { n: 1, f: vec![vec![f]], b: Some(vec![b]), grid: grid2(1, -8, 8, 1), hist: true, unit: 1.0, xu: 1.0 };
            items.push((l.clone(), 0));
            items.push((l, 1));
        }
        items.push((Lmi { n: 1, f: vec![vec![f]], b: None, grid: grid2(1, -8, 8, 1), hist: true, unit: 1.0, xu: 1.0 }, 2));
    }
    // the same problems in other units
    for unit in [2f64.powi(-60), 2f64.powi(60), 2f64.powi(-200), 2f64.powi(200)] {
        for w in words(nf, 2) {
            for b in &bf {
                let l = Lmi { n: 3, f: vec![fam[w[0]].clone(), fam[w[1]].clone()], b: Some(b.clone()), grid: grid2(2, -6, 6, 3), hist: false, unit, xu: 1.0 };
                items.push((l.clone(), 0));
                items.push((l.clone(), 1));
                items.push((Lmi { b: None, ..l }, 2));
            }
        }
    }
    c.bound("order 3, 2 variables: all coefficient choices x constants with the data multiplied by 2^-200, 2^-60, 2^60, 2^200");
    for xu in [2f64.powi(-90), 2f64.powi(-40), 2f64.powi(40), 2f64.powi(90)] {
        for w in words(nf, 2) {
            for b in &bf {
                let l = Lmi { n: 3, f: vec![fam[w[0]].clone(), fam[w[1]].clone()], b: Some(b.clone()), grid: grid2(2, -6, 6, 3), hist: false, unit: 1.0, xu };
                items.push((l.clone(), 0));
                items.push((l.clone(), 1));
                items.push((Lmi { b: None, ..l }, 2));
            }
        }
    }
    c.bound("the same with the variables measured in units of 2^-90, 2^-40, 2^40, 2^90");
    // higher orders and more variables
    let ks: Vec<usize> = if c.deep { (5..=14).collect() } else if th { (5..=9).collect() } else { (5..=7).collect() };
    for &n in &ks {
        for pat in 1..5usize {
            let d: Vec<i64> = (0..n).map(|i| [1, 2, 4][i % 3]).collect();
            let b = ldl_int(n, pat, &d);
            let nv = if n % 2 == 0 { 3 } else { 4 };
            let fs: Vec<Vec<i64>> = (0..nv)
                .map(|k| {
                    let e: Vec<i64> = (0..n).map(|i| ((i + k) % nv == 0) as i64 * if k % 2 == 0 { 1 } else { -1 }).collect();
                    let mut m = ldl_int(n, (pat + k) % 3, &e);
                    if k == 1 {
                        m[1] += 1;
                        m[n] += 1;
                    }
                    m
                })
                .collect();
            let l = Lmi { n, f: fs, b: Some(b), grid: grid2(nv, -4, 4, 2), hist: false, unit: 1.0, xu: 1.0 };
            items.push((l.clone(), 0));
            items.push((l.clone(), 1));
            items.push((Lmi { b: None, ..l }, 2));
        }
    }
    c.bound(format!("orders {:?} with 3 or 4 variables: 4 structured families x full grid x 3 oracles", ks));
    let vs: Vec<usize> = if c.deep { (4..=13).collect() } else if th { (4..=10).collect() } else { vec![4, 5, 6, 7, 8] };
    for &nv in &vs {
        for (n, fams, cs) in [(3usize, &fam, &bf), (4, &f4, &b4)] {
            for sh in 0..2 {
                let fs: Vec<Vec<i64>> = (0..nv).map(|k| fams[(k + sh * 3) % fams.len()].clone()).collect();
                for b in cs.iter().take(2) {
                    let l = Lmi { n, f: fs.clone(), b: Some(b.clone()), grid: grid2(nv, -2, if nv > 8 { 0 } else { 2 }, 2), hist: false, unit: 1.0, xu: 1.0 };
                    items.push((l.clone(), 0));
                    items.push((l.clone(), 1));
                    items.push((Lmi { b: None, ..l }, 2));
                }
            }
        }
    }
    c.bound(format!("orders 3 and 4 with {:?} variables x full small grid x 3 oracles", vs));
    // every order and every number of variables of a wide range, on the coordinate axes
    let (om, vm) = if c.deep { (28, 66) } else if th { (20, 40) } else { (12, 20) };
    let axis_grid = |nv: usize, amps: &[i64]| -> Vec<Vec<i64>> {
        let mut g = vec![vec![0; nv], vec![1; nv], vec![-1; nv], (0..nv).map(|i| if i % 2 == 0 { 1 } else { -1 }).collect::<Vec<i64>>()];
        for k in 0..nv {
            for &a in amps {
                let mut x = vec![0; nv];
                x[k] = a;
                g.push(x.clone());
                x[(k + 1) % nv] -= 1;
                g.push(x);
            }
        }
        g
    };
    for n in 1..=om {
        for pat in [1usize, 3] {
            let d: Vec<i64> = vec![1; n];
            let b = ldl_int(n, pat, &d);
            let fs: Vec<Vec<i64>> = (0..2)
                .map(|k| {
                    let e: Vec<i64> = (0..n).map(|i| ((i + k) % 2 == 0) as i64 * if k == 0 { 1 } else { -1 }).collect();
                    ldl_int(n, if k == 0 { 0 } else { pat }, &e)
                })
                .collect();
            let l = Lmi { n, f: fs, b: Some(b), grid: axis_grid(2, &[-4, -2, -1, 1, 2, 4]), hist: false, unit: 1.0, xu: 1.0 };
            items.push((l.clone(), 0));
            items.push((l.clone(), 1));
            items.push((Lmi { b: None, ..l }, 2));
        }
    }
    c.bound(format!("every order 1..{} with 2 variables: 2 structured families x 28 points on and near the axes x 3 oracles", om));
    for nv in 1..=vm {
        for (n, fams, cs) in [(3usize, &fam, &bf), (4, &f4, &b4)] {
            let fs: Vec<Vec<i64>> = (0..nv).map(|k| fams[k % fams.len()].clone()).collect();
            let l = Lmi { n, f: fs, b: Some(cs[0].clone()), grid: axis_grid(nv, &[-4, -1, 2]), hist: false, unit: 1.0, xu: 1.0 };
            items.push((l.clone(), 0));
            items.push((l.clone(), 1));
            items.push((Lmi { b: None, ..l }, 2));
        }
    }
    c.bound(format!("every number of variables 1..{}: orders 3 and 4 x points on and near the axes x 3 oracles", vm));
    // histories
    for (a, e, b) in [(0, 1, 0), (1, 0, 1), (3, 4, 3), (5, 6, 2), (2, 7, 4)] {
        let l = Lmi { n: 3, f: vec![fam[a].clone(), fam[e].clone()], b: Some(bf[b].clone()), grid: grid2(2, -4, 4, 2), hist: true, unit: 1.0, xu: 1.0 };
        items.push((l.clone(), 0));
        items.push((l.clone(), 1));
        items.push((Lmi { b: None, ..l }, 2));
    }
    c.bound("query histories: every ordered pair a,b followed by a again on 5 order-3 and all order-1 problems");
    c.par(items, |c, (l, k)| check_lmi(c, l, *k));
}
