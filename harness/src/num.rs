//! C19..C21: array algebra, conjugate gradient, power iteration.
use crate::ensure;
use crate::linalg::*;
use crate::rt::*;
use ellalgo_rs::arr::{self, Arr};
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::power_iteration::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug, PartialEq)]
struct Ref {
    d: Vec<f64>,
    r: usize,
    c: usize, // 0: vector
}
impl Ref {
    fn arr(&self) -> Arr {
        if self.c == 0 {
            Arr::from(self.d.clone())
        } else {
            Arr::from_shape_vec(self.r, self.c, self.d.clone())
        }
    }
    fn map(&self, f: impl Fn(usize, f64) -> f64) -> Ref {
        Ref { d: self.d.iter().enumerate().map(|(i, v)| f(i, *v)).collect(), r: self.r, c: self.c }
    }
    fn same(&self, a: &Arr) -> bool {
        a.rows() == self.r
            && a.cols() == self.c
            && a.size() == self.d.len()
            && a.len() == self.d.len()
            && a.is_2d() == (self.c > 0)
            && a.is_empty() == self.d.is_empty()
            && a.data().len() == self.d.len()
            && a.data().iter().zip(&self.d).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 4.0 * f64::EPSILON * y.abs())
            && a.iter().zip(&self.d).all(|(x, y)| x == y || x.is_nan() || (x - y).abs() <= 4.0 * f64::EPSILON * y.abs())
    }
}

fn shapes() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for n in 0..=6 {
        v.push((n, 0));
    }
    for r in 1..=4 {
        for c in 1..=4 {
            v.push((r, c));
        }
    }
    for n in [7, 8, 9, 16, 17, 33, 65, 130] {
        v.push((n, 0));
    }
    v.extend([(5, 5), (6, 6), (7, 7), (8, 8), (9, 9), (17, 17), (1, 8), (8, 1), (5, 16), (16, 9), (33, 2), (2, 33), (2, 130), (130, 3), (65, 65)]);
    v
}
fn fill(r: usize, c: usize, k: usize) -> Ref {
    let n = if c == 0 { r } else { r * c };
    let d = (0..n).map(|i| [3.0, -1.0, 0.0, 7.0, -4.0, 2.0, 5.0][(i * (k + 1) + k) % 7] + (i / 7) as f64).collect();
    Ref { d, r, c }
}

const NOPS: usize = 26;
/// apply operation `op` with the second operand to both; None if it must be refused
fn apply(op: usize, a: &Arr, ra: &Ref, o: &Arr, ro: &Ref) -> Option<(Arr, Ref)> {
    let s = [2.0, -0.5, 4.0, 0.25][op % 4];
    let z = |f: fn(f64, f64) -> f64| -> Ref { ra.map(|i, v| f(v, ro.d[i])) };
    Some(match op {
        0 => { let mut x = a.clone(); x += s; (x, ra.map(|_, v| v + s)) }
        1 => { let mut x = a.clone(); x -= s; (x, ra.map(|_, v| v - s)) }
        2 => { let mut x = a.clone(); x *= s; (x, ra.map(|_, v| v * s)) }
        3 => { let mut x = a.clone(); x /= s; (x, ra.map(|_, v| v / s)) }
        4 => { let mut x = a.clone(); x += o; (x, z(|p, q| p + q)) }
        5 => { let mut x = a.clone(); x -= o; (x, z(|p, q| p - q)) }
        6 => (a.clone() + o, z(|p, q| p + q)),
        7 => (a.clone() - o, z(|p, q| p - q)),
        8 => (a.clone() * o, z(|p, q| p * q)),
        9 => (a + o, z(|p, q| p + q)),
        10 => (a - o, z(|p, q| p - q)),
        11 => (a * o, z(|p, q| p * q)),
        12 => (a * s, ra.map(|_, v| v * s)),
        13 => (a.clone() * s, ra.map(|_, v| v * s)),
        14 => (s * a, ra.map(|_, v| v * s)),
        15 => (s * a.clone(), ra.map(|_, v| v * s)),
        16 => (a / s, ra.map(|_, v| v / s)),
        17 => (a.clone() / s, ra.map(|_, v| v / s)),
        18 => (-a, ra.map(|_, v| -v)),
        19 => (-a.clone(), ra.map(|_, v| -v)),
        20 => (a.map(|v| v * v - 1.0), ra.map(|_, v| v * v - 1.0)),
        21 => { let mut x = a.clone(); x.copy_from(o); (x, z(|_, q| q)) }
        22 => (arr::abs(a), ra.map(|_, v| v.abs())),
        23 => { let mut x = a.clone(); for (i, v) in x.iter_mut().enumerate() { *v += i as f64; } (x, ra.map(|i, v| v + i as f64)) }
        24 => { let mut x = a.clone(); for (i, v) in x.data_mut().iter_mut().enumerate() { *v -= 2.0 * i as f64; } (x, ra.map(|i, v| v - 2.0 * i as f64)) }
        25 => { let mut x = arr::make_same_shape(a); x += o; (x, z(|_, q| q)) }
        _ => return None,
    })
}
fn binary(op: usize) -> bool {
    matches!(op, 4..=11 | 21 | 25)
}

pub fn c19(c: &mut Ctx) {
    let th = c.thorough;
    let len = if c.deep { 6 } else if th { 5 } else { 4 };
    c.bound(format!("every sequence of up to {} of {} element-wise operations on vectors (length 0..6) and matrices (1..4 x 1..4), shorter words on arrays up to 65 x 65 and length 130, against a plain reference; operand shapes mismatched in every way must be refused", len, NOPS));
    let items: Vec<((usize, usize), usize)> = shapes().into_iter().flat_map(|s| (0..NOPS).map(move |o| (s, o))).collect();
    c.par(items, |c, &((r, cc), first)| {
        for (e0, e1) in [(0, 0), (-70, 0), (60, -60), (-200, -200), (200, 200)] {
        if (e0, e1) != (0, 0) && first > 21 {
            continue;
        }
        let other = fill(r, cc, 3).map(|_, v| v * 2f64.powi(e1));
        let oa = other.arr();
        let start = fill(r, cc, 0).map(|_, v| v * 2f64.powi(e0));
        // depth-first over operation words
        fn go(c: &mut Ctx, a: &Arr, ra: &Ref, oa: &Arr, or: &Ref, left: usize, path: &mut Vec<usize>, first: Option<usize>) {
            for op in 0..NOPS {
                if c.stopped() {
                    return;
                }
                if let Some(f) = first {
                    if op != f {
                        continue;
                    }
                }
                path.push(op);
                let keep = (a.clone(), oa.clone());
                if let Some((x, rx)) = apply(op, a, ra, oa, or) {
                    c.states += 1;
                    c.transitions += 1;
                    ensure!(c, rx.same(&x), "after operations {:?} on {:?} with {:?}: got {:?} ({} x {}), expected {:?}", path, fill(ra.r, ra.c, 0), or, x.data(), x.rows(), x.cols(), rx);
                    ensure!(c, keep.0 == *a && keep.1 == *oa, "operation {} changed its operand", op);
                    if left > 1 {
                        go(c, &x, &rx, oa, or, left - 1, path, None);
                    } else {
                        c.traces += 1;
                    }
                }
                path.pop();
            }
        }
        let mut path = vec![];
        let depth = if c.deep { 6 } else if c.thorough { 5 } else { 4 };
        let depth = if (e0, e1) != (0, 0) { 1 } else { depth };
        let depth = if start.d.len() > 20 { 1 } else if start.d.len() > 6 { depth - 1 } else { depth };
        go(c, &start.arr(), &start, &oa, &other, depth, &mut path, Some(first));
        }
        c.sample(|| format!("shape {} x {} operation words starting with {}", r, cc, first));
    });
    if c.stopped() {
        return;
    }
    // shape errors are refused
    for (r, cc) in shapes() {
        for (r2, c2) in shapes() {
            let (a, b) = (fill(r, cc, 0), fill(r2, c2, 1));
            let (aa, ba) = (a.arr(), b.arr());
            if a.d.len() != b.d.len() {
                for op in (0..NOPS).filter(|o| binary(*o)) {
                    let res = catch_unwind(AssertUnwindSafe(|| match op {
                        4 => { let mut x = aa.clone(); x += &ba; x }
                        5 => { let mut x = aa.clone(); x -= &ba; x }
                        6 => aa.clone() + &ba,
                        7 => aa.clone() - &ba,
                        8 => aa.clone() * &ba,
                        9 => &aa + &ba,
                        10 => &aa - &ba,
                        11 => &aa * &ba,
                        21 => { let mut x = aa.clone(); x.copy_from(&ba); x }
                        _ => { let mut x = arr::make_same_shape(&aa); x += &ba; x }
                    }));
                    c.transitions += 1;
                    ensure!(c, res.is_err(), "operation {} on sizes {} and {} was not refused: {:?}", op, a.d.len(), b.d.len(), res.map(|x| x.data().to_vec()));
                }
            }
            c.states += 1;
            ensure!(c, (aa == ba) == (r == r2 && cc == c2 && a.d == b.d), "equality of {:?} and {:?} is {}", a, b, aa == ba);
            let a3 = fill(r, cc, 0);
            if r == r2 && cc == c2 {
                ensure!(c, a3.arr() == aa, "an array differs from its equal copy: {:?}", a);
                for i in 0..a.d.len() {
                    let mut y = a3.clone();
                    y.d[i] += 0.5;
                    ensure!(c, y.arr() != aa, "arrays differing at {} compare equal: {:?}", i, a);
                }
            }
            // products
            let vec_a = cc == 0;
            let vec_b = c2 == 0;
            if vec_a && vec_b {
                if r == r2 {
                    let want: f64 = a.d.iter().zip(&b.d).map(|(x, y)| x * y).sum();
                    ensure!(c, aa.dot(&ba) == want, "dot of {:?} and {:?} is {}, expected {}", a.d, b.d, aa.dot(&ba), want);
                } else {
                    ensure!(c, catch_unwind(AssertUnwindSafe(|| aa.dot(&ba))).is_err(), "dot of lengths {} and {} was not refused", r, r2);
                }
                if r > 0 && r2 > 0 {
                    let o = aa.outer(&ba);
                    let mut want = Ref { d: vec![], r, c: r2 };
                    for i in 0..r {
                        for j in 0..r2 {
                            want.d.push(a.d[i] * b.d[j]);
                        }
                    }
                    ensure!(c, want.same(&o), "outer product of {:?} and {:?} is {:?}", a.d, b.d, o.data());
                }
            }
            if !vec_a && vec_b && r2 > 0 {
                if cc == r2 {
                    let y = aa.dot_mv(&ba);
                    let want = Ref { d: mv(&a.d, &b.d), r, c: 0 };
                    ensure!(c, want.same(&y), "matrix {:?} times {:?} is {:?}, expected {:?}", a, b.d, y.data(), want.d);
                } else {
                    ensure!(c, catch_unwind(AssertUnwindSafe(|| aa.dot_mv(&ba))).is_err(), "product of {} columns and length {} was not refused", cc, r2);
                }
                if r == cc && r == r2 {
                    // symmetric matrix, rank-one update
                    let mut s = a.clone();
                    for i in 0..r {
                        for j in 0..i {
                            s.d[j * r + i] = s.d[i * r + j];
                        }
                    }
                    for al in [1.0, -0.5, 2.0, 0.0] {
                        let mut m = s.arr();
                        m.rank_one_update(al, &ba);
                        let mut w = s.clone();
                        for i in 0..r {
                            for j in 0..r {
                                w.d[i * r + j] += al * b.d[i] * b.d[j];
                            }
                        }
                        c.transitions += 1;
                        ensure!(c, w.same(&m), "rank-one update of {:?} by {} x {:?} gives {:?}, expected {:?}", s.d, al, b.d, m.data(), w.d);
                    }
                }
            }
        }
    }
    // construction and access
    for (r, cc) in shapes() {
        let a = fill(r, cc, 2);
        let x = a.arr();
        ensure!(c, a.same(&x), "construction of {:?} gives {:?}", a, x.data());
        ensure!(c, x.sum() == a.d.iter().sum::<f64>(), "sum of {:?} is {}", a.d, x.sum());
        for i in 0..a.d.len() {
            ensure!(c, x[i] == a.d[i], "element {} of {:?} is {}", i, a, x[i]);
        }
        if cc == 0 {
            ensure!(c, a.same(&<Arr as From<&[f64]>>::from(&a.d[..])) && a.same(&Arr::from_fn(r, |i| a.d[i])), "vector constructors disagree on {:?}", a.d);
            let z = Ref { d: vec![0.0; r], r, c: 0 };
            let o = Ref { d: vec![1.0; r], r, c: 0 };
            ensure!(c, z.same(&Arr::new(r)) && o.same(&Arr::ones(r)), "constant vectors of length {}", r);
            if r > 0 {
                let dg = Arr::from_diag(&x);
                let ey = Arr::eye(r);
                for i in 0..r {
                    for j in 0..r {
                        let (d, e) = if i == j { (a.d[i], 1.0) } else { (0.0, 0.0) };
                        ensure!(c, dg.at(i, j) == d && ey.at(i, j) == e && dg.rows() == r && dg.cols() == r, "diagonal matrix of {:?} has {} at ({}, {})", a.d, dg.at(i, j), i, j);
                    }
                }
            }
        } else {
            ensure!(c, a.same(&Arr::with_data(a.d.clone(), r, cc)), "matrix constructors disagree on {:?}", a);
            let z = Ref { d: vec![0.0; r * cc], r, c: cc };
            let f = Ref { d: vec![-2.5; r * cc], r, c: cc };
            ensure!(c, z.same(&Arr::zeros(r, cc)) && f.same(&Arr::full(r, cc, -2.5)), "constant matrices of shape {} x {}", r, cc);
            for i in 0..r {
                let row = Ref { d: a.d[i * cc..(i + 1) * cc].to_vec(), r: cc, c: 0 };
                ensure!(c, row.same(&x.row(i)), "row {} of {:?} is {:?}", i, a, x.row(i).data());
                for j in 0..cc {
                    let w = a.d[i * cc + j];
                    ensure!(c, x.at(i, j) == w && x.get(i, j) == w && x[(i, j)] == w, "element ({}, {}) of {:?}", i, j, a);
                    for way in 0..3 {
                        let mut y = x.clone();
                        match way {
                            0 => y.set(i, j, 99.0),
                            1 => *y.at_mut(i, j) = 99.0,
                            _ => y[(i, j)] = 99.0,
                        }
                        let mut ry = a.clone();
                        ry.d[i * cc + j] = 99.0;
                        c.transitions += 1;
                        ensure!(c, ry.same(&y), "writing element ({}, {}) of {:?} gives {:?}", i, j, a, y.data());
                    }
                }
            }
            ensure!(c, catch_unwind(AssertUnwindSafe(|| x.row(r))).is_err(), "row {} of a matrix with {} rows was not refused", r, r);
            ensure!(c, catch_unwind(AssertUnwindSafe(|| Arr::from_shape_vec(r, cc, vec![0.0; r * cc + 1]))).is_err(), "data of the wrong length accepted for {} x {}", r, cc);
            ensure!(c, catch_unwind(AssertUnwindSafe(|| Arr::with_data(vec![0.0; r * cc - 1], r, cc))).is_err(), "data of the wrong length accepted for {} x {}", r, cc);
        }
        let pos = a.map(|i, v| v.abs() + 0.25 * (i + 1) as f64);
        let p = pos.arr();
        ensure!(c, pos.map(|_, v| v.cos()).same(&arr::cos(&p)) && pos.map(|_, v| v.ln()).same(&arr::ln(&p)) && pos.map(|_, v| v.exp()).same(&arr::exp(&p)) && pos.map(|_, v| v.sqrt()).same(&arr::sqrt(&p)), "element-wise functions of {:?}", pos);
        let z = a.map(|_, _| 0.0);
        ensure!(c, z.same(&arr::make_same_shape(&x)), "blank array of the shape of {:?}", a);
        c.states += 1;
        c.traces += 1;
    }
    arr_sizes(c);
    if c.stopped() {
        return;
    }
    arr_values(c);
    if c.stopped() {
        return;
    }
    // ranges
    for n in 0..=(if th { 1100usize } else { 300 }) {
        for (s, e) in [(0.0, 1.0), (0.0, std::f64::consts::PI), (-3.0, 5.0), (2.0, 2.0), (7.0, -1.0), (1e6, 2e6)] {
            let l = arr::linspace(s, e, n);
            c.transitions += 1;
            ensure!(c, l.len() == n, "linspace({}, {}, {}) has length {}", s, e, n, l.len());
            for i in 0..n {
                let w = if n == 1 { s } else { s + (e - s) * i as f64 / (n - 1) as f64 };
                ensure!(c, (l[i] - w).abs() <= 1e-13 * (s.abs() + e.abs() + (e - s).abs()).max(1e-300), "linspace({}, {}, {})[{}] = {}, expected {}", s, e, n, i, l[i], w);
            }
        }
        for s in [-7.0, 0.0, 3.0, 1000.0] {
            let l = arr::arange(s, s + n as f64);
            ensure!(c, l.len() == n && (0..n).all(|i| l[i] == s + i as f64), "arange({}, {}) = {:?}", s, s + n as f64, l.data());
            ensure!(c, arr::arange(s, s - n as f64).is_empty(), "descending arange is not empty");
        }
    }
}

/// every size, one operation each
fn arr_sizes(c: &mut Ctx) {
    let top = if c.deep { 1100 } else if c.thorough { 530 } else { 260 };
    let side = if c.deep { 70 } else if c.thorough { 40 } else { 26 };
    c.bound(format!("every vector length 0..{} and every matrix shape to {} x {}: each operation once, products, sums, rows, equality with a single element changed at either end or in the middle", top, side, side));
    let mut items: Vec<(usize, usize)> = (0..=top).map(|n| (n, 0)).collect();
    for r in 1..=side {
        for k in 1..=side {
            items.push((r, k));
        }
    }
    c.par(items, |c, &(r, cc)| {
        let a = fill(r, cc, 0);
        let b = fill(r, cc, 3);
        let (aa, ba) = (a.arr(), b.arr());
        for op in 0..NOPS {
            if let Some((x, rx)) = apply(op, &aa, &a, &ba, &b) {
                c.states += 1;
                c.transitions += 1;
                ensure!(c, rx.same(&x), "operation {} on {:?} and {:?} gives {:?} ({} x {})", op, a, b, x.data(), x.rows(), x.cols());
            }
        }
        ensure!(c, a.same(&aa) && b.same(&ba), "an operation changed its operand of shape {} x {}", r, cc);
        ensure!(c, aa.sum() == a.d.iter().sum::<f64>() && aa.len() == a.d.len() && aa.is_empty() == a.d.is_empty() && aa.is_2d() == (cc > 0), "sum or size of {:?}", a);
        let n = a.d.len();
        if n > 0 {
            for i in [0, n / 2, n - 1] {
                let mut y = a.clone();
                y.d[i] += 0.5;
                ensure!(c, y.arr() != aa && aa == aa.clone(), "arrays differing at {} of {} compare equal", i, n);
            }
        }
        if cc == 0 {
            let want: f64 = a.d.iter().zip(&b.d).map(|(x, y)| x * y).sum();
            ensure!(c, aa.dot(&ba) == want, "dot of length {} is {}, expected {}", r, aa.dot(&ba), want);
            // each coordinate alone
            for i in 0..r {
                let mut e = vec![0.0; r];
                e[i] = 2.0;
                let e = Arr::from(e);
                ensure!(c, aa.dot(&e) == 2.0 * a.d[i] && e.dot(&aa) == 2.0 * a.d[i], "dot of length {} misses coordinate {}", r, i);
                c.transitions += 2;
            }
            for d in [1usize, 2, 7] {
                if r >= d {
                    let short = Arr::from(vec![1.0; r - d]);
                    ensure!(c, catch_unwind(AssertUnwindSafe(|| aa.dot(&short))).is_err() && catch_unwind(AssertUnwindSafe(|| short.dot(&aa))).is_err(), "dot of lengths {} and {} was not refused", r, r - d);
                    ensure!(c, catch_unwind(AssertUnwindSafe(|| &aa + &short)).is_err() && catch_unwind(AssertUnwindSafe(|| &short * &aa)).is_err(), "operation on lengths {} and {} was not refused", r, r - d);
                }
            }
            if r > 0 && r <= 70 {
                let m = aa.outer(&ba);
                let w = Ref { d: a.d.iter().flat_map(|x| b.d.iter().map(move |y| x * y)).collect(), r, c: r };
                ensure!(c, w.same(&m), "outer product of length {}", r);
            }
        } else {
            let v = fill(cc, 0, 5);
            let y = aa.dot_mv(&v.arr());
            let w = Ref { d: (0..r).map(|i| (0..cc).map(|j| a.d[i * cc + j] * v.d[j]).sum()).collect(), r, c: 0 };
            ensure!(c, w.same(&y), "product of a {} x {} matrix is {:?}, expected {:?}", r, cc, y.data(), w.d);
            for i in 0..r {
                ensure!(c, aa.row(i).data() == &a.d[i * cc..(i + 1) * cc], "row {} of a {} x {} matrix", i, r, cc);
            }
            if r == cc {
                let mut s = a.clone();
                for i in 0..r {
                    for j in 0..i {
                        s.d[j * r + i] = s.d[i * r + j];
                    }
                }
                for al in [1.0, -0.5, 3.0] {
                    let mut m = s.arr();
                    m.rank_one_update(al, &v.arr());
                    let mut w = s.clone();
                    for i in 0..r {
                        for j in 0..r {
                            w.d[i * r + j] += al * v.d[i] * v.d[j];
                        }
                    }
                    ensure!(c, w.same(&m), "rank-one update of order {} by {}", r, al);
                }
                let ey = Arr::eye(r);
                let dg = Arr::from_diag(&v.arr());
                let want_e: Vec<f64> = (0..r * r).map(|k| (k % (r + 1) == 0) as u8 as f64).collect();
                let want_d: Vec<f64> = (0..r * r).map(|k| if k % (r + 1) == 0 { v.d[k / (r + 1)] } else { 0.0 }).collect();
                ensure!(c, ey.data() == &want_e[..] && dg.data() == &want_d[..], "unit or diagonal matrix of order {}", r);
            }
        }
        c.traces += 1;
    });
}

/// every pair of special values at every position of short arrays, every scalar
fn arr_values(c: &mut Ctx) {
    let vals = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -3.0, 10.0, 1e-9, -1e-9, 1e-300, 1e300, -1e300, 1e16, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::EPSILON, 0.1, 1e6, -1e6, 1e-20];
    c.bound(format!("{} special values pairwise at every position of vectors of length 1 to 5: all binary, scalar and in-place operations, unary functions", vals.len()));
    let items: Vec<(f64, f64)> = vals.iter().flat_map(|x| vals.iter().map(move |y| (*x, *y))).collect();
    let eq = |p: f64, q: f64| p == q || (p.is_nan() && q.is_nan()) || (p - q).abs() <= 4.0 * f64::EPSILON * q.abs();
    c.par(items, |c, &(p, q)| {
        for n in 1..=5usize {
            for at in 0..n {
                let mut a = vec![1.5; n];
                let mut b = vec![-2.0; n];
                a[at] = p;
                b[at] = q;
                let (x, y) = (Arr::from(a.clone()), Arr::from(b.clone()));
                let inp = |f: &dyn Fn(&mut Arr)| {
                    let mut t = x.clone();
                    f(&mut t);
                    t
                };
                let res: Vec<(&str, Arr, Vec<f64>)> = vec![
                    ("a+b", &x + &y, (0..n).map(|i| a[i] + b[i]).collect()),
                    ("a-b", &x - &y, (0..n).map(|i| a[i] - b[i]).collect()),
                    ("a*b", &x * &y, (0..n).map(|i| a[i] * b[i]).collect()),
                    ("owned a+b", x.clone() + &y, (0..n).map(|i| a[i] + b[i]).collect()),
                    ("owned a-b", x.clone() - &y, (0..n).map(|i| a[i] - b[i]).collect()),
                    ("owned a*b", x.clone() * &y, (0..n).map(|i| a[i] * b[i]).collect()),
                    ("a+=b", inp(&|t| *t += &y), (0..n).map(|i| a[i] + b[i]).collect()),
                    ("a-=b", inp(&|t| *t -= &y), (0..n).map(|i| a[i] - b[i]).collect()),
                    ("a+=s", inp(&|t| *t += q), a.iter().map(|v| v + q).collect()),
                    ("a-=s", inp(&|t| *t -= q), a.iter().map(|v| v - q).collect()),
                    ("a*=s", inp(&|t| *t *= q), a.iter().map(|v| v * q).collect()),
                    ("a*s", &x * q, a.iter().map(|v| v * q).collect()),
                    ("owned a*s", x.clone() * q, a.iter().map(|v| v * q).collect()),
                    ("s*a", q * &x, a.iter().map(|v| v * q).collect()),
                    ("s*owned a", q * x.clone(), a.iter().map(|v| v * q).collect()),
                    ("-a", -&x, a.iter().map(|v| -v).collect()),
                    ("-owned a", -x.clone(), a.iter().map(|v| -v).collect()),
                    ("abs", arr::abs(&x), a.iter().map(|v| v.abs()).collect()),
                    ("exp", arr::exp(&x), a.iter().map(|v| v.exp()).collect()),
                    ("sqrt", arr::sqrt(&x), a.iter().map(|v| v.sqrt()).collect()),
                    ("ln", arr::ln(&x), a.iter().map(|v| v.ln()).collect()),
                ];
                c.states += 1;
                for (nm, got, want) in &res {
                    c.transitions += 1;
                    ensure!(c, got.len() == n && (0..n).all(|i| eq(got[i], want[i])), "{} for a = {:?}, b = {:?}, s = {}: {:?}, expected {:?}", nm, a, b, q, got.data(), want);
                }
                // division may be done by a reciprocal: compare where neither over- nor underflows
                if (1e-100..1e100).contains(&q.abs()) {
                    let div = [&x / q, x.clone() / q, inp(&|t| *t /= q)];
                    for got in &div {
                        c.transitions += 1;
                        ensure!(c, (0..n).all(|i| { let w = a[i] / q; eq(got[i], w) || (w.abs() < 1e-300 && (got[i] - w).abs() < 1e-305) || (w.abs() > 1e300 && got[i].abs() > 1e300) }), "a/s for a = {:?}, s = {}: {:?}", a, q, got.data());
                    }
                }
                if p.abs() < 1e100 && q.abs() < 1e100 {
                    let w = p * q - 3.0 * (n as f64 - 1.0);
                    ensure!(c, (x.dot(&y) - w).abs() <= 1e-14 * (w.abs() + (p * q).abs() + 30.0), "dot of {:?} and {:?} is {}", a, b, x.dot(&y));
                    if n == 1 {
                        ensure!(c, eq(x.dot(&y), p * q) && eq(x.sum(), p), "dot or sum of {:?} and {:?}", a, b);
                    }
                }
                ensure!(c, (x == y) == (a == b), "equality of {:?} and {:?}", a, b);
            }
        }
        c.traces += 1;
    });
}

// ------------------------------------------------------------------ C20

pub fn c20(c: &mut Ctx) {
    let th = c.thorough;
    let mut plans: Vec<(usize, Vec<i64>, Vec<i64>)> = vec![
        (1, (1..=9).collect(), vec![0]),
        (2, (1..=6).collect(), (-3..=3).collect()),
        (3, vec![2, 3, 5], vec![-1, 0, 1]),
        (4, vec![3, 7], vec![0, 1]),
    ];
    if th {
        plans = vec![
            (1, (1..=40).collect(), vec![0]),
            (2, (1..=9).collect(), (-6..=6).collect()),
            (3, vec![1, 2, 3, 5], vec![-2, -1, 0, 1]),
            (4, vec![3, 7], vec![-1, 0, 1]),
            (5, vec![4], vec![0, 1]),
        ];
    }
    if c.deep {
        plans[1] = (2, (1..=30).collect(), (-20..=20).collect());
        plans[2] = (3, vec![1, 2, 3, 5, 8], vec![-3, -2, -1, 0, 1, 2]);
        plans[3] = (4, vec![3, 7, 9], vec![-1, 0, 1]);
        plans[4] = (5, vec![4, 6], vec![0, 1]);
    }
    c.bound(format!("every positive definite integer matrix (order, diagonal, off-diagonal) in {:?} x right-hand sides x initial guesses (none, zero, off, exact) x tolerances x iteration limits 0..n+2 and 200", plans));
    let mut items = vec![];
    for (n, dg, off) in plans {
        let mut rad = vec![];
        for i in 0..n {
            for j in 0..=i {
                rad.push(if i == j { dg.len() } else { off.len() });
            }
        }
        odometer(&rad, |d| {
            let mut m = vec![0i64; n * n];
            let mut p = 0;
            for i in 0..n {
                for j in 0..=i {
                    let v = if i == j { dg[d[p]] } else { off[d[p]] };
                    m[i * n + j] = v;
                    m[j * n + i] = v;
                    p += 1;
                }
            }
            if is_pd_i(&m, n) {
                items.push((n, m));
            }
            true
        });
    }
    // larger orders: banded and dense families
    let big: Vec<usize> = if c.deep { (5..=48).collect() } else if th { (5..=24).chain([33]).collect() } else { vec![5, 6, 7, 8, 9, 12, 16] };
    for &n in &big {
        for fam in 0..4usize {
            let mut m = vec![0i64; n * n];
            for i in 0..n {
                for j in 0..n {
                    let d = i.abs_diff(j);
                    m[i * n + j] = match fam {
                        0 => [4, -1][d.min(1)] * (d < 2) as i64,
                        1 => if d == 0 { n as i64 + 2 + (i % 3) as i64 } else { 1 },
                        2 => if d == 0 { 1 + i as i64 } else { 0 },
                        _ => [6, 1, -1][d.min(2)] * (d < 3) as i64,
                    };
                }
            }
            items.push((n, m));
        }
    }
    c.bound(format!("banded, dense and diagonal families of orders {:?}; every problem also with A multiplied by 2^-60, 2^60 and b by 2^-50, 2^50", big));
    let mut all = vec![];
    for (n, m) in items {
        all.push((n, m.clone(), 1.0, 1.0));
        for (u, w) in [(2f64.powi(-60), 1.0), (2f64.powi(60), 1.0), (1.0, 2f64.powi(-50)), (2f64.powi(20), 2f64.powi(50))] {
            all.push((n, m.clone(), u, w));
        }
    }
    c.par(all, |c, (n, m, au, bu)| {
        let (n, au, bu) = (*n, *au, *bu);
        let a: Vec<f64> = m.iter().map(|v| *v as f64 * au).collect();
        let aa = Arr::from_shape_vec(n, n, a.clone());
        let mut bs: Vec<Vec<f64>> = vec![
            vec![0.0; n],
            (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect(),
            (0..n).map(|i| i as f64 - 1.0).collect(),
            (0..n).map(|i| 4.0 - 3.0 * i as f64).collect(),
            (0..n).map(|i| 1000.0 * ((i * i) as f64 - 0.5)).collect(),
        ];
        if c.thorough {
            bs.push((0..n).map(|i| 1e-3 * (i as f64 + 1.0)).collect());
        }
        for b in &bs {
            let b = &b.iter().map(|v| v * bu).collect::<Vec<_>>();
            let ba = Arr::from(b.clone());
            let exact = solve_spd(&a, n, b);
            let starts: Vec<Option<Vec<f64>>> = vec![None, Some(vec![0.0; n]), Some((0..n).map(|i| (2.0 - i as f64) * bu / au).collect()), Some(exact.clone())];
            for st in &starts {
                let sa = st.as_ref().map(|v| Arr::from(v.clone()));
                for tol in [1e-3, 1e-8] {
                    let scale = bu + norm(b);
                    let tol = tol * scale;
                    let res = |x: &Arr| -> f64 {
                        let ax = mv(&a, x.data());
                        norm(&b.iter().zip(&ax).map(|(p, q)| p - q).collect::<Vec<_>>())
                    };
                    let d = |k: usize| format!("A = {:?} b = {:?} start {:?} tolerance {} limit {}", a, b, st, tol, k);
                    let (enough, far) = cg_steps(&a, n, b, st.as_deref(), tol);
                    let mut done: Option<Arr> = None;
                    let mut lims: Vec<usize> = (0..=n + 2).collect();
                    lims.extend([2 * n + 2, 200]);
                    for k in lims {
                        let r = conjugate_gradient(&aa, &ba, sa.as_ref(), tol, k);
                        if let Ok(x) = &r {
                            c.seen(&[x.data(), &a[..], &b[..]].concat());
                        }
                        c.transitions += 1;
                        match r {
                            Ok(x) => {
                                ensure!(c, x.len() == n && res(&x) <= tol * (1.0 + 1e-6) + 1e-12 * scale, "reported success with residual {}: {}", res(&x), d(k));
                                ensure!(c, k >= far, "success within {} iterations although {} steps leave a large residual: {}", k, far, d(k));
                                if let Some(p) = &done {
                                    ensure!(c, *p == x, "a larger limit changes the solution {:?} to {:?}: {}", p.data(), x.data(), d(k));
                                } else {
                                    done = Some(x);
                                }
                            }
                            Err(_) => {
                                ensure!(c, done.is_none(), "a larger limit turns success into failure: {}", d(k));
                                // the initial guess must not satisfy the tolerance already
                                let x0 = Arr::from(st.clone().unwrap_or(vec![0.0; n]));
                                ensure!(c, res(&x0) >= tol * 0.999, "refused although the initial guess solves the system (residual {}): {}", res(&x0), d(k));
                                ensure!(c, enough.map(|m| k < m).unwrap_or(true), "refused although the iterate after step {:?} solves the system: {}", enough, d(k));
                                ensure!(c, if n <= 5 { k <= n } else { k < 2 * n }, "no solution of a positive definite system of order {} within {} iterations: {}", n, k, d(k));
                            }
                        }
                    }
                    c.traces += 1;
                    let x0 = Arr::from(st.clone().unwrap_or(vec![0.0; n]));
                    if res(&x0) < tol * 0.999 {
                        ensure!(c, done == Some(x0), "an initial guess that solves the system was changed: {}", d(0));
                    }
                }
            }
        }
        c.sample(|| format!("A = {:?}", a));
    });
    if c.stopped() {
        return;
    }
    cg_long(c);
}
/// reference iteration: the first step whose iterate solves the system with room to spare
/// and the number of leading steps whose iterates are far from solving it
fn cg_steps(a: &[f64], n: usize, b: &[f64], x0: Option<&[f64]>, tol: f64) -> (Option<usize>, usize) {
    let mut x = x0.map(|v| v.to_vec()).unwrap_or(vec![0.0; n]);
    let resid = |x: &[f64]| -> Vec<f64> { b.iter().zip(&mv(a, x)).map(|(p, q)| p - q).collect() };
    let mut r = resid(&x);
    let mut p = r.clone();
    let mut far = 0;
    for k in 0..=2 * n {
        if far == k && norm(&resid(&x)) > 1e3 * tol && norm(&r) > 1e3 * tol {
            far += 1;
        }
        if norm(&resid(&x)) < 0.1 * tol && norm(&r) < 0.1 * tol {
            return (Some(k), far);
        }
        let ap = mv(a, &p);
        let rr = dot(&r, &r);
        let al = rr / dot(&p, &ap);
        if !al.is_finite() {
            return (None, far);
        }
        for i in 0..n {
            x[i] += al * p[i];
            r[i] -= al * ap[i];
        }
        let be = dot(&r, &r) / rr;
        for i in 0..n {
            p[i] = r[i] + be * p[i];
        }
    }
    (None, far)
}
/// large chain systems: the solution needs as many iterations as unknowns
fn cg_long(c: &mut Ctx) {
    let ns: Vec<usize> = if c.thorough { (17..=64).chain([80, 100, 129, 160]).collect() } else { vec![20, 33, 34, 40, 50, 64, 65, 80, 100] };
    c.bound(format!("chain systems (2 on the diagonal, -1 beside it) of orders {:?} x unit right-hand sides at both ends and the middle x limits n/2, n-1, n, n+1, 2n, 10n", ns));
    c.par(ns, |c, &n| {
        let mut a = vec![0.0; n * n];
        for i in 0..n {
            a[i * n + i] = 2.0;
            if i > 0 {
                a[i * n + i - 1] = -1.0;
                a[(i - 1) * n + i] = -1.0;
            }
        }
        let aa = Arr::from_shape_vec(n, n, a.clone());
        for at in [0, n / 2, n - 1] {
            let mut b = vec![0.0; n];
            b[at] = 1.0;
            let ba = Arr::from(b.clone());
            for tol in [1e-4, 1e-8] {
                let mut done: Option<Arr> = None;
                let (enough, far) = cg_steps(&a, n, &b, None, tol);
                for k in [0, n / 2, n - 1, n, n + 1, 2 * n, 10 * n].into_iter().chain(enough.into_iter().flat_map(|m| [m.saturating_sub(1), m])) {
                    let r = conjugate_gradient(&aa, &ba, None, tol, k);
                    c.transitions += 1;
                    c.states += 1;
                    match r {
                        Ok(x) => {
                            let ax = mv(&a, x.data());
                            let res = norm(&b.iter().zip(&ax).map(|(p, q)| p - q).collect::<Vec<_>>());
                            ensure!(c, res <= tol * (1.0 + 1e-6) + 1e-12, "reported success with residual {}: chain of order {}, unit load at {}, tolerance {} limit {}", res, n, at, tol, k);
                            ensure!(c, k >= far, "success within {} iterations although {} steps leave a large residual: chain of order {}, unit load at {}, tolerance {}", k, far, n, at, tol);
                            if let Some(p) = &done {
                                ensure!(c, *p == x, "a larger limit changes the solution: chain of order {}, unit load at {}, tolerance {} limit {}", n, at, tol, k);
                            }
                            done = Some(x);
                        }
                        Err(_) => {
                            ensure!(c, enough.map(|m| k < m).unwrap_or(true), "refused although the iterate after step {:?} solves the system: chain of order {}, unit load at {}, tolerance {} limit {}", enough, n, at, tol, k);
                            ensure!(c, done.is_none() || enough.map(|m| k < m).unwrap_or(false), "a larger limit turns success into failure: chain of order {}, unit load at {}, tolerance {} limit {}", n, at, tol, k);
                            ensure!(c, k < n + 1, "no solution of a chain of order {} with unit load at {} (tolerance {}) within {} iterations", n, at, tol, k);
                        }
                    }
                }
                c.traces += 1;
            }
        }
        c.sample(|| format!("chain of order {}", n));
    });
}
fn solve_spd(a: &[f64], n: usize, b: &[f64]) -> Vec<f64> {
    let l = chol(a, n).unwrap();
    let mut y = fsub(&l, b);
    for i in (0..n).rev() {
        for k in i + 1..n {
            y[i] -= l[k * n + i] * y[k];
        }
        y[i] /= l[i * n + i];
    }
    y
}

// ------------------------------------------------------------------ C21

/// Slow convergence: every step of long runs against repeated multiplication, for loose and tight tolerances.
fn pw_slow(c: &mut Ctx) {
    let ns: Vec<usize> = if c.thorough { (2..=34).collect() } else { (2..=20).collect() };
    let ratios = [0.5, 0.9, 0.97, 0.99, 0.997, 0.999];
    let tols = [0.3, 0.04, 5e-3, 5e-4, 5e-5, 5e-6, 5e-7, 5e-8, 5e-9, 5e-11, 0.0];
    c.bound(format!("power iteration on orders {:?} with |lambda2|/|lambda1| in {:?} (definite of either sign) x tolerances {:?} x starts: stopping step, value and vector after every limit up to 150 and 20 larger ones, 4 variants, against repeated multiplication", ns, ratios, tols));
    let mut items = vec![];
    for &n in &ns {
        for (ri, r) in ratios.iter().enumerate() {
            for sg in [1.0, -1.0] {
                items.push((n, ri, *r, sg));
            }
        }
    }
    c.par(items, |c, &(n, ri, r, sg)| {
        // eigenvalues lam_i, eigenvectors of a Householder reflection
        let lam: Vec<f64> = (0..n).map(|i| sg * 3.0 * match (i + ri) % n { 0 => 1.0, 1 => r, q => 0.4 / q as f64 }).collect();
        let w: Vec<f64> = (0..n).map(|i| 1.0 + ((i * 3 + ri) % 5) as f64 * 0.5).collect();
        let ww = dot(&w, &w);
        let q = |i: usize, j: usize| (i == j) as u8 as f64 - 2.0 * w[i] * w[j] / ww;
        let mut m = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..=i {
                let v: f64 = (0..n).map(|k| q(i, k) * lam[k] * q(j, k)).sum();
                m[i * n + j] = v;
                m[j * n + i] = v;
            }
        }
        let a = Arr::from_shape_vec(n, n, m.clone());
        let top = (0..n).find(|i| (i + ri) % n == 0).unwrap();
        let starts: Vec<Vec<f64>> = vec![(0..n).map(|i| 1.0 + 0.3 * (i % 3) as f64).collect(), (0..n).map(|i| if i == 0 { 2.0 } else { -0.25 }).collect()];
        for s in starts {
            let ov: f64 = (0..n).map(|i| s[i] * q(i, top)).sum();
            if ov.abs() < 0.02 * norm(&s) {
                continue;
            }
            // the trajectory
            let cap = 2100;
            let mut tr = vec![];
            let mut y = s.clone();
            for _ in 0..cap + 2 {
                let f = norm(&y);
                y.iter_mut().for_each(|v| *v /= f);
                tr.push(y.clone());
                y = mv(&m, &y);
            }
            let ray: Vec<f64> = tr.iter().map(|y| quad(&m, y)).collect();
            for variant in 1..=4u8 {
                let size = |j: usize| -> f64 {
                    if variant == 2 || variant == 3 {
                        return (ray[j + 1] - ray[j]).abs();
                    }
                    let nm = |v: &[f64]| if variant == 4 { v.iter().map(|t| t.abs()).sum::<f64>() } else { 1.0 };
                    let (na, nb) = (nm(&tr[j]), nm(&tr[j + 1]));
                    let df = |g: f64| tr[j].iter().zip(&tr[j + 1]).map(|(p, q)| (p / na - g * q / nb).abs()).sum::<f64>();
                    df(1.0).min(df(-1.0))
                };
                let sizes: Vec<f64> = (0..cap).map(size).collect();
                for tol in tols {
                    let run = |lim: usize| -> (f64, usize, Vec<f64>) {
                        let mut x = Arr::from(s.clone());
                        let o = Options { max_iters: lim, tolerance: tol };
                        let (l, k) = match variant {
                            1 => power_iteration(&a, &mut x, &o),
                            2 => power_iteration2(&a, &mut x, &o),
                            3 => power_iteration3(&a, &mut x, &o),
                            _ => power_iteration4(&a, &mut x, &o),
                        };
                        (l, k, x.data().to_vec())
                    };
                    let d = |lim: usize| format!("variant {} A = {:?} start {:?} tolerance {:e} limit {}", variant, m, s, tol, lim);
                    let slack = 1e-14 * n as f64;
                    let could = |j: usize| sizes[j] <= tol * (1.0 + 1e-6) + slack;
                    let must = |j: usize| sizes[j] < tol * (1.0 - 1e-6) - slack;
                    // the earliest step that may, and the earliest that must be the last one
                    let lo = (0..cap).find(|&j| could(j));
                    let hi = (0..cap).find(|&j| must(j));
                    let conv = match (lo, hi) {
                        (Some(p), Some(q)) if p == q => Some(p),
                        _ => None,
                    };
                    let mut lims: Vec<usize> = (0..=150).collect();
                    lims.extend([163, 199, 200, 201, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 750, 999, 1000, 1001, 1024, 1500, 1999, 2000]);
                    if conv.is_none() {
                        // judged up to the first step whose size is too close to the tolerance to call
                        lims.retain(|l| *l <= lo.unwrap_or(cap));
                        if tol == 0.0 && !c.thorough {
                            lims.retain(|l| *l <= 60 || l % 10 == 0);
                        }
                    }
                    if let Some(k) = conv {
                        lims.retain(|l| *l <= k + 3);
                        lims.extend([k, k + 1, k + 2]);
                        if !c.thorough {
                            lims.retain(|l| *l < 12 || *l + 2 >= k || l % 7 == 0);
                        }
                    }
                    for lim in lims {
                        let (l, k, x) = run(lim);
                        c.transitions += 1;
                        c.seen(&[&x[..], &m[..], &[l, k as f64, tol]].concat());
                        let (wk, at) = match conv {
                            Some(p) if lim > p => (p, p + 1),
                            _ => (lim, lim),
                        };
                        ensure!(c, k == wk, "reported {} iterations, expected {}: {}", k, wk, d(lim));
                        ensure!(c, (l - ray[at]).abs() <= 1e-9, "value {} after {} multiplications, expected {}: {}", l, at, ray[at], d(lim));
                        let f = norm(&x);
                        let df = |g: f64| norm(&tr[at].iter().zip(&x).map(|(p, q)| p - g * q / f).collect::<Vec<_>>());
                        ensure!(c, df(1.0).min(df(-1.0)) < 1e-8, "vector {:?} after {} multiplications, expected {:?} up to scale: {}", x, at, tr[at], d(lim));
                        if variant != 3 || conv.map(|p| lim > p).unwrap_or(false) {
                            ensure!(c, (f - 1.0).abs() < 1e-9, "vector {:?} is not of unit length: {}", x, d(lim));
                        }
                        if c.stopped() {
                            return;
                        }
                    }
                    c.traces += 1;
                }
            }
        }
        c.sample(|| format!("order {} ratio {} sign {}", n, r, sg));
    });
}

pub fn c21(c: &mut Ctx) {
    let th = c.thorough;
    let mut plans: Vec<(usize, Vec<i64>, Vec<i64>)> = vec![(1, vec![-3, 1, 5], vec![0]), (2, (-3..=4).collect(), (-2..=2).collect()), (3, vec![-1, 1, 2, 6], vec![-1, 0, 1])];
    if th {
        plans = vec![(1, (-9..=9).collect(), vec![0]), (2, (-6..=8).collect(), (-4..=4).collect()), (3, (-2..=6).collect(), vec![-2, -1, 0, 1]), (4, vec![1, 2, 8], vec![-1, 0, 1])];
    }
    c.bound(format!("every symmetric integer matrix (order, diagonal, off-diagonal) in {:?} with |lambda1| >= 1.25 |lambda2|, x start vectors overlapping the dominant direction x scales x 4 iteration variants x iteration limits around convergence", plans));
    let mut items = vec![];
    for (n, dg, off) in plans {
        let mut rad = vec![];
        for i in 0..n {
            for j in 0..=i {
                rad.push(if i == j { dg.len() } else { off.len() });
            }
        }
        odometer(&rad, |d| {
            let mut m = vec![0.0; n * n];
            let mut p = 0;
            for i in 0..n {
                for j in 0..=i {
                    let v = if i == j { dg[d[p]] } else { off[d[p]] } as f64;
                    m[i * n + j] = v;
                    m[j * n + i] = v;
                    p += 1;
                }
            }
            items.push((n, m));
            true
        });
    }
    // larger orders: diagonal plus a coupling of neighbours, the dominant direction around every position
    let big: Vec<usize> = if th { (4..=100).collect() } else { (4..=66).collect() };
    c.bound(format!("orders {:?}: neighbour-coupled diagonal matrices with the dominant direction at the first, second, middle, last-but-one and last coordinates, and dense ones", big));
    for n in big {
        for at in [0, 1, n / 2, n - 2, n - 1] {
            let mut m = vec![0.0; n * n];
            for i in 0..n {
                m[i * n + i] = if i == at { 9.0 } else { 1.0 + (i % 4) as f64 };
                if i > 0 {
                    m[i * n + i - 1] = 0.5;
                    m[(i - 1) * n + i] = 0.5;
                }
            }
            items.push((n, m));
        }
        // one slowly separating pair at every end, everything else dies out at once
        for at in [0, n / 2, n - 2] {
            let mut m = vec![0.0; n * n];
            for i in 0..n {
                m[i * n + i] = if i == at || i == at + 1 { 8.0 } else { 0.5 };
            }
            m[at * n + at + 1] = 1.0;
            m[(at + 1) * n + at] = 1.0;
            items.push((n, m));
        }
        items.push((n, (0..n * n).map(|k| if k % (n + 1) == 0 { 3.0 } else { 1.0 }).collect()));
        items.push((n, (0..n * n).map(|k| if k % (n + 1) == 0 { -2.0 } else { -1.0 }).collect()));
    }
    c.par(items, |c, (n, m)| {
        let n = *n;
        let (ev, vecs) = eig_sym(m, n);
        let mut ord: Vec<usize> = (0..n).collect();
        ord.sort_by(|a, b| ev[*b].abs().partial_cmp(&ev[*a].abs()).unwrap());
        let l1 = ev[ord[0]];
        let l2 = if n > 1 { ev[ord[1]].abs() } else { 0.0 };
        if l1.abs() < 0.5 || l1.abs() < 1.25 * l2 {
            return;
        }
        let v1 = &vecs[ord[0]];
        let semi = ev.iter().all(|x| *x >= -1e-9) || ev.iter().all(|x| *x <= 1e-9);
        let starts: Vec<Vec<f64>> = vec![
            (0..n).map(|i| 1.0 + 0.1 * i as f64).collect(),
            (0..n).map(|i| if i % 2 == 0 { 0.3 } else { -0.7 }).collect(),
            (0..n).map(|i| 40.0 * (i as f64 + 1.0) - 65.0).collect(),
            v1.iter().map(|v| v * 3.0).collect(),
            v1.iter().enumerate().map(|(i, v)| v + if i % 3 == 0 { 0.4 } else { -0.2 }).collect(),
        ];
        for s in &starts {
            if dot(s, v1).abs() < 0.1 * norm(s) {
                continue;
            }
            for scale in [1.0, 1e50, 1e-2, 1e-40] {
                for ss in [1.0, 1e60, 1e-60] {
                    if ss != 1.0 && scale != 1.0 || n > 24 && (ss != 1.0 || scale != 1.0) {
                        continue;
                    }
                    let ms: Vec<f64> = m.iter().map(|v| v * scale).collect();
                    let a = Arr::from_shape_vec(n, n, ms.clone());
                    for variant in 1..=4u8 {
                        let vecconv = variant == 1 || variant == 4;
                        if !vecconv && !semi {
                            continue;
                        }
                        if variant == 3 && (scale < 1e-2 || ss < 1.0) {
                            continue; // works on unnormalised vectors: may underflow
                        }
                        let tol = if vecconv { 1e-9 } else { 1e-12 * scale * l1.abs() };
                        let run = |lim: usize| -> (f64, usize, Vec<f64>) {
                            let mut x = Arr::from(s.iter().map(|v| v * ss).collect::<Vec<_>>());
                            let o = Options { max_iters: lim, tolerance: tol };
                            let (l, k) = match variant {
                                1 => power_iteration(&a, &mut x, &o),
                                2 => power_iteration2(&a, &mut x, &o),
                                3 => power_iteration3(&a, &mut x, &o),
                                _ => power_iteration4(&a, &mut x, &o),
                            };
                            (l, k, x.data().to_vec())
                        };
                        let d = |lim: usize| format!("variant {} A = {:?} start {:?} (x {:e}) tolerance {:e} limit {}", variant, ms, s, ss, tol, lim);
                        let (l, k, x) = run(3000);
                        c.seen(&[&x[..], &m[..], &[l, k as f64]].concat());
                        c.transitions += 1;
                        c.traces += 1;
                        ensure!(c, k < 3000, "no convergence in 3000 iterations: {}", d(3000));
                        ensure!(c, (l - l1 * scale).abs() <= 1e-7 * l1.abs() * scale, "eigenvalue {} but the dominant one is {}: {}", l, l1 * scale, d(3000));
                        ensure!(c, (norm(&x) - 1.0).abs() < 1e-9, "eigenvector {:?} is not of unit length: {}", x, d(3000));
                        let ax = mv(&ms, &x);
                        let r = norm(&ax.iter().zip(&x).map(|(p, q)| p - l * q).collect::<Vec<_>>());
                        ensure!(c, r <= 2e-5 * l1.abs() * scale, "residual {} of the eigenpair ({}, {:?}): {}", r, l, x, d(3000));
                        // the documented stopping criterion holds at the reported step and not before
                        let step = |j: usize| -> f64 {
                            let ((la, _, xa), (lb, _, xb)) = (run(j), run(j + 1));
                            if !vecconv {
                                return (la - lb).abs();
                            }
                            let l1 = |v: &[f64]| if variant == 4 { v.iter().map(|q| q.abs()).sum::<f64>() } else { norm(v) };
                            let (na, nb) = (l1(&xa), l1(&xb));
                            let df = |sg: f64| xa.iter().zip(&xb).map(|(p, q)| (p / na - sg * q / nb).abs()).sum::<f64>();
                            df(1.0).min(df(-1.0))
                        };
                        let slack = if vecconv { 1e-15 * n as f64 } else { 1e-15 * n as f64 * l1.abs() * scale };
                        c.transitions += 2;
                        ensure!(c, step(k) <= tol + slack, "stopped at a step of size {}: {}", step(k), d(3000));
                        if k > 0 {
                            c.transitions += 2;
                            ensure!(c, step(k - 1) >= tol - slack, "went on after a step of size {}: {}", step(k - 1), d(3000));
                        }
                        // limits around convergence
                        let mut lims = vec![k + 1, k + 2, k, k / 2, 0, 1];
                        if th {
                            lims.extend(0..k.min(12));
                        }
                        for lim in lims {
                            let (l2, k2, x2) = run(lim);
                            c.seen(&[&x2[..], &m[..], &[l2, k2 as f64]].concat());
                            c.transitions += 1;
                            if lim > k {
                                ensure!(c, (l2, k2) == (l, k) && x2 == x, "limit {} changes the outcome: ({}, {}) instead of ({}, {}): {}", lim, l2, k2, l, k, d(lim));
                            } else {
                                ensure!(c, k2 == lim, "reported {} iterations for limit {} without convergence: {}", k2, lim, d(lim));
                                // the value is the Rayleigh quotient of the vector reached
                                let xx = dot(&x2, &x2);
                                let q = quad(&ms, &x2) / xx;
                                ensure!(c, xx.is_finite() && xx > 0.0 && (l2 - q).abs() <= 1e-9 * l1.abs() * scale, "value {} is not the Rayleigh quotient {} of {:?}: {}", l2, q, x2, d(lim));
                                // and the vector is the start multiplied by A once per allowed iteration
                                if lim <= 12 {
                                    let mut y = s.clone();
                                    for _ in 0..lim {
                                        y = mv(m, &y);
                                        let f = norm(&y);
                                        y.iter_mut().for_each(|v| *v /= f);
                                    }
                                    let (f, g) = (norm(&y), xx.sqrt());
                                    let df = |sg: f64| norm(&y.iter().zip(&x2).map(|(p, q)| p / f - sg * q / g).collect::<Vec<_>>());
                                    ensure!(c, df(1.0).min(df(-1.0)) < 1e-7, "vector {:?} after {} iterations, repeated multiplication gives {:?}: {}", x2, lim, y, d(lim));
                                }
                                if variant != 3 {
                                    ensure!(c, (xx - 1.0).abs() < 1e-9, "vector {:?} is not of unit length: {}", x2, d(lim));
                                }
                            }
                        }
                    }
                }
            }
        }
        c.sample(|| format!("A = {:?}", m));
    });
    if c.stopped() {
        return;
    }
    pw_slow(c);
    if c.stopped() {
        return;
    }
    // a start that is an exact eigenvector needs no iteration even at tolerance zero
    c.bound("diagonal matrices of orders 1 to 6, coordinate starts, tolerance zero, 4 variants");
    for n in 1..=6usize {
        for at in 0..n {
            for lam in [4.0, -8.0, 0.5] {
                for ss in [1.0, -2.0, 0.25] {
                    let mut m = vec![0.0; n * n];
                    for i in 0..n {
                        m[i * n + i] = if i == at { lam } else { 0.25 };
                    }
                    let a = Arr::from_shape_vec(n, n, m.clone());
                    for variant in 1..=4u8 {
                        let mut x0 = vec![0.0; n];
                        x0[at] = ss;
                        let mut x = Arr::from(x0);
                        let o = Options { max_iters: 7, tolerance: 0.0 };
                        let (l, k) = match variant {
                            1 => power_iteration(&a, &mut x, &o),
                            2 => power_iteration2(&a, &mut x, &o),
                            3 => power_iteration3(&a, &mut x, &o),
                            _ => power_iteration4(&a, &mut x, &o),
                        };
                        c.seen(&[&m[..], x.data(), &[l, k as f64]].concat());
                        c.transitions += 1;
                        c.traces += 1;
                        let unit = x.iter().enumerate().all(|(i, v)| if i == at { v.abs() == 1.0 } else { *v == 0.0 });
                        ensure!(c, k == 0 && l == lam && unit, "variant {} on diagonal {:?} (order {}) from {} along coordinate {}: value {} vector {:?} after {} iterations", variant, m, n, ss, at, l, x.data(), k);
                    }
                }
            }
        }
    }
}
