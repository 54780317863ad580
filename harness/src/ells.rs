//! C01..C08: the ellipsoid search spaces, explored as transition systems over cut histories.
use crate::ensure;
use crate::linalg::*;
use crate::rt::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{CutStatus, ParallelCut, SearchSpace, SingleCut};
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_stable::EllStable;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Success,
    NoSoln,
    NoEffect,
    Unknown,
}
pub fn st(s: CutStatus) -> St {
    match s {
        CutStatus::Success => St::Success,
        CutStatus::NoSoln => St::NoSoln,
        CutStatus::NoEffect => St::NoEffect,
        CutStatus::Unknown => St::Unknown,
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Bias,
    Central,
    Q,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Beta {
    S(f64),
    P(f64, Option<f64>),
}
#[derive(Clone, Debug)]
pub struct Cut {
    pub g: Vec<f64>,
    pub kind: Kind,
    pub beta: Beta,
}
impl Cut {
    /// the set of allowed values of g'(x - xc)
    pub fn interval(&self) -> (f64, f64) {
        let (b0, b1) = match self.beta {
            Beta::S(b) => (b, None),
            Beta::P(b0, b1) => (b0, b1),
        };
        let b0 = if self.kind == Kind::Central { 0.0 } else { b0 };
        (b1.map(|b| -b).unwrap_or(f64::NEG_INFINITY), -b0)
    }
}

#[derive(Clone)]
pub enum Sp {
    E(Ell),
    S(EllStable),
}
#[derive(Clone, Debug)]
pub struct Snap {
    pub xc: Vec<f64>,
    /// kappa * M
    pub p: Vec<f64>,
}
impl Sp {
    pub fn apply(&mut self, c: &Cut) -> (St, f64) {
        let g = Arr::from(c.g.clone());
        macro_rules! go {
            ($e:expr) => {{
                let s = match c.beta {
                    Beta::S(b) => {
                        let cut = (g, SingleCut(b));
                        match c.kind {
                            Kind::Bias => $e.update_bias_cut(&cut),
                            Kind::Central => $e.update_central_cut(&cut),
                            Kind::Q => $e.update_q(&cut),
                        }
                    }
                    Beta::P(b0, b1) => {
                        let cut = (g, ParallelCut(b0, b1));
                        match c.kind {
                            Kind::Bias => $e.update_bias_cut(&cut),
                            Kind::Central => $e.update_central_cut(&cut),
                            Kind::Q => $e.update_q(&cut),
                        }
                    }
                };
                (st(s), $e.tsq())
            }};
        }
        match self {
            Sp::E(e) => go!(e),
            Sp::S(e) => go!(e),
        }
    }
    pub fn set_xc(&mut self, x: &[f64]) {
        match self {
            Sp::E(e) => e.set_xc(Arr::from(x.to_vec())),
            Sp::S(e) => e.set_xc(Arr::from(x.to_vec())),
        }
    }
    pub fn xc(&self) -> Vec<f64> {
        match self {
            Sp::E(e) => e.xc().data().to_vec(),
            Sp::S(e) => e.xc().data().to_vec(),
        }
    }
    /// observe gᵀ(κM)g through the public interface: a cut far outside is refused and reports the size
    pub fn probe(&self, g: &[f64]) -> f64 {
        let mut s = self.clone();
        let (_, t) = s.apply(&Cut {
            g: g.to_vec(),
            kind: Kind::Bias,
            beta: Beta::S(1e150),
        });
        t
    }
    pub fn probe_shape(&self) -> Vec<f64> {
        let n = self.xc().len();
        let mut p = vec![0.0; n * n];
        let d: Vec<f64> = (0..n)
            .map(|i| {
                let mut e = vec![0.0; n];
                e[i] = 1.0;
                self.probe(&e)
            })
            .collect();
        for i in 0..n {
            p[i * n + i] = d[i];
            for j in 0..i {
                // scale so that both terms have the same size: no cancellation in the sum
                let (si, sj) = (1.0 / d[i].sqrt(), 1.0 / d[j].sqrt());
                let mut e = vec![0.0; n];
                e[i] = si;
                e[j] = sj;
                let a = self.probe(&e);
                e[j] = -sj;
                let b = self.probe(&e);
                let v = (a - b) / 4.0 / (si * sj);
                p[i * n + j] = v;
                p[j * n + i] = v;
            }
        }
        p
    }
    pub fn snap(&self) -> Snap {
        match self {
            Sp::E(e) => Snap {
                xc: e.xc.data().to_vec(),
                p: e.mq.data().iter().map(|v| v * e.kappa).collect(),
            },
            Sp::S(_) => Snap {
                xc: self.xc(),
                p: self.probe_shape(),
            },
        }
    }
}

/// relative letter: direction index plus offsets in units of tau
#[derive(Clone, Copy, Debug)]
pub struct Letter {
    pub dir: usize,
    pub kind: Kind,
    pub a0: f64,
    /// None: single cut; Some(None): ParallelCut(b0, None); Some(Some(a1))
    pub a1: Option<Option<f64>>,
}
impl Letter {
    pub fn cut(&self, g: &[f64], tau: f64) -> Cut {
        let b0 = self.a0 * tau;
        let beta = match self.a1 {
            None => Beta::S(b0),
            Some(None) => Beta::P(b0, None),
            Some(Some(a1)) => Beta::P(b0, Some(a1 * tau)),
        };
        Cut {
            g: g.to_vec(),
            kind: self.kind,
            beta,
        }
    }
}

pub fn dirs(n: usize, cnt: usize) -> Vec<Vec<f64>> {
    let base2: Vec<Vec<f64>> = vec![
        vec![1.0, 1.0],
        vec![-2.0, 1.0],
        vec![1.0, 0.0],
        vec![0.5, -3.0],
        vec![0.0, 1.0],
        vec![700.0, 300.0],
        vec![-0.001, -0.004],
        vec![2e-25, -1e-25],
        vec![1e25, 3e25],
    ];
    let mut v: Vec<Vec<f64>> = vec![];
    if n == 2 {
        v = base2;
    } else {
        // fixed, pairwise independent patterns
        for k in 0..(cnt.max(9)) {
            let g: Vec<f64> = match k {
                0 => (0..n).map(|i| 1.0 + (i % 2) as f64 * 0.5).collect(),
                1 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -2.0 }).collect(),
                2 => (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect(),
                3 => (0..n).map(|i| [3.0, 0.0, -1.0, 0.5][i % 4]).collect(),
                4 => (0..n).map(|i| if i == n - 1 { -2.0 } else { 0.0 }).collect(),
                5 => (0..n).map(|i| 1000.0 * [0.0, 1.0, 0.3][i % 3]).collect(),
                7 => (0..n).map(|i| 1e-25 * [1.0, -2.0, 0.5][i % 3]).collect(),
                8 => (0..n).map(|i| 1e25 * [0.5, 1.0, -3.0, 0.0][i % 4]).collect(),
                _ => (0..n)
                    .map(|i| (((i * 7 + k * 5) % 11) as f64 - 5.0) * 0.25 + 0.1)
                    .collect(),
            };
            v.push(g);
        }
    }
    v.truncate(cnt);
    v
}

pub fn letters_full(n: usize, nd: usize) -> Vec<Letter> {
    let nf = n as f64;
    let mut v = vec![];
    for dir in 0..nd {
        let mut add = |kind, a0, a1| v.push(Letter { dir, kind, a0, a1 });
        for a in [0.0, 0.02, 0.125, 1.0 / 3.0, 0.6, 0.95, 1.25, 3.0] {
            add(Kind::Bias, a, None);
        }
        add(Kind::Bias, 0.3, Some(None));
        add(Kind::Bias, 0.0, Some(None));
        add(Kind::Bias, 1.3, Some(None));
        // a second bound far away or at infinity is no bound
        for far in [1e9, f64::INFINITY] {
            add(Kind::Bias, 0.2, Some(Some(far)));
            add(Kind::Central, 0.2, Some(Some(far)));
            add(Kind::Q, 0.2, Some(Some(far)));
            add(Kind::Q, -0.4 / nf, Some(Some(far)));
            add(Kind::Q, -1.7 / nf, Some(Some(far)));
        }
        // shallow cuts that still shrink the ellipsoid
        for a in [-0.9 / nf, -0.35 / nf, -0.01 / nf] {
            add(Kind::Bias, a, None);
            add(Kind::Bias, a, Some(None));
            add(Kind::Bias, a, Some(Some(0.62)));
            add(Kind::Bias, a, Some(Some(1.7)));
        }
        add(Kind::Bias, -0.31, Some(Some(-0.06)));
        add(Kind::Bias, -0.81, Some(Some(-0.31)));
        add(Kind::Bias, -0.6, Some(Some(0.5 / nf)));
        let al = [0.0, 0.06, 0.25, 0.45, 0.7, 0.93, 1.1, 2.5];
        for (i, &a0) in al.iter().enumerate() {
            for &a1 in &al[i + 1..] {
                add(Kind::Bias, a0, Some(Some(a1)));
            }
        }
        add(Kind::Bias, 0.4, Some(Some(0.41)));
        add(Kind::Bias, 0.6, Some(Some(0.5)));
        add(Kind::Bias, 0.2, Some(Some(-0.5)));
        add(Kind::Bias, 1.5, Some(Some(1.3)));
        for a in [0.0, 0.5, -0.7, 1.4] {
            add(Kind::Central, a, None);
            add(Kind::Central, a, Some(None));
        }
        for a1 in [0.05, 0.3, 0.8, 0.97, 1.3, -0.2, -1.2] {
            add(Kind::Central, 0.0, Some(Some(a1)));
            add(Kind::Central, 0.5, Some(Some(a1)));
        }
        for a in [
            -1.5,
            -1.2 / nf,
            -0.9 / nf,
            -0.5 / nf,
            -0.1 / nf,
            0.0,
            0.05,
            0.3,
            0.8,
            1.3,
        ] {
            add(Kind::Q, a, None);
            add(Kind::Q, a, Some(None));
        }
        let ql = [-1.4, -0.81, -0.31, -0.06, 0.0, 0.051, 0.41, 0.9, 1.2];
        for (i, &a0) in ql.iter().enumerate() {
            for &a1 in &ql[i + 1..] {
                add(Kind::Q, a0, Some(Some(a1)));
            }
        }
        add(Kind::Q, 0.3, Some(Some(0.2)));
        add(Kind::Q, -0.3, Some(Some(-0.4)));
        add(Kind::Q, -1.6, Some(Some(-1.4)));
    }
    v
}

/// very deep cuts and thin slabs
pub fn letters_extreme(nd: usize) -> Vec<Letter> {
    let mut v = vec![];
    for dir in 0..nd {
        let mut add = |kind, a0, a1| v.push(Letter { dir, kind, a0, a1 });
        for a in [0.99, 0.999, 0.9999] {
            add(Kind::Bias, a, None);
            add(Kind::Q, a, None);
            add(Kind::Bias, a, Some(None));
            add(Kind::Bias, a, Some(Some(1.2)));
        }
        for (a0, a1) in [(0.3, 0.301), (0.0, 0.002), (0.995, 0.9999), (0.5, 0.503), (0.7, 0.9999)] {
            add(Kind::Bias, a0, Some(Some(a1)));
            add(Kind::Q, a0, Some(Some(a1)));
            add(Kind::Q, -a1, Some(Some(-a0)));
        }
        add(Kind::Central, 0.7, Some(Some(1e-3)));
        add(Kind::Q, -5e-4, Some(Some(1e-3)));
    }
    v
}

pub fn letters_mid(n: usize, nd: usize) -> Vec<Letter> {
    let nf = n as f64;
    let mut v = vec![];
    for dir in 0..nd {
        let mut add = |kind, a0, a1| v.push(Letter { dir, kind, a0, a1 });
        add(Kind::Bias, 0.0, None);
        add(Kind::Bias, 0.3, None);
        add(Kind::Bias, 0.8, None);
        add(Kind::Bias, 1.25, None);
        add(Kind::Bias, 0.1, Some(Some(0.6)));
        add(Kind::Bias, 0.2, Some(Some(1.4)));
        add(Kind::Bias, 0.7, Some(Some(0.2)));
        add(Kind::Bias, -0.4 / nf, None);
        add(Kind::Bias, -0.5 / nf, Some(Some(0.9)));
        add(Kind::Central, 0.3, None);
        add(Kind::Central, 0.2, Some(Some(0.4)));
        add(Kind::Q, -0.6 / nf, None);
        add(Kind::Q, -1.5 / nf, None);
        add(Kind::Q, -0.3, Some(Some(0.41)));
        add(Kind::Q, -0.9, Some(Some(0.97)));
        add(Kind::Q, -0.5, Some(Some(-0.1)));
        add(Kind::Q, 0.3, None);
    }
    v
}

pub fn letters_small(_n: usize, nd: usize) -> Vec<Letter> {
    let mut v = vec![];
    for dir in 0..nd {
        let mut add = |kind, a0, a1| v.push(Letter { dir, kind, a0, a1 });
        add(Kind::Bias, 0.1, None);
        add(Kind::Bias, 0.15, Some(Some(0.8)));
        add(Kind::Central, 0.0, None);
        add(Kind::Q, -0.1, Some(Some(0.55)));
    }
    v
}

/// one or two cuts of every shape: for plans that visit every dimension
pub fn letters_dims(n: usize, nd: usize) -> Vec<Letter> {
    let nf = n as f64;
    let mut v = vec![];
    for dir in 0..nd {
        let mut add = |kind, a0, a1| v.push(Letter { dir, kind, a0, a1 });
        add(Kind::Bias, 0.1, None);
        add(Kind::Bias, 0.15, Some(Some(0.8)));
        add(Kind::Central, 0.0, None);
        add(Kind::Central, 0.0, Some(Some(0.4)));
        add(Kind::Q, -0.5 / nf, None);
        add(Kind::Q, -0.1, Some(Some(0.55)));
        add(Kind::Bias, 0.2, Some(Some(1.4)));
        add(Kind::Bias, 1.2, None);
    }
    v
}

/// a fine grid of offsets along the whole range, in one direction
pub fn letters_sweep(n: usize, dir: usize, th: bool) -> Vec<Letter> {
    let nf = n as f64;
    let mut v = vec![];
    let mut add = |kind, a0, a1| v.push(Letter { dir, kind, a0, a1 });
    let m = if th { 800 } else { 160 };
    for k in 0..m {
        // finer towards 1, where the volume falls fastest
        let t = (k as f64 + 0.37) / m as f64;
        for a in [t * 0.9998, 0.9998 - 0.15 * t * t] {
            add(Kind::Bias, a, None);
            add(Kind::Q, a, None);
        }
        add(Kind::Bias, t, Some(None));
        add(Kind::Q, -t / nf, None);
        add(Kind::Bias, -t / nf, None);
        add(Kind::Central, 0.0, Some(Some(1.03 * t)));
        add(Kind::Bias, t, Some(Some(1.04)));
    }
    let m = if th { 60 } else { 24 };
    let at = |k: usize| (k as f64 + 0.29) / m as f64;
    for i in 0..m {
        for j in i + 1..=m {
            add(Kind::Bias, at(i), Some(Some(at(j))));
        }
    }
    for i in 0..m {
        for j in i + 1..=m {
            add(Kind::Q, 2.0 * at(i) - 1.0, Some(Some(2.0 * at(j) - 1.0)));
        }
    }
    v
}

/// initial ellipsoids for dimension n. `diag_only` for EllStable.
pub fn inits(n: usize, which: usize) -> Vec<(String, f64, Vec<f64>, Vec<f64>)> {
    let eye = |d: &dyn Fn(usize) -> f64| {
        let mut m = vec![0.0; n * n];
        for i in 0..n {
            m[i * n + i] = d(i);
        }
        m
    };
    let mut full = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            full[i * n + j] = if i == j {
                2.0 + i as f64
            } else {
                0.5 * if (i + j) % 2 == 0 { 1.0 } else { -1.0 }
            };
        }
    }
    let zero = vec![0.0; n];
    let xc: Vec<f64> = (0..n).map(|i| 1.5 - i as f64 * 0.75).collect();
    let all = vec![
        ("diag".to_string(), 1.0, eye(&|i| 1.0 + i as f64 * 1.5), xc.clone()),
        ("unit".to_string(), 4.0, eye(&|_| 1.0), zero.clone()),
        ("small".to_string(), 1e-5, eye(&|i| 1.0 / (1.0 + i as f64)), xc.clone()),
        ("large".to_string(), 1e6, eye(&|i| 2.0 - i as f64 / n as f64), zero.clone()),
        ("full".to_string(), 0.25, full.clone(), xc),
        ("tiny".to_string(), 1e-40, eye(&|i| 1.0 + i as f64 * 0.5), zero.clone()),
        ("huge".to_string(), 1e40, eye(&|i| 3.0 - i as f64 / n as f64), zero.clone()),
        ("tinyfull".to_string(), 2.0, full.iter().map(|v| v * 1e-30).collect(), zero.clone()),
        ("mixed".to_string(), 1e20, full.iter().map(|v| v * 1e-35).collect(), zero.clone()),
        ("thin".to_string(), 1.0, eye(&|i| if i == 0 { 1e-6 } else { 1.0 + i as f64 }), zero.clone()),
        ("long".to_string(), 1.0, eye(&|i| if i == 0 { 1e6 } else { 1.0 + i as f64 }), zero),
    ];
    all.into_iter().take(which).collect()
}
fn is_diag(m: &[f64], n: usize) -> bool {
    (0..n).all(|i| (0..n).all(|j| i == j || m[i * n + j] == 0.0))
}
pub fn mk_ell(kappa: f64, m: &[f64], xc: &[f64], nodefer: bool) -> Sp {
    let n = xc.len();
    let mut e = Ell::new_with_matrix(
        kappa,
        Arr::with_data(m.to_vec(), n, n),
        Arr::from(xc.to_vec()),
    );
    e.no_defer_trick = nodefer;
    Sp::E(e)
}
pub fn mk_stable(kappa: f64, m: &[f64], xc: &[f64]) -> Sp {
    let n = xc.len();
    Sp::S(EllStable::new_with_matrix(
        kappa,
        Arr::with_data(m.to_vec(), n, n),
        Arr::from(xc.to_vec()),
    ))
}

/// Expected verdict of a cut given offsets in units of tau; None = too close to a boundary to call.
pub fn expect_status(kind: Kind, n: usize, a0: f64, a1: Option<Option<f64>>) -> Option<St> {
    let nf = n as f64;
    let near = |x: f64| x.abs() < 1e-7;
    let b1 = a1.flatten();
    match kind {
        Kind::Central => match b1 {
            Some(b) if near(b) => None,
            Some(b) if b < 0.0 => Some(St::NoSoln),
            _ => Some(St::Success),
        },
        Kind::Bias => {
            if let Some(b) = b1 {
                if near(b - a0) {
                    return None;
                }
                if b < a0 {
                    return Some(St::NoSoln);
                }
            }
            if near(a0 - 1.0) {
                return None;
            }
            Some(if a0 > 1.0 { St::NoSoln } else { St::Success })
        }
        Kind::Q => {
            if let Some(b) = b1 {
                if near(b - a0) || near(b + 1.0) || near(b - 1.0) {
                    return None;
                }
                if b < a0 || b < -1.0 {
                    return Some(St::NoSoln);
                }
            }
            if near(a0 - 1.0) {
                return None;
            }
            if a0 > 1.0 {
                return Some(St::NoSoln);
            }
            let e = match b1 {
                Some(b) if b < 1.0 => 1.0 + nf * a0 * b,
                _ => 1.0 + nf * a0,
            };
            if near(e) {
                return None;
            }
            Some(if e < 0.0 { St::NoEffect } else { St::Success })
        }
    }
}

/// Search the extreme points of {x in E, lo <= g'(x-xc) <= hi} for one outside E'.
/// Returns the witness and its squared distance (should be <= 1).
pub fn lost_point(
    old: &Snap,
    g: &[f64],
    lo: f64,
    hi: f64,
    new: &Snap,
    fine: usize,
) -> Result<f64, (Vec<f64>, f64)> {
    let n = old.xc.len();
    let l = match chol(&old.p, n) {
        Some(l) => l,
        None => return Ok(0.0),
    };
    let l2 = match chol(&new.p, n) {
        Some(l) => l,
        None => return Err((new.xc.clone(), f64::NAN)),
    };
    let mut a = ltmul(&l, g);
    let tau = norm(&a);
    for v in a.iter_mut() {
        *v /= tau;
    }
    let s0 = (lo / tau).max(-1.0);
    let s1 = (hi / tau).min(1.0);
    if s0 > s1 {
        return Ok(0.0);
    }
    let dx: Vec<f64> = new.xc.iter().zip(&old.xc).map(|(p, q)| p - q).collect();
    let form = |u: &[f64]| -> f64 {
        let mut y = lmul(&l, u);
        for i in 0..n {
            y[i] -= dx[i];
        }
        let z = fsub(&l2, &y);
        dot(&z, &z)
    };
    let basis = perp_basis(&a);
    let tol = 1e-8 + 1e-13 * (cond_est(&l, n) + cond_est(&l2, n));
    let mut worst: (Vec<f64>, f64) = (vec![], 0.0);
    let mut try_u = |u: &[f64]| {
        let q = form(u);
        if !(q <= worst.1) {
            worst = (u.to_vec(), q);
        }
    };
    let k = fine.max(3);
    for t in 0..k {
        let s = s0 + (s1 - s0) * t as f64 / (k - 1) as f64;
        let r = (1.0 - s * s).max(0.0).sqrt();
        for w in &basis {
            for sg in [1.0, -1.0] {
                let u: Vec<f64> = (0..n).map(|i| s * a[i] + sg * r * w[i]).collect();
                try_u(&u);
            }
        }
        if n > 2 && r > 0.0 {
            // ascent over the sphere slice: w <- normalised perpendicular gradient
            let mut w = vec![0.0; n];
            for (bi, b) in basis.iter().enumerate() {
                for i in 0..n {
                    w[i] += b[i] * (1.0 + 0.3 * bi as f64);
                }
            }
            for _ in 0..4 {
                let nw = norm(&w);
                if !(nw > 0.0) {
                    break;
                }
                for v in w.iter_mut() {
                    *v /= nw;
                }
                let u: Vec<f64> = (0..n).map(|i| s * a[i] + r * w[i]).collect();
                try_u(&u);
                // gradient of form in u: 2 L^T P'^-1 (L u - dx)
                let mut y = lmul(&l, &u);
                for i in 0..n {
                    y[i] -= dx[i];
                }
                let z = fsub(&l2, &y);
                // back substitution L2^T q = z
                let mut q = z.clone();
                for i in (0..n).rev() {
                    for kx in i + 1..n {
                        q[i] -= l2[kx * n + i] * q[kx];
                    }
                    q[i] /= l2[i * n + i];
                }
                let gr = ltmul(&l, &q);
                let pa = dot(&gr, &a);
                for i in 0..n {
                    w[i] = gr[i] - pa * a[i];
                }
            }
        }
    }
    if s0 <= -1.0 {
        let u: Vec<f64> = a.iter().map(|v| -v).collect();
        try_u(&u);
    }
    if s1 >= 1.0 {
        try_u(&a.clone());
    }
    let (u, q) = worst;
    if q.is_nan() || q > 1.0 + tol {
        let y = lmul(&l, &u);
        let x = (0..n).map(|i| old.xc[i] + y[i]).collect();
        Err((x, q))
    } else {
        Ok(q)
    }
}

pub fn logvol(p: &[f64], n: usize) -> Option<f64> {
    chol(p, n).map(|l| (0..n).map(|i| l[i * n + i].ln()).sum())
}

/// log volume ratio of the smallest ellipsoid of the pencil
/// |u|^2 - 1 + lambda (s + a0)(s + a1) <= 0, lambda >= 0 (numerical line search).
pub fn best_logratio(n: usize, a0: f64, a1: f64) -> f64 {
    let nf = n as f64;
    let f = |lam: f64| {
        let r = (1.0 - lam / (1.0 + lam) * (a0 + a1) * (a0 + a1) / 4.0) + lam * (a1 - a0) * (a1 - a0) / 4.0;
        0.5 * (nf * r.ln() - (1.0 + lam).ln())
    };
    // coarse scan in log space, then golden section
    let mut best = (f(0.0), 0.0, 0usize);
    let grid: Vec<f64> = (0..=200).map(|k| 10f64.powf(-8.0 + k as f64 * 0.1)).collect();
    for (k, &x) in grid.iter().enumerate() {
        let v = f(x);
        if v < best.0 {
            best = (v, x, k);
        }
    }
    if best.1 == 0.0 {
        return best.0;
    }
    let mut lo = if best.2 == 0 { 0.0 } else { grid[best.2 - 1] };
    let mut hi = grid[(best.2 + 1).min(200)];
    for _ in 0..80 {
        let m1 = lo + (hi - lo) * 0.382;
        let m2 = lo + (hi - lo) * 0.618;
        if f(m1) < f(m2) {
            hi = m2;
        } else {
            lo = m1;
        }
    }
    f(0.5 * (lo + hi)).min(best.0)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mon {
    Contain,
    Volume,
    Status,
    Shape,
    Lock,
    Invar,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub n: usize,
    pub init: (String, f64, Vec<f64>, Vec<f64>),
    /// which systems run in lock step: 'e' Ell, 'n' Ell without the deferral trick, 's' EllStable
    pub sys: &'static str,
    pub first: Vec<Letter>,
    pub rest: Vec<Letter>,
    pub depth: usize,
    pub dirs: Vec<Vec<f64>>,
}

struct Run<'a> {
    job: &'a Job,
    mon: Mon,
    path: Vec<(Cut, St)>,
}

fn mk_systems(job: &Job) -> Vec<Sp> {
    let (_, k, m, x) = &job.init;
    job.sys
        .chars()
        .map(|ch| match ch {
            'e' => mk_ell(*k, m, x, false),
            'n' => mk_ell(*k, m, x, true),
            _ => mk_stable(*k, m, x),
        })
        .collect()
}

impl Run<'_> {
    fn desc(&self) -> String {
        format!(
            "systems={} n={} initial kappa={:?} M={:?} xc={:?} history={:?}",
            self.job.sys, self.job.n, self.job.init.1, self.job.init.2, self.job.init.3, self.path
        )
    }
    fn step(&mut self, c: &mut Ctx, sys: &[Sp], snap: &Snap, depth: usize, letters: &[Letter]) {
        let n = self.job.n;
        for le in letters {
            if c.stopped() {
                return;
            }
            let g = &self.job.dirs[le.dir];
            let tau2 = quad(&snap.p, g);
            let tau = tau2.sqrt();
            let cut = le.cut(g, tau);
            let mut next: Vec<Sp> = sys.to_vec();
            let mut res = vec![];
            for s in next.iter_mut() {
                c.transitions += 1;
                res.push(s.apply(&cut));
            }
            self.path.push((cut.clone(), res[0].0));
            let new = next[0].snap();
            c.states += 1;
            self.check(c, sys, &next, &res, snap, &new, le, &cut, tau2);
            if c.stopped() {
                return;
            }
            let ok = resolvable(&new, n, 1e9);
            if depth > 1 && ok && (res[0].0 == St::Success || self.mon == Mon::Lock || depth == 2) {
                let rest = self.job.rest.clone();
                self.step(c, &next, &new, depth - 1, &rest);
            } else {
                c.traces += 1;
                c.sample(|| self.desc());
            }
            self.path.pop();
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn check(
        &self,
        c: &mut Ctx,
        sys: &[Sp],
        next: &[Sp],
        res: &[(St, f64)],
        old: &Snap,
        new: &Snap,
        le: &Letter,
        cut: &Cut,
        tau2: f64,
    ) {
        let n = self.job.n;
        let (status, tsq) = res[0];
        let (lo, hi) = cut.interval();
        match self.mon {
            Mon::Contain => {
                if status != St::Success {
                    // a refused cut must not be needed for containment: NoSoln only when empty
                    if status == St::NoSoln {
                        let tau = tau2.sqrt();
                        let (s0, s1) = ((lo / tau).max(-1.0), (hi / tau).min(1.0));
                        ensure!(
                            c,
                            s1 - s0 < 1e-7,
                            "cut declared infeasible although points of the search space satisfy it: {}",
                            self.desc()
                        );
                    }
                    // nothing may be lost without an accepted cut
                    if let Err((x, q)) = lost_point(old, &cut.g, f64::NEG_INFINITY, f64::INFINITY, new, 3) {
                        c.fail(format!(
                            "point {:?} of the old search space is outside the new one (squared distance {}) although the cut was refused: {}",
                            x, q, self.desc()
                        ));
                    }
                    return;
                }
                let fine = if n == 2 { 17 } else { 7 };
                if let Err((x, q)) = lost_point(old, &cut.g, lo, hi, new, fine) {
                    c.fail(format!(
                        "point {:?} lies in the old search space and satisfies the cut, but is outside the updated one (squared distance {}): {}",
                        x, q, self.desc()
                    ));
                }
            }
            Mon::Volume => {
                let (v0, v1) = match (logvol(&old.p, n), logvol(&new.p, n)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => {
                        c.fail(format!("updated shape is not an ellipsoid: {}", self.desc()));
                        return;
                    }
                };
                let d = v1 - v0;
                let tol = 1e-8 + 1e-13 * chol(&old.p, n).map(|l| cond_est(&l, n)).unwrap_or(1.0);
                if status != St::Success {
                    ensure!(c, d.abs() <= tol, "volume changed by a refused cut: {}", self.desc());
                    return;
                }
                let a0 = if le.kind == Kind::Central { 0.0 } else { le.a0 };
                let a1 = le.a1.flatten().unwrap_or(1.0).min(1.0);
                ensure!(
                    c,
                    d <= tol,
                    "volume grew (log ratio {}) after an accepted cut: {}",
                    d,
                    self.desc()
                );
                if a0 >= 0.0 {
                    ensure!(
                        c,
                        d <= -1.0 / (2.0 * (n as f64 + 1.0)) + tol,
                        "volume log ratio {} misses the guaranteed shrink factor: {}",
                        d,
                        self.desc()
                    );
                }
                if a0 >= -1.0 {
                    let best = best_logratio(n, a0, a1);
                    ensure!(
                        c,
                        d <= best + 1e-7 + tol && d >= best - 1e-7 - tol,
                        "volume log ratio {} differs from the smallest enclosing ellipsoid's {}: {}",
                        d,
                        best,
                        self.desc()
                    );
                }
            }
            Mon::Status => {
                if let Some(e) = expect_status(le.kind, n, le.a0, le.a1) {
                    ensure!(
                        c,
                        e == status,
                        "verdict {:?}, expected {:?} for offsets a0={} a1={:?} (units of tau): {}",
                        status,
                        e,
                        le.a0,
                        le.a1,
                        self.desc()
                    );
                }
                if status != St::Success {
                    let same = match (&sys[0], &next[0]) {
                        (Sp::E(a), Sp::E(b)) => {
                            a.xc.data() == b.xc.data()
                                && a.mq.data() == b.mq.data()
                                && a.kappa == b.kappa
                        }
                        (a, b) => {
                            a.xc() == b.xc()
                                && old
                                    .p
                                    .iter()
                                    .zip(&new.p)
                                    .enumerate()
                                    .all(|(k, (x, y))| {
                                        let sc = (old.p[k / n * (n + 1)] * old.p[k % n * (n + 1)]).sqrt();
                                        (x - y).abs() <= 1e-9 * sc
                                    })
                        }
                    };
                    ensure!(c, same, "a refused cut ({:?}) modified the search space: {}", status, self.desc());
                } else if le.kind != Kind::Q {
                    ensure!(
                        c,
                        old.xc != new.xc,
                        "an accepted deep or central cut did not move the centre: {}",
                        self.desc()
                    );
                }
            }
            Mon::Shape => {
                let cnd = chol(&old.p, n).map(|l| cond_est(&l, n)).unwrap_or(1.0);
                ensure!(
                    c,
                    rclose(tsq, tau2, 1e-9 + cnd * 1e-14),
                    "reported size {} but gradient-direction half width squared is {}: {}",
                    tsq,
                    tau2,
                    self.desc()
                );
                ensure!(
                    c,
                    new.xc.iter().all(|v| v.is_finite()) && new.p.iter().all(|v| v.is_finite()),
                    "non-finite centre or shape: {}",
                    self.desc()
                );
                for i in 0..n {
                    for j in 0..i {
                        let sc = (new.p[i * n + i] * new.p[j * n + j]).sqrt();
                        ensure!(
                            c,
                            (new.p[i * n + j] - new.p[j * n + i]).abs() <= 1e-11 * sc,
                            "shape matrix not symmetric at ({},{}): {}",
                            i,
                            j,
                            self.desc()
                        );
                    }
                }
                ensure!(c, chol(&new.p, n).is_some(), "shape not positive definite: {}", self.desc());
                if let Sp::E(e) = &next[0] {
                    ensure!(c, e.kappa > 0.0 && e.kappa.is_finite(), "scale factor {}: {}", e.kappa, self.desc());
                    // what the search space reports is what its public fields say
                    let g2 = &self.job.dirs[(le.dir + 1) % self.job.dirs.len()];
                    let (a, b) = (next[0].probe(g2), quad(&new.p, g2));
                    ensure!(
                        c,
                        rclose(a, b, 1e-9 + cnd * 1e-13),
                        "size reported {} differs from its fields' {}: {}",
                        a,
                        b,
                        self.desc()
                    );
                }
            }
            Mon::Lock => {
                let l = match chol(&new.p, n) {
                    Some(l) => l,
                    None => return,
                };
                let cnd = cond_est(&l, n);
                let tol = 1e-7 + 1e-12 * cnd;
                for k in 1..next.len() {
                    ensure!(
                        c,
                        res[k].0 == status,
                        "verdicts differ: {:?} vs {:?}: {}",
                        status,
                        res[k].0,
                        self.desc()
                    );
                    ensure!(
                        c,
                        rclose(res[k].1, tsq, tol),
                        "reported sizes differ: {} vs {}: {}",
                        tsq,
                        res[k].1,
                        self.desc()
                    );
                    let o = next[k].snap();
                    let d: Vec<f64> = o.xc.iter().zip(&new.xc).map(|(a, b)| a - b).collect();
                    let w = fsub(&l, &d);
                    let xs = 1e-12 * norm(&new.xc) / (0..n).map(|i| l[i * n + i]).fold(f64::INFINITY, f64::min);
                    ensure!(
                        c,
                        norm(&w) <= tol + xs,
                        "centres differ: {:?} vs {:?}: {}",
                        new.xc,
                        o.xc,
                        self.desc()
                    );
                    for i in 0..n {
                        for j in 0..n {
                            let sc = (new.p[i * n + i] * new.p[j * n + j]).sqrt();
                            ensure!(
                                c,
                                (o.p[i * n + j] - new.p[i * n + j]).abs() <= tol * sc,
                                "shapes differ at ({},{}): {} vs {}: {}",
                                i,
                                j,
                                new.p[i * n + j],
                                o.p[i * n + j],
                                self.desc()
                            );
                        }
                    }
                }
            }
            Mon::Invar => {
                let l = match chol(&new.p, n) {
                    Some(l) => l,
                    None => return,
                };
                let tol = 1e-7 + 1e-12 * cond_est(&l, n);
                // (1) positive rescaling of the cut describes the same half space
                for s in [0.25, 8.0, 1e-3, 3e3, 1e-17, 1e17] {
                    if !(1e-125..1e125).contains(&(tau2 * s * s)) {
                        continue;
                    }
                    let c2 = Cut {
                        g: cut.g.iter().map(|v| v * s).collect(),
                        kind: cut.kind,
                        beta: match cut.beta {
                            Beta::S(b) => Beta::S(b * s),
                            Beta::P(b0, b1) => Beta::P(b0 * s, b1.map(|b| b * s)),
                        },
                    };
                    let mut q = sys[0].clone();
                    c.transitions += 1;
                    let (s2, t2) = q.apply(&c2);
                    ensure!(c, s2 == status, "verdict changed by rescaling the cut by {}: {:?} vs {:?}: {}", s, status, s2, self.desc());
                    ensure!(c, rclose(t2, tsq * s * s, tol), "size not quadratic in the cut scale {}: {}", s, self.desc());
                    self.same(c, new, &q.snap(), &l, tol, "rescaling the cut");
                    if c.stopped() {
                        return;
                    }
                }
                let diag = is_diag(&old.p, n);
                // (2) translation of the centre
                // (3) uniform scaling of space: x -> s x
                for (s, shift) in [(16.0, 3.0), (1.0 / 1048576.0, 0.0), (1e-18, 0.0), (1e18, 0.0)] {
                if !(1e-125..1e125).contains(&(tau2 * s * s)) {
                    continue;
                }
                let sc_old = Snap {
                    xc: old.xc.iter().map(|v| v * s + shift).collect(),
                    p: old.p.iter().map(|v| v * s * s).collect(),
                };
                if !matches!(sys[0], Sp::S(_)) || diag {
                    let mut q = match &sys[0] {
                        Sp::E(e) => mk_ell(1.0, &sc_old.p, &sc_old.xc, e.no_defer_trick),
                        Sp::S(_) => mk_stable(1.0, &sc_old.p, &sc_old.xc),
                    };
                    let c2 = Cut {
                        g: cut.g.clone(),
                        kind: cut.kind,
                        beta: match cut.beta {
                            Beta::S(b) => Beta::S(b * s),
                            Beta::P(b0, b1) => Beta::P(b0 * s, b1.map(|b| b * s)),
                        },
                    };
                    c.transitions += 1;
                    let (s2, _) = q.apply(&c2);
                    ensure!(c, s2 == status, "verdict changed by scaling space: {:?} vs {:?}: {}", status, s2, self.desc());
                    let o = q.snap();
                    let back = Snap {
                        xc: o.xc.iter().map(|v| (v - shift) / s).collect(),
                        p: o.p.iter().map(|v| v / s / s).collect(),
                    };
                    self.same(c, new, &back, &l, tol, "scaling and translating space");
                    if c.stopped() {
                        return;
                    }
                }
                }
                if !matches!(sys[0], Sp::S(_)) || diag {
                    // (4) relabelling of coordinates (reversal)
                    let rv = |v: &[f64]| -> Vec<f64> { v.iter().rev().cloned().collect() };
                    let rp = |p: &[f64]| -> Vec<f64> { p.iter().rev().cloned().collect() };
                    let mut q = match &sys[0] {
                        Sp::E(e) => mk_ell(1.0, &rp(&old.p), &rv(&old.xc), e.no_defer_trick),
                        Sp::S(_) => mk_stable(1.0, &rp(&old.p), &rv(&old.xc)),
                    };
                    let c2 = Cut {
                        g: rv(&cut.g),
                        kind: cut.kind,
                        beta: cut.beta,
                    };
                    c.transitions += 1;
                    let (s2, _) = q.apply(&c2);
                    ensure!(c, s2 == status, "verdict changed by relabelling coordinates: {:?} vs {:?}: {}", status, s2, self.desc());
                    let o = q.snap();
                    let back = Snap {
                        xc: rv(&o.xc),
                        p: rp(&o.p),
                    };
                    self.same(c, new, &back, &l, tol, "relabelling coordinates");
                }
            }
        }
    }
    fn same(&self, c: &mut Ctx, a: &Snap, b: &Snap, l: &[f64], tol: f64, what: &str) {
        let n = self.job.n;
        let d: Vec<f64> = a.xc.iter().zip(&b.xc).map(|(p, q)| p - q).collect();
        let w = fsub(l, &d);
        let xs = 1e-12 * (3.0 + norm(&a.xc)) / (0..n).map(|i| l[i * n + i]).fold(f64::INFINITY, f64::min);
        ensure!(c, norm(&w) <= tol + xs, "centre changed by {}: {:?} vs {:?}: {}", what, a.xc, b.xc, self.desc());
        for i in 0..n {
            for j in 0..n {
                let sc = (a.p[i * n + i] * a.p[j * n + j]).sqrt();
                ensure!(
                    c,
                    (a.p[i * n + j] - b.p[i * n + j]).abs() <= tol * sc,
                    "shape changed by {}: {:?} vs {:?}: {}",
                    what,
                    a.p,
                    b.p,
                    self.desc()
                );
            }
        }
    }
}

/// The ellipsoid is well conditioned and not yet as small as the rounding of its centre.
fn resolvable(s: &Snap, n: usize, cmax: f64) -> bool {
    match chol(&s.p, n) {
        Some(l) => {
            let mn = (0..n).map(|i| l[i * n + i]).fold(f64::INFINITY, f64::min);
            cond_est(&l, n) < cmax && mn > 1e-6 * norm(&s.xc)
        }
        None => false,
    }
}

fn run_job(c: &mut Ctx, job: &Job, mon: Mon) {
    let sys = mk_systems(job);
    let snap = sys[0].snap();
    c.states += 1;
    let mut r = Run {
        job,
        mon,
        path: vec![],
    };
    let first = job.first.clone();
    r.step(c, &sys, &snap, job.depth, &first);
}

/// Split a job over its first letter so that the work queue can balance.
fn split(job: Job, chunk: usize) -> Vec<Job> {
    job.first
        .chunks(chunk.max(1))
        .map(|ch| Job {
            first: ch.to_vec(),
            ..job.clone()
        })
        .collect()
}

fn jobs(c: &mut Ctx, systems: &[&'static str], mon: Mon) -> Vec<Job> {
    let th = c.thorough;
    let mut out = vec![];
    let heavy = matches!(mon, Mon::Lock | Mon::Invar);
    // (dim, letter set, dirs, depth, number of initial ellipsoids)
    let mut plan: Vec<(usize, &str, usize, usize, usize)> = vec![
        (2, "full", 9, 1, 11),
        (3, "full", 9, 1, 11),
        (4, "full", 9, 1, 11),
        (5, "full", 9, 1, 11),
        (6, "full", 9, 1, 5),
        (7, "full", 5, 1, 5),
        (8, "full", 9, 1, 5),
        (2, "extreme", 9, 1, 2),
        (3, "extreme", 9, 1, 2),
        (4, "extreme", 7, 1, 2),
        (5, "extreme", 7, 1, 2),
        (8, "extreme", 5, 1, 2),
        (17, "extreme", 2, 1, 1),
        (9, "mid", 4, 1, 2),
        (10, "mid", 4, 1, 2),
        (12, "full", 3, 1, 1),
        (17, "full", 2, 1, 1),
        (33, "mid", 2, 1, 1),
        (65, "small", 1, 1, 1),
        (40, "small", 2, 2, 1),
        (2, "full", 3, 2, 1),
        (2, "mid", 4, 2, 11),
        (3, "mid", 4, 2, 11),
        (4, "mid", 3, 2, 11),
        (6, "mid", 3, 2, 1),
        (2, "mid", 2, 3, 2),
        (3, "mid", 2, 3, 1),
        (4, "small", 3, 4, 1),
        (2, "small", 2, 6, 1),
        (3, "small", 2, 5, 1),
        (5, "small", 2, 4, 1),
        (16, "small", 2, 2, 1),
        (2, "sweep", 1, 1, 1),
        (3, "sweep", 1, 1, 1),
        (4, "sweep", 1, 1, 1),
        (5, "sweep", 2, 1, 1),
        (7, "sweep", 1, 1, 1),
        (10, "sweep", 1, 1, 1),
    ];
    for n in 9..=if th { 100 } else { 66 } {
        plan.push((n, "dims", if n < 24 { 2 } else { 1 }, 1, 1));
    }
    for n in 9..=if th { 24 } else { 13 } {
        plan.push((n, "dims", 2, 2, 1));
    }
    if th {
        plan.extend([
            (2, "sweep", 5, 1, 5),
            (3, "sweep", 3, 1, 5),
            (4, "sweep", 2, 1, 5),
            (6, "sweep", 2, 1, 1),
            (2, "full", 5, 2, 5),
            (3, "full", 5, 2, 5),
            (4, "full", 4, 2, 2),
            (5, "full", 3, 2, 1),
            (2, "mid", 4, 3, 5),
            (3, "mid", 4, 3, 2),
            (4, "mid", 4, 3, 1),
            (6, "mid", 3, 3, 1),
            (2, "mid", 2, 4, 1),
            (3, "mid", 2, 4, 1),
            (2, "small", 3, 6, 1),
            (2, "small", 2, 8, 1),
            (3, "small", 3, 6, 1),
            (4, "small", 3, 5, 1),
            (6, "small", 3, 5, 1),
            (10, "mid", 4, 2, 2),
            (24, "mid", 4, 2, 1),
            (16, "small", 4, 4, 1),
        ]);
    }
    if c.deep {
        plan.extend([
            (2, "full", 9, 2, 6),
            (3, "full", 6, 2, 5),
            (5, "full", 5, 2, 2),
            (2, "mid", 3, 4, 2),
            (3, "mid", 3, 4, 1),
            (4, "small", 3, 6, 1),
            (5, "small", 3, 6, 1),
            (12, "dims", 2, 3, 1),
            (33, "dims", 2, 2, 1),
        ]);
    }
    for (n, set, nd, depth, ni) in plan {
        let d = dirs(n, nd);
        let nd = d.len();
        let ls = match set {
            "full" => letters_full(n, nd),
            "extreme" => letters_extreme(nd),
            "mid" => letters_mid(n, nd),
            "dims" => letters_dims(n, nd),
            "sweep" => (0..nd).flat_map(|d| letters_sweep(n, d, th)).collect(),
            _ => letters_small(n, nd),
        };
        for init in inits(n, ni) {
            for s in systems {
                if s.contains('s') && !is_diag(&init.2, n) {
                    continue;
                }
                if heavy && n > if th { 80 } else { 66 } && s.contains('s') {
                    continue;
                }
                c.bound(format!(
                    "all cut histories of length {} over {} letters ({} set, {} directions), dimension {}",
                    depth,
                    ls.len(),
                    set,
                    nd,
                    n
                ));
                let chunk = if depth == 1 && n <= 16 && set != "sweep" {
                    ls.len()
                } else if set == "sweep" {
                    120
                } else {
                    1
                };
                out.extend(split(
                    Job {
                        n,
                        init: init.clone(),
                        sys: s,
                        first: ls.clone(),
                        rest: if depth > 1 { ls.clone() } else { vec![] },
                        depth,
                        dirs: d.clone(),
                    },
                    chunk,
                ));
            }
        }
    }
    out
}

/// Long histories: every periodic word over a small alphabet, repeated.
fn long_runs(c: &mut Ctx, systems: &[&'static str], mon: Mon) {
    let th = c.thorough;
    #[derive(Debug)]
    struct LJ {
        job: Job,
        word: Vec<usize>,
        len: usize,
        recentre: bool,
    }
    let mut items = vec![];
    // (dim, directions, word length, cuts, move the centre back to the origin after every cut)
    let mut plan: Vec<(usize, usize, usize, usize, bool)> = vec![
        (2, 2, 3, 60, false),
        (3, 3, 2, 90, false),
        (4, 3, 2, 90, false),
        (6, 4, 1, 120, false),
        (9, 6, 1, 160, false),
        (2, 4, 2, 1200, true),
        (3, 5, 2, 800, true),
        (4, 6, 2, 800, true),
        (5, 7, 1, 600, true),
        (8, 10, 1, 600, true),
        (12, 16, 1, 400, true),
    ];
    if th {
        plan.extend([
            (2, 3, 3, 150, false),
            (3, 3, 3, 200, false),
            (4, 4, 2, 250, false),
            (6, 4, 2, 300, false),
            (9, 6, 2, 300, false),
            (2, 5, 3, 3000, true),
            (3, 5, 3, 2000, true),
            (4, 7, 3, 2000, true),
            (6, 9, 2, 2000, true),
            (10, 14, 2, 2000, true),
            (20, 25, 1, 1000, true),
        ]);
    }
    for (n, nd, wl, len, recentre) in plan {
        let d = dirs(n, nd);
        // letter k of a word picks the cut shape; the direction rotates through all of d
        let shapes = letters_small(n, 1);
        c.bound(format!(
            "all periodic cut-shape words of length <= {} over {} shapes x {} rotating directions, repeated to {} cuts{}, dimension {}",
            wl, shapes.len(), d.len(), len, if recentre { " (centre moved back after each)" } else { "" }, n
        ));
        for l in 1..=wl {
            for w in words(shapes.len(), l) {
                for s in systems {
                    for init in inits(n, 1) {
                        items.push(LJ {
                            job: Job {
                                n,
                                init,
                                sys: s,
                                first: shapes.clone(),
                                rest: vec![],
                                depth: 1,
                                dirs: d.clone(),
                            },
                            word: w.clone(),
                            len,
                            recentre,
                        });
                    }
                }
            }
        }
    }
    c.par(items, |c, it| {
        let job = &it.job;
        let mut sys = mk_systems(job);
        let mut snap = sys[0].snap();
        let mut r = Run {
            job,
            mon,
            path: vec![],
        };
        let mut done = 0;
        for k in 0..if mon == Mon::Lock { it.len.min(160) } else { it.len } {
            let mut le = job.first[it.word[k % it.word.len()]];
            le.dir = (k * 5 + k / 7) % job.dirs.len();
            let g = &job.dirs[le.dir];
            let tau2 = quad(&snap.p, g);
            let cut = le.cut(g, tau2.sqrt());
            let mut next = sys.clone();
            let mut res = vec![];
            for s in next.iter_mut() {
                c.transitions += 1;
                res.push(s.apply(&cut));
            }
            r.path.push((cut.clone(), res[0].0));
            let mut new = next[0].snap();
            c.states += 1;
            r.check(c, &sys, &next, &res, &snap, &new, &le, &cut, tau2);
            if c.stopped() {
                return;
            }
            if it.recentre {
                for s in next.iter_mut() {
                    s.set_xc(&vec![0.0; job.n]);
                }
                new.xc = vec![0.0; job.n];
            }
            if !resolvable(&new, job.n, 1e8) || new.p[0] < 1e-75 {
                break;
            }
            done = k + 1;
            sys = next;
            snap = new;
        }
        c.traces += 1;
        c.sample(|| format!("word {:?} to {} of {} cuts n={}", it.word, done, it.len, job.n));
    });
}

pub fn explore(c: &mut Ctx, systems: &[&'static str], mon: Mon) {
    let js = jobs(c, systems, mon);
    c.par(js, |c, j| run_job(c, j, mon));
    if !c.stopped() {
        long_runs(c, systems, mon);
    }
}

pub fn c01(c: &mut Ctx) {
    explore(c, &["e", "n", "s"], Mon::Contain);
    if c.stopped() {
        return;
    }
    tangent(c, false);
}
pub fn c02(c: &mut Ctx) {
    explore(c, &["e", "n", "s"], Mon::Volume);
    if c.stopped() {
        return;
    }
    thin(c);
}
/// Extremely deep cuts and thin slabs along the axes of a ball, where nothing cancels: half widths of the result.
fn thin(c: &mut Ctx) {
    let mut cuts: Vec<(f64, f64)> = vec![];
    for k in 1..=9 {
        let w = 10f64.powi(-k);
        cuts.push((1.0 - w, 1.0));
        for a in [0.0, 0.25, 0.5, 0.9] {
            cuts.push((a, a + w * 0.1));
        }
        cuts.push((-w, w));
        cuts.push((-0.5, -0.5 + w));
        cuts.push((1.0 - w, 1.0 - w / 3.0));
    }
    c.bound(format!("{} cuts down to a relative depth or width of 1e-10 along every axis of balls in dimensions 2..8, 20, both spaces: half widths of the result along and across", cuts.len()));
    for n in (2usize..=8).chain([20]) {
        for sys in ["e", "n", "s"] {
            for ax in 0..n {
                for scale in [1.0, 1e-12, 1e9] {
                    for &(a0, a1) in &cuts {
                        for kind in [Kind::Bias, Kind::Q] {
                            let single = a1 == 1.0;
                            if a0 < 0.0 && kind == Kind::Bias {
                                continue;
                            }
                            let eye: Vec<f64> = (0..n * n).map(|k| (k % (n + 1) == 0) as u8 as f64).collect();
                            let x0 = vec![0.0; n];
                            let mut s = match sys {
                                "s" => mk_stable(scale, &eye, &x0),
                                k => mk_ell(scale, &eye, &x0, k == "n"),
                            };
                            let mut g = vec![0.0; n];
                            g[ax] = 1.0;
                            let tau = scale.sqrt();
                            let cut = Cut { g: g.clone(), kind, beta: if single { Beta::S(a0 * tau) } else { Beta::P(a0 * tau, Some(a1 * tau)) } };
                            let (r, _) = s.apply(&cut);
                            c.states += 1;
                            c.transitions += 1;
                            c.traces += 1;
                            let nf = n as f64;
                            let lam = crate::calc::ref_lambda(nf, a0, a1);
                            let (h, m2) = ((a1 - a0) * (a1 - a0) / 4.0, (a0 + a1) * (a0 + a1) / 4.0);
                            let delta = 1.0 + lam * h - lam / (1.0 + lam) * m2;
                            // 1 - sigma and the scale are differences from 1: their rounding is all that is granted
                            let tol = 1e-6 + 1e-14 * (1.0 + lam) + 1e-14 / delta;
                            if tol > 0.05 {
                                continue;
                            }
                            let along = s.probe(&g) / scale;
                            let mut p = vec![0.0; n];
                            p[(ax + 1) % n] = 1.0;
                            let across = s.probe(&p) / scale;
                            let (wa, wc) = (delta / (1.0 + lam), delta);
                            ensure!(
                                c,
                                r == St::Success && rclose(along, wa, tol) && rclose(across, wc, tol),
                                "unit ball in dimension {} scaled by {:e}, {:?} cut along axis {} with offsets {:e}, {:e} (units of the half width), space '{}': verdict {:?}, squared half widths {:e} along and {:e} across, the smallest ellipsoid has {:e} and {:e}",
                                n, scale, kind, ax, a0, a1, sys, r, along, across, wa, wc
                            );
                        }
                    }
                }
            }
        }
    }
}
pub fn c03(c: &mut Ctx) {
    explore(c, &["e", "n", "s"], Mon::Status);
    if c.stopped() {
        return;
    }
    tangent(c, true);
}
pub fn c04(c: &mut Ctx) {
    explore(c, &["e", "n", "s"], Mon::Shape);
    if c.stopped() {
        return;
    }
    ctors(c);
    if c.stopped() {
        return;
    }
    copies(c);
}
pub fn c05(c: &mut Ctx) {
    explore(c, &["en"], Mon::Lock);
}
pub fn c06(c: &mut Ctx) {
    explore(c, &["es", "ns"], Mon::Lock);
}
pub fn c08(c: &mut Ctx) {
    explore(c, &["e", "n", "s"], Mon::Invar);
}

/// Boundary verdicts with exactly representable numbers: kappa, M, g and beta are powers of two
/// or small integers, so the half width tau is exact however the products are ordered.
fn tangent(c: &mut Ctx, status: bool) {
    let mut items = vec![];
    for n in [2usize, 3, 4, 5, 8] {
        for axis in 0..n {
            for (k, sc) in [(1.0, 1.0), (4.0, 0.5), (16.0, 2.0), (0.25, 1.0)] {
                for sys in ['e', 'n', 's'] {
                    items.push((n, axis, k, sc, sys));
                }
            }
        }
    }
    c.bound("exact boundary cuts (tangent plane, zero-width slab, offsets 0 and tau, no-effect boundary) on every axis, dimensions 2..8");
    c.par(items, |c, &(n, axis, k, sc, sys)| {
        let m: Vec<f64> = (0..n * n).map(|q| if q % (n + 1) == 0 { 1.0 } else { 0.0 }).collect();
        let xc = vec![1.0; n];
        let tau = (k as f64).sqrt() * sc;
        let mut g = vec![0.0; n];
        g[axis] = sc;
        let nf = n as f64;
        use Kind::*;
        // (kind, beta, expected verdict)
        let mut cases: Vec<(Kind, Beta, St)> = vec![
            (Bias, Beta::S(tau), St::Success),
            (Bias, Beta::P(tau, None), St::Success),
            (Bias, Beta::S(tau * 1.0625), St::NoSoln),
            (Bias, Beta::P(tau * 0.5, Some(tau * 0.5)), St::Success),
            (Bias, Beta::P(tau * 0.5, Some(tau)), St::Success),
            (Bias, Beta::P(0.0, Some(tau)), St::Success),
            (Bias, Beta::P(tau, Some(tau)), St::Success),
            (Central, Beta::P(0.0, Some(tau)), St::Success),
            (Central, Beta::P(0.0, Some(0.0)), St::Success),
            (Q, Beta::S(tau), St::Success),
            (Q, Beta::S(0.0), St::Success),
            (Q, Beta::P(tau * 0.5, Some(tau)), St::Success),
            (Q, Beta::P(tau * 0.5, Some(tau * 0.5)), St::Success),
            (Q, Beta::P(-tau * 0.5, Some(-tau * 0.5)), St::Success),
            (Q, Beta::P(-tau * 0.5, Some(tau)), if n > 2 { St::NoEffect } else { St::Success }),
            (Q, Beta::P(0.0, Some(tau)), St::Success),
            (Q, Beta::P(0.0, Some(tau * 0.5)), St::Success),
        ];
        if n == 4 || n == 8 || n == 2 {
            // exactly at the point where the cut stops helping: nothing may change
            cases.push((Q, Beta::S(-tau / nf), St::Success));
            cases.push((Q, Beta::P(-tau / nf, Some(tau)), St::Success));
        }
        for (kind, beta, want) in cases {
            let mut s = match sys {
                'e' => mk_ell(k, &m, &xc, false),
                'n' => mk_ell(k, &m, &xc, true),
                _ => mk_stable(k, &m, &xc),
            };
            let cut = Cut {
                g: g.clone(),
                kind,
                beta,
            };
            let old = s.snap();
            let (got, tsq) = s.apply(&cut);
            c.states += 1;
            c.transitions += 1;
            c.traces += 1;
            let d = format!("system={} n={} kappa={} cut={:?}", sys, n, k, cut);
            if status {
                // at the no-effect boundary either verdict is right as long as nothing changes
                let boundary = matches!(beta, Beta::S(b) if kind == Q && b == -tau / nf)
                    || matches!(beta, Beta::P(b, Some(_)) if kind == Q && b == -tau / nf);
                ensure!(
                    c,
                    got == want || (boundary && got == St::NoEffect),
                    "verdict {:?}, expected {:?} at an exact boundary: {}",
                    got,
                    want,
                    d
                );
                ensure!(c, rclose(tsq, tau * tau, 1e-12), "size {} expected {}: {}", tsq, tau * tau, d);
            } else {
                // the touching point itself (or a point of the slab) must stay inside
                let (lo, hi) = cut.interval();
                if got == St::Success {
                    let new_x = s.xc();
                    // points of the region: tangent point along the axis, clipped to the slab
                    let mut smax = (hi / tau).min(1.0);
                    let smin = (lo / tau).max(-1.0);
                    if smax > 1.0 {
                        smax = 1.0;
                    }
                    for t in 0..5 {
                        let sv = smin + (smax - smin) * t as f64 / 4.0;
                        // offset from the new centre along the axis in units of sqrt(kappa)
                        let x = xc[axis] + sv * (k as f64).sqrt();
                        let off = x - new_x[axis];
                        // half width of the new space along the axis
                        let mut e = vec![0.0; n];
                        e[axis] = 1.0;
                        let hw = s.probe(&e).max(0.0).sqrt();
                        ensure!(
                            c,
                            off.is_finite() && hw.is_finite() && off.abs() <= hw + 1e-7 * (k as f64).sqrt(),
                            "point at {} along the axis is lost (new centre {:?}, half width {}): {}",
                            x,
                            new_x,
                            hw,
                            d
                        );
                    }
                } else if got == St::NoSoln {
                    let (s0, s1) = ((lo / tau).max(-1.0), (hi / tau).min(1.0));
                    ensure!(c, s0 > s1, "declared infeasible although a point satisfies the cut: {}", d);
                }
                let _ = &old;
            }
        }
    });
}

/// A copy is an independent space in the same state; moving the centre changes nothing else.
fn copies(c: &mut Ctx) {
    let mut items = vec![];
    let dmax = if c.thorough { 4 } else { 3 };
    for n in [2usize, 3, 4, 6] {
        for ini in 0..4 {
            for sys in ["e", "n", "s"] {
                items.push((n, ini, sys));
            }
        }
    }
    c.bound(format!(
        "copy and centre move after every history of 0..{} cuts (8 letters), dimensions 2,3,4,6, 4 initial ellipsoids",
        dmax
    ));
    fn flag(s: &Sp) -> bool {
        match s {
            Sp::E(e) => e.no_defer_trick,
            _ => false,
        }
    }
    fn tsq(s: &Sp) -> f64 {
        match s {
            Sp::E(e) => e.tsq(),
            Sp::S(e) => e.tsq(),
        }
    }
    c.par(items, |c, &(n, ini, sys)| {
        let d = dirs(n, 2);
        let ls = letters_small(n, 2);
        let init = inits(n, 4).remove(ini);
        for len in 0..=dmax {
            for w in words(ls.len(), len) {
                let mut s = match sys {
                    "e" => mk_ell(init.1, &init.2, &init.3, false),
                    "n" => mk_ell(init.1, &init.2, &init.3, true),
                    _ => mk_stable(init.1, &init.2, &init.3),
                };
                for &k in &w {
                    let g = &d[ls[k].dir];
                    let t = s.probe(g);
                    c.transitions += 1;
                    s.apply(&ls[k].cut(g, t.sqrt()));
                }
                c.states += 1;
                c.traces += 1;
                let what = || format!("system={} n={} initial={:?} letters={:?} of {:?}", sys, n, init, w, ls);
                let base = s.snap();
                let mut cp = s.clone();
                ensure!(c, cp.xc() == s.xc(), "a copy has centre {:?}, the original {:?}: {}", cp.xc(), s.xc(), what());
                ensure!(c, tsq(&cp) == tsq(&s), "a copy reports size {}, the original {}: {}", tsq(&cp), tsq(&s), what());
                ensure!(c, flag(&cp) == flag(&s), "a copy has another update mode: {}", what());
                ensure!(c, cp.snap().p == base.p, "a copy has another shape: {}", what());
                let mut mv = s.clone();
                let to: Vec<f64> = (0..n).map(|i| 4.0 - 3.0 * i as f64).collect();
                mv.set_xc(&to);
                ensure!(c, mv.xc() == to, "centre moved to {:?} instead of {:?}: {}", mv.xc(), to, what());
                ensure!(c, tsq(&mv) == tsq(&s), "moving the centre changed the reported size {} to {}: {}", tsq(&s), tsq(&mv), what());
                ensure!(c, flag(&mv) == flag(&s), "moving the centre changed the update mode: {}", what());
                ensure!(c, mv.snap().p == base.p, "moving the centre changed the shape: {}", what());
                if len == dmax {
                    continue;
                }
                for le in &ls {
                    let g = &d[le.dir];
                    let cut = le.cut(g, s.probe(g).sqrt());
                    let (mut a, mut b, mut m) = (s.clone(), cp.clone(), mv.clone());
                    c.transitions += 3;
                    let (ra, rb, rm) = (a.apply(&cut), b.apply(&cut), m.apply(&cut));
                    ensure!(c, ra == rb && ra == rm, "results {:?}, on the copy {:?}, after a centre move {:?} for {:?}: {}", ra, rb, rm, cut, what());
                    let (pa, pb, pm) = (a.snap(), b.snap(), m.snap());
                    ensure!(c, pa.xc == pb.xc && pa.p == pb.p, "the copy evolves differently under {:?}: {}", cut, what());
                    ensure!(c, pa.p == pm.p, "the moved space evolves differently under {:?}: {}", cut, what());
                    for i in 0..n {
                        let (u, v) = (pa.xc[i] - base.xc[i], pm.xc[i] - to[i]);
                        let sc = pa.xc[i].abs() + base.xc[i].abs() + pm.xc[i].abs() + to[i].abs();
                        ensure!(c, (u - v).abs() <= 1e-12 * sc, "centre step {} became {} after a centre move under {:?}: {}", u, v, cut, what());
                    }
                    // the original has not been touched
                    ensure!(c, s.xc() == base.xc && s.snap().p == base.p, "cutting a copy changed the original: {}", what());
                }
                // and the copy is not touched when the original goes on
                let keep = cp.snap();
                let g = &d[0];
                s.apply(&ls[0].cut(g, s.probe(g).sqrt()));
                cp.set_xc(&keep.xc);
                ensure!(c, cp.snap().p == keep.p, "cutting the original changed a copy: {}", what());
            }
        }
    });
}

/// every constructor yields the ellipsoid it documents
fn ctors(c: &mut Ctx) {
    c.bound("all constructors x dimensions 2..6 x scales 1e-40..1e40 x centres");
    let mut items = vec![];
    for n in 2usize..=6 {
        for e in [-40i32, -16, -9, -6, -3, -1, 0, 1, 3, 6, 9, 16, 40] {
            items.push((n, 10f64.powi(e)));
        }
    }
    c.par(items, |c, &(n, s)| {
        let val: Vec<f64> = (0..n).map(|i| s * (1.0 + i as f64)).collect();
        let xc: Vec<f64> = (0..n).map(|i| i as f64 - 0.5).collect();
        let a = || Arr::from(xc.clone());
        let diag = |d: &dyn Fn(usize) -> f64| -> Vec<f64> {
            let mut m = vec![0.0; n * n];
            for i in 0..n {
                m[i * n + i] = d(i);
            }
            m
        };
        let mut full = diag(&|i| s * (2.0 + i as f64));
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    full[i * n + j] = 0.25 * s;
                }
            }
        }
        let want_val = diag(&|i| val[i]);
        let want_s = diag(&|_| s);
        let cases: Vec<(&str, Sp, Vec<f64>)> = vec![
            ("Ell::new", Sp::E(Ell::new(Arr::from(val.clone()), a())), want_val.clone()),
            ("Ell::new_with_scalar", Sp::E(Ell::new_with_scalar(s, a())), want_s.clone()),
            (
                "Ell::new_with_matrix",
                Sp::E(Ell::new_with_matrix(2.0, Arr::with_data(full.clone(), n, n), a())),
                full.iter().map(|v| 2.0 * v).collect(),
            ),
            (
                "Ell::from_covariance",
                Sp::E(Ell::from_covariance(Arr::with_data(full.clone(), n, n), a())),
                full.clone(),
            ),
            ("EllStable::new", Sp::S(EllStable::new(Arr::from(val.clone()), a())), want_val.clone()),
            ("EllStable::new_with_scalar", Sp::S(EllStable::new_with_scalar(s, a())), want_s),
            (
                "EllStable::new_with_matrix",
                Sp::S(EllStable::new_with_matrix(2.0, Arr::with_data(want_val.clone(), n, n), a())),
                want_val.iter().map(|v| 2.0 * v).collect(),
            ),
        ];
        for (name, sp, want) in cases {
            c.states += 1;
            c.traces += 1;
            ensure!(c, sp.xc() == xc, "{} centre {:?} expected {:?}", name, sp.xc(), xc);
            let got = sp.probe_shape();
            c.transitions += 1;
            for i in 0..n * n {
                ensure!(
                    c,
                    (got[i] - want[i]).abs() <= 1e-9 * s * n as f64 * 4.0,
                    "{} (scale {}) has shape {:?}, expected {:?}",
                    name,
                    s,
                    got,
                    want
                );
            }
            let t0 = match &sp {
                Sp::E(e) => e.tsq(),
                Sp::S(e) => e.tsq(),
            };
            ensure!(c, t0 == 0.0, "{} starts with size {}", name, t0);
            // set_xc moves the centre and nothing else; clones are independent
            let moved: Vec<f64> = xc.iter().map(|v| v + 2.0).collect();
            let keep = sp.clone();
            let mut sp2 = sp;
            match &mut sp2 {
                Sp::E(e) => e.set_xc(Arr::from(moved.clone())),
                Sp::S(e) => e.set_xc(Arr::from(moved.clone())),
            }
            c.transitions += 1;
            ensure!(c, sp2.xc() == moved && keep.xc() == xc, "{}: set_xc gave {:?}", name, sp2.xc());
            ensure!(c, sp2.probe_shape() == got, "{}: set_xc changed the shape", name);
        }
    });
}
