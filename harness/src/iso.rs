//! C25: instances are independent of each other and every run is repeatable.
//!
//! An actor is a short program over one instance (or one driver run) of the library, with a yield
//! between any two calls (inside drivers: in every oracle call). Its reference result is that of a
//! fresh process in which nothing else happens. Explored: every interleaving of two actors on two
//! threads under a baton scheduler, and every way of running one actor to its end (on the same
//! thread) at a yield of another. All results must be bit for bit the reference.
use crate::rt::*;
use ellalgo_rs::arr::{self, Arr};
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_calc::EllCalc;
use ellalgo_rs::ell_stable::EllStable;
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::{create_lowpass_case, LowpassOracle};
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::power_iteration as pi;
use ellalgo_rs::quasicvx::MyOracle;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

type Yield<'a> = Rc<RefCell<dyn FnMut() + 'a>>;

#[derive(Clone, Debug)]
pub struct Actor {
    kind: &'static str,
    v: usize,
}

#[derive(Default)]
struct Log(Vec<u64>);
impl Log {
    fn f(&mut self, x: f64) {
        // all not-a-numbers count as one
        self.0.push(if x.is_nan() { u64::MAX } else { x.to_bits() });
    }
    fn a(&mut self, x: &Arr) {
        self.0.push(x.len() as u64);
        for v in x.iter() {
            self.f(*v);
        }
    }
    fn st(&mut self, s: &CutStatus) {
        self.0.push(match s {
            CutStatus::Success => 1,
            CutStatus::NoSoln => 2,
            CutStatus::NoEffect => 3,
            _ => 4,
        });
    }
    fn u(&mut self, x: usize) {
        self.0.push(x as u64);
    }
    fn pc(&mut self, c: &ParallelCut) {
        self.f(c.0);
        self.f(c.1.unwrap_or(f64::NAN));
    }
}

fn vecn(n: usize, k: usize) -> Arr {
    Arr::from_fn(n, |i| [1.0, -0.75, 0.5, 1.25, -1.5][(i * 2 + k) % 5])
}
fn mat(n: usize, k: usize, diag: f64) -> Arr {
    let mut m = Arr::zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            let w = [0.5, -0.25, 0.75, 0.0, 1.0][(i + j + i * j + k) % 5];
            m.set(i, j, if i == j { diag + w } else { w });
        }
    }
    m
}

fn pass<'a>(y: &Yield<'a>) {
    (y.borrow_mut())()
}

fn run_space<S: SearchSpace<ArrayType = Arr>>(mut s: S, n: usize, alt: bool, len: usize, y: &Yield, log: &mut Log)
where
    SingleCut: UpdateByCutChoice<S, ArrayType = Arr>,
    ParallelCut: UpdateByCutChoice<S, ArrayType = Arr>,
{
    for k in 0..len {
        pass(y);
        let g = vecn(n, k + alt as usize);
        let st = match (k + 2 * alt as usize) % 5 {
            0 => s.update_bias_cut(&(g, SingleCut(0.1))),
            1 => s.update_bias_cut(&(g, ParallelCut(0.05, Some(0.5)))),
            2 => s.update_central_cut(&(g, SingleCut(0.0))),
            3 => s.update_q(&(g, ParallelCut(-0.01, Some(0.3)))),
            _ => s.update_q(&(g, SingleCut(-0.01))),
        };
        log.st(&st);
        log.f(s.tsq());
        log.a(&s.xc());
    }
}

/// any packaged oracle as a driver's oracle, yielding in every call
struct Y<'a, O>(O, Yield<'a>);
impl<'a, O: OracleFeas<Arr>> OracleFeas<Arr> for Y<'a, O> {
    type CutChoice = O::CutChoice;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, O::CutChoice)> {
        pass(&self.1);
        self.0.assess_feas(x)
    }
    fn update(&mut self, g: f64) {
        self.0.update(g)
    }
}
impl<'a, O: OracleOptim<Arr>> OracleOptim<Arr> for Y<'a, O> {
    type CutChoice = O::CutChoice;
    fn assess_optim(&mut self, x: &Arr, g: &mut f64) -> ((Arr, O::CutChoice), bool) {
        pass(&self.1);
        self.0.assess_optim(x, g)
    }
}
impl<'a, O: OracleOptimQ<Arr>> OracleOptimQ<Arr> for Y<'a, O> {
    type CutChoice = O::CutChoice;
    fn assess_optim_q(&mut self, x: &Arr, g: &mut f64, r: bool) -> ((Arr, O::CutChoice), bool, Arr, bool) {
        pass(&self.1);
        self.0.assess_optim_q(x, g, r)
    }
}
/// a disc, moved by the level
struct Disc(f64, f64);
impl OracleFeas<Arr> for Disc {
    type CutChoice = SingleCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
        let (a, b) = (x[0] - 0.7 - self.0, x[1] + 0.4);
        let v = a * a + b * b - self.1.max(0.01);
        if v <= 0.0 {
            return None;
        }
        Some((Arr::from(vec![2.0 * a, 2.0 * b]), SingleCut(v)))
    }
    fn update(&mut self, g: f64) {
        self.1 = g;
    }
}
struct Halves<'a>(f64, Yield<'a>);
impl<'a> OracleBS for Halves<'a> {
    fn assess_bs(&mut self, g: f64) -> bool {
        pass(&self.1);
        g >= self.0
    }
}

const PROFIT: [(f64, f64, f64, [f64; 2], [f64; 2], [f64; 5]); 11] = [
    (20.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.007, 1.0, 1.0, 1.0]),
    (25.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.007, 1.0, 1.0, 1.0]),
    (20.0, 45.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.007, 1.0, 1.0, 1.0]),
    (20.0, 40.0, 2.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.007, 1.0, 1.0, 1.0]),
    (20.0, 40.0, 30.5, [0.2, 0.4], [10.0, 35.0], [0.003, 0.007, 1.0, 1.0, 1.0]),
    (20.0, 40.0, 30.5, [0.1, 0.4], [12.0, 35.0], [0.003, 0.007, 1.0, 1.0, 1.0]),
    (20.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.013, 0.007, 1.0, 1.0, 1.0]),
    (20.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.017, 1.0, 1.0, 1.0]),
    (20.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.007, 2.0, 1.0, 1.0]),
    (20.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.007, 1.0, 9.0, 1.0]),
    (20.0, 40.0, 30.5, [0.1, 0.4], [10.0, 35.0], [0.003, 0.007, 1.0, 1.0, 2.0]),
];
const LOWPASS: [(usize, f64, f64, f64, f64, f64); 7] = [
    (6, 0.12, 0.20, 0.8, 1.2, 0.05),
    (7, 0.12, 0.20, 0.8, 1.2, 0.05),
    (6, 0.30, 0.40, 0.8, 1.2, 0.05),
    (6, 0.12, 0.40, 0.8, 1.2, 0.05),
    (6, 0.12, 0.20, 0.5, 1.2, 0.05),
    (6, 0.12, 0.20, 0.8, 1.9, 0.05),
    (6, 0.12, 0.20, 0.8, 1.2, 0.55),
];

pub fn actors() -> Vec<Actor> {
    let mut out = vec![];
    for (kind, vs) in [
        ("plain space", 8),
        ("plain space, no deferral", 8),
        ("factorised space", 6),
        ("formulas", 4),
        ("factorisation", 4),
        ("LMI", 4),
        ("LMI without constant", 4),
        ("LMI old", 4),
        ("lowpass", 7),
        ("packaged lowpass", 2),
        ("profit", 6),
        ("robust profit", 11),
        ("discrete profit", 6),
        ("quasi-convex", 4),
        ("svm", 3),
        ("max-cut", 3),
        ("conjugate gradient", 3),
        ("power iteration", 8),
        ("arrays", 3),
        ("feasibility run", 5),
        ("optimisation run", 5),
        ("discrete run", 3),
        ("bisection run", 3),
        ("adaptor run", 3),
    ] {
        for v in 0..vs {
            out.push(Actor { kind, v });
        }
    }
    out
}

fn run(a: &Actor, len: usize, y: &Yield) -> Vec<u64> {
    let mut log = Log::default();
    let v = a.v;
    let two = |k: usize| Arr::from(vec![[0.2, 1.1, 2.5, 0.9, 3.3][k % 5], [1.4, 0.3, 2.2, 3.6, 0.8][k % 5]]);
    macro_rules! optim {
        ($o:expr, $pt:expr, $g:expr) => {{
            let mut o = $o;
            let mut g: f64 = $g;
            for k in 0..len {
                pass(y);
                let ((gr, SingleCut(b)), s) = o.assess_optim(&$pt(k), &mut g);
                log.a(&gr);
                log.f(b);
                log.f(g);
                log.u(s as usize);
            }
        }};
    }
    match a.kind {
        "plain space" | "plain space, no deferral" => {
            let n = if v == 3 { 3 } else { 2 };
            let xc = if v == 1 { vecn(n, 3) } else { Arr::new(n) };
            let mut s = match v {
                2 => Ell::new_with_scalar(9.0, xc),
                4 => Ell::new(Arr::from(vec![1.0, 4.0]), xc),
                5 => Ell::from_covariance(mat(2, 0, 3.0), xc),
                _ => Ell::new_with_scalar(4.0, xc),
            };
            s.no_defer_trick = a.kind != "plain space";
            if v == 7 {
                let other = s.clone();
                s.set_xc(vecn(n, 1));
                drop(other);
            }
            run_space(s, n, v == 6, len, y, &mut log);
        }
        "factorised space" => {
            let n = if v == 3 { 3 } else { 2 };
            let xc = if v == 1 { vecn(n, 3) } else { Arr::new(n) };
            let s = match v {
                2 => EllStable::new_with_scalar(9.0, xc),
                4 => EllStable::new(Arr::from(vec![1.0, 4.0]), xc),
                _ => EllStable::new_with_scalar(4.0, xc),
            };
            run_space(s, n, v == 5, len, y, &mut log);
        }
        "formulas" => {
            let mut e = EllCalc::new([2, 3, 4, 66][v]);
            e.use_parallel_cut = v != 2;
            for k in 0..len {
                pass(y);
                let t = [1.0, 0.25, 4.0, 9.0, 2.0][k % 5];
                for (st, (p, q, r)) in [
                    e.calc_bias_cut(0.1, t),
                    e.calc_bias_cut_q(-0.02, t),
                    e.calc_central_cut(t),
                    e.calc_parallel_bias_cut(0.05, 0.4, t),
                    e.calc_parallel_q(0.0, 0.3, t),
                    e.calc_parallel_central_cut(0.2, t),
                ] {
                    log.st(&st);
                    log.f(p);
                    log.f(q);
                    log.f(r);
                }
            }
        }
        "factorisation" => {
            let n = if v == 2 { 4 } else { 3 };
            let mut m = LDLTMgr::new(n);
            for k in 0..len {
                pass(y);
                let ok = m.factorize(&mat(n, v + k, if k % 2 == v % 2 { 4.0 } else { 0.25 }));
                log.u(ok as usize);
                pass(y);
                if ok {
                    log.a(&m.sqrt());
                } else {
                    log.f(m.witness());
                    pass(y);
                    log.f(m.sym_quad(&mat(n, 1, 1.0)));
                }
            }
        }
        "LMI" | "LMI old" | "LMI without constant" => {
            let n = if v == 3 { 4 } else { 3 };
            let fs = vec![mat(n, if v == 1 { 3 } else { 0 }, 1.0), mat(n, 1, -1.0)];
            let b = mat(n, if v == 2 { 4 } else { 2 }, 3.0);
            macro_rules! feas {
                ($o:expr) => {{
                    let mut o = $o;
                    for k in 0..len {
                        pass(y);
                        let x = &two(k) * if k % 2 == 0 { 0.2 } else { 2.0 };
                        if let Some((g, SingleCut(e))) = o.assess_feas(&x) {
                            log.a(&g);
                            log.f(e);
                        } else {
                            log.u(0);
                        }
                    }
                }};
            }
            match a.kind {
                "LMI" => feas!(LMIOracle::new(fs, b)),
                "LMI old" => feas!(LMIOldOracle::new(fs, b)),
                _ => {
                    let mut o = LMI0Oracle::new(if v == 2 { vec![b, fs[1].clone()] } else { fs });
                    for k in 0..len {
                        pass(y);
                        let x = &two(k) * if k % 2 == 0 { 0.2 } else { -2.0 };
                        if let Some((g, e)) = o.assess_feas(&x) {
                            log.a(&g);
                            log.f(e);
                        } else {
                            log.u(0);
                        }
                    }
                }
            }
        }
        "lowpass" | "packaged lowpass" => {
            let (mut o, n) = if a.kind == "lowpass" {
                let (n, p, s, l, u, q) = LOWPASS[v];
                (LowpassOracle::new(n, p, s, l, u, q), n)
            } else {
                (create_lowpass_case(6 + v), 6 + v)
            };
            let mut g = 0.3;
            for k in 0..len {
                pass(y);
                let x = Arr::from_fn(n, |i| match k % 3 {
                    0 => {
                        if i == 0 {
                            0.2
                        } else {
                            0.12 / i as f64
                        }
                    }
                    1 => [0.3, 0.2, 0.1, 0.02, -0.01, -0.02, 0.0][i],
                    _ => [0.25, -0.1, 0.05, 0.0, 0.1, 0.0, 0.0][i],
                });
                if k % 2 == 0 {
                    match o.assess_feas(&x) {
                        Some((gr, c)) => {
                            log.a(&gr);
                            log.pc(&c);
                        }
                        None => log.u(0),
                    }
                } else {
                    let ((gr, c), s) = o.assess_optim(&x, &mut g);
                    log.a(&gr);
                    log.pc(&c);
                    log.f(g);
                    log.u(s as usize);
                }
            }
        }
        "profit" | "robust profit" | "discrete profit" => {
            let (p, q, k, al, pr, e) = PROFIT[v];
            let (al, pr) = (Arr::from(al.to_vec()), Arr::from(pr.to_vec()));
            match a.kind {
                "profit" => optim!(ProfitOracle::new((p, q, k), al, pr), two, 0.0),
                "robust profit" => optim!(ProfitRbOracle::new((p, q, k), al, pr, (e[0], e[1], e[2], e[3], e[4])), two, 0.0),
                _ => {
                    let mut o = ProfitOracleQ::new((p, q, k), al, pr);
                    let mut g = 0.0;
                    for k in 0..len {
                        pass(y);
                        let ((gr, SingleCut(b)), s, xd, m) = o.assess_optim_q(&two(k), &mut g, k % 3 == 2);
                        log.a(&gr);
                        log.f(b);
                        log.f(g);
                        log.a(&xd);
                        log.u(s as usize + 2 * m as usize);
                    }
                }
            }
        }
        "quasi-convex" => optim!(MyOracle::default(), |k: usize| two(k + v), [3.0, 0.0, 3.0, 0.5][v]),
        "svm" => {
            let d = Arr::from_shape_vec(3, 2, vec![2.0, 2.0, -1.0, if v == 1 { 4.0 } else { -2.0 }, 0.5, -1.5]);
            let l = if v == 2 { vec![-1, 1, 1] } else { vec![1, -1, 1] };
            optim!(SvmOracle::new(d, l), |k: usize| Arr::from(vec![two(k)[0], two(k + 1)[1], 0.3 - k as f64]), 0.0)
        }
        "max-cut" => {
            let n = if v == 2 { 4 } else { 3 };
            optim!(MaxcutOracle::new(mat(n, v, 0.0)), |k: usize| vecn(n, k), 0.0)
        }
        "conjugate gradient" => {
            for k in 0..len {
                pass(y);
                let m = mat(3 + v % 2, v, 6.0);
                let b = vecn(3 + v % 2, k + v);
                match conjugate_gradient(&m, &b, None, 1e-9, 20) {
                    Ok(x) => log.a(&x),
                    Err(_) => log.u(7),
                }
            }
        }
        "power iteration" => {
            for k in 0..len {
                pass(y);
                let n = 3 + v / 4;
                let m = mat(n, v / 4, 5.0);
                let mut x = vecn(n, k);
                let o = pi::Options { max_iters: 6 + k, tolerance: 1e-9 };
                let (l, it) = match v % 4 {
                    0 => pi::power_iteration(&m, &mut x, &o),
                    1 => pi::power_iteration2(&m, &mut x, &o),
                    2 => pi::power_iteration3(&m, &mut x, &o),
                    _ => pi::power_iteration4(&m, &mut x, &o),
                };
                log.f(l);
                log.u(it);
                log.a(&x);
            }
        }
        "arrays" => {
            let mut m = mat(3, v, 1.0);
            for k in 0..len {
                pass(y);
                let g = vecn(3, k + v);
                m.rank_one_update(0.5, &g);
                let h = m.dot_mv(&g);
                log.a(&m);
                log.a(&h);
                log.a(&arr::linspace(0.0, 1.0 + v as f64, 4 + k));
                log.a(&arr::arange(0.0, 3.0 + (k % 2) as f64));
                log.a(&arr::exp(&g));
                log.a(&arr::cos(&h));
            }
        }
        "feasibility run" => {
            let o = Options::new(len, 1e-20);
            let x0 = Arr::from(vec![-1.0, 2.0]);
            let (x, k) = match v {
                0 => cutting_plane_feas(&mut Y(Disc(0.0, 0.01), y.clone()), &mut Ell::new_with_scalar(25.0, x0), &o),
                1 => cutting_plane_feas(&mut Y(Disc(0.5, 0.01), y.clone()), &mut Ell::new_with_scalar(25.0, x0), &o),
                2 => cutting_plane_feas(&mut Y(Disc(0.0, 0.01), y.clone()), &mut EllStable::new_with_scalar(25.0, x0), &o),
                3 => cutting_plane_feas(&mut Y(LMIOracle::new(vec![mat(3, 0, 1.0), mat(3, 1, -1.0)], mat(3, 2, 3.0)), y.clone()), &mut Ell::new_with_scalar(25.0, x0), &o),
                _ => cutting_plane_feas(&mut Y(LowpassOracle::new(6, 0.12, 0.2, 0.8, 1.2, 0.05), y.clone()), &mut Ell::new_with_scalar(4.0, Arr::new(6)), &o),
            };
            log.u(k);
            if let Some(x) = x {
                log.a(&x);
            }
        }
        "optimisation run" => {
            let o = Options::new(len, 1e-20);
            let x0 = Arr::from(vec![0.0, 0.5]);
            let (p, q, k, al, pr, e) = PROFIT[v % 2];
            let (al, pr) = (Arr::from(al.to_vec()), Arr::from(pr.to_vec()));
            let mut g = 0.0;
            let (x, k) = match v {
                0 | 1 => cutting_plane_optim(&mut Y(ProfitOracle::new((p, q, k), al, pr), y.clone()), &mut Ell::new_with_scalar(100.0, x0), &mut g, &o),
                2 => cutting_plane_optim(&mut Y(ProfitRbOracle::new((p, q, k), al, pr, (e[0], e[1], e[2], e[3], e[4])), y.clone()), &mut EllStable::new_with_scalar(100.0, x0), &mut g, &o),
                3 => cutting_plane_optim(&mut Y(MyOracle::default(), y.clone()), &mut Ell::new_with_scalar(10.0, x0), &mut g, &o),
                _ => {
                    g = 0.4;
                    cutting_plane_optim(&mut Y(LowpassOracle::new(6, 0.12, 0.2, 0.8, 1.2, 0.05), y.clone()), &mut EllStable::new_with_scalar(4.0, Arr::new(6)), &mut g, &o)
                }
            };
            log.u(k);
            log.f(g);
            if let Some(x) = x {
                log.a(&x);
            }
        }
        "discrete run" => {
            let o = Options::new(len, 1e-20);
            let x0 = Arr::from(vec![0.0, 0.5]);
            let (p, q, k, al, pr, _) = PROFIT[v % 2];
            let mut or = Y(ProfitOracleQ::new((p, q, k), Arr::from(al.to_vec()), Arr::from(pr.to_vec())), y.clone());
            let mut g = 0.0;
            let (x, k) = if v == 2 {
                cutting_plane_optim_q(&mut or, &mut EllStable::new_with_scalar(100.0, x0), &mut g, &o)
            } else {
                cutting_plane_optim_q(&mut or, &mut Ell::new_with_scalar(100.0, x0), &mut g, &o)
            };
            log.u(k);
            log.f(g);
            if let Some(x) = x {
                log.a(&x);
            }
        }
        "bisection run" => {
            let mut iv = (0.0, [8.0, 8.0, 9.0][v]);
            let r = bsearch(&mut Halves([3.3, 5.1, 3.3][v], y.clone()), &mut iv, &Options::new(len, 1e-9));
            log.u(r.0 as usize);
            log.u(r.1);
            log.f(iv.0);
            log.f(iv.1);
        }
        "adaptor run" => {
            // one level at a time; the inner solve yields in every oracle call
            let o = Options::new(2 + v, 1e-20);
            let x0 = Arr::from(vec![0.0, 0.5]);
            let mut ad = BSearchAdaptor::new(Y(Disc([0.0, 0.5, 0.0][v], 0.1), y.clone()), Ell::new_with_scalar(9.0, x0), o);
            for k in 0..(len + 1) / 2 {
                let r = ad.assess_bs([2.0, 0.2, 0.6][k % 3]);
                log.u(r as usize);
                log.a(&ad.space.xc());
            }
        }
        k => unreachable!("{}", k),
    }
    log.0
}

fn quiet<'a>() -> Yield<'a> {
    Rc::new(RefCell::new(|| {}))
}
fn count(a: &Actor, len: usize) -> (Vec<u64>, usize) {
    let n = Rc::new(RefCell::new(0usize));
    let m = n.clone();
    let y: Yield = Rc::new(RefCell::new(move || *m.borrow_mut() += 1));
    let r = run(a, len, &y);
    let k = *n.borrow();
    (r, k)
}

/// the part of a fresh process: result and number of yields of one actor
pub fn solo(idx: usize, len: usize) {
    let (r, k) = count(&actors()[idx], len);
    println!("{} {}", k, r.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" "));
}

struct Baton {
    st: Mutex<(usize, bool)>,
    cv: Condvar,
}

/// runs `who` on threads of their own; the schedule says which one runs its next segment
fn scheduled(pair: [&Actor; 2], len: usize, sched: &[usize]) -> Result<[Vec<u64>; 2], String> {
    let b = Arc::new(Baton { st: Mutex::new((0, false)), cv: Condvar::new() });
    let sched: Arc<Vec<usize>> = Arc::new(sched.to_vec());
    fn wait(b: &Baton, sched: &[usize], me: usize) {
        let mut g = b.st.lock().unwrap();
        loop {
            if g.1 {
                drop(g);
                panic!("the other run failed");
            }
            if g.0 >= sched.len() || sched[g.0] == me {
                return;
            }
            let (h, t) = b.cv.wait_timeout(g, Duration::from_secs(60)).unwrap();
            g = h;
            if t.timed_out() {
                g.1 = true;
                b.cv.notify_all();
            }
        }
    }
    fn give(b: &Baton) {
        let mut g = b.st.lock().unwrap();
        g.0 += 1;
        b.cv.notify_all();
    }
    let rs: Vec<Result<Vec<u64>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2)
            .map(|me| {
                let (b, sched) = (b.clone(), sched.clone());
                let a = pair[me].clone();
                s.spawn(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        wait(&b, &sched, me);
                        let (b2, s2) = (b.clone(), sched.clone());
                        let y: Yield = Rc::new(RefCell::new(move || {
                            give(&b2);
                            wait(&b2, &s2, me);
                        }));
                        let r = run(&a, len, &y);
                        give(&b);
                        r
                    }));
                    r.map_err(|_| {
                        let mut g = b.st.lock().unwrap();
                        g.1 = true;
                        b.cv.notify_all();
                        PANIC_MSG.with(|p| p.borrow().clone())
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut it = rs.into_iter();
    Ok([it.next().unwrap()?, it.next().unwrap()?])
}

/// every word with `a` zeros and `b` ones
fn interleavings(a: usize, b: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(a: usize, b: usize, w: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if a == 0 && b == 0 {
            out.push(w.clone());
            return;
        }
        if a > 0 {
            w.push(0);
            go(a - 1, b, w, out);
            w.pop();
        }
        if b > 0 {
            w.push(1);
            go(a, b - 1, w, out);
            w.pop();
        }
    }
    go(a, b, &mut vec![], &mut out);
    out
}

/// `outer` with each actor of `inner` (position, actor) run to its end at that yield, on one thread
fn nested(outer: &Actor, len: usize, at: usize, inner: &Actor) -> (Vec<u64>, Vec<u64>) {
    let got: Rc<RefCell<Vec<u64>>> = Default::default();
    let (g2, inner) = (got.clone(), inner.clone());
    let mut k = 0;
    let y: Yield = Rc::new(RefCell::new(move || {
        if k == at {
            *g2.borrow_mut() = run(&inner, len, &quiet());
        }
        k += 1;
    }));
    let r = run(outer, len, &y);
    let g = got.borrow().clone();
    (r, g)
}

fn show(w: &[usize]) -> String {
    w.iter().map(|x| if *x == 0 { 'A' } else { 'B' }).collect()
}

/// a shard of the exploration, in a process of its own; references come on stdin
pub fn shard(idx: usize, of: usize, len: usize, cap: usize, all: bool) {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let refs: Vec<(usize, Vec<u64>)> = text
        .lines()
        .map(|l| {
            let mut it = l.split_whitespace();
            (it.next().unwrap().parse().unwrap(), it.map(|x| u64::from_str_radix(x, 16).unwrap()).collect())
        })
        .collect();
    let acts = actors();
    let (mut states, mut transitions, mut traces) = (0u64, 0u64, 0u64);
    let mut no = 0;
    for i in 0..acts.len() {
        for j in 0..acts.len() {
            no += 1;
            if no % of != idx {
                continue;
            }
            let (a, b) = (&acts[i], &acts[j]);
            let ((ya, ra), (yb, rb)) = (&refs[i], &refs[j]);
            let bad = |how: String, which: &str| {
                println!("FAIL {}: result of {} differs from its run alone in a fresh process (A = {:?}, B = {:?}, {} steps)", how, which, a, b, len);
            };
            // B inside A, at every yield
            for k in 0..*ya {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| nested(a, len, k, b)));
                traces += 1;
                transitions += (*ya + *yb + 2) as u64;
                match r {
                    Err(_) => {
                        println!("FAIL B run at yield {} of A panicked: {} (A = {:?}, B = {:?})", k, PANIC_MSG.with(|p| p.borrow().clone()), a, b);
                        return;
                    }
                    Ok((x, z)) => {
                        if &x != ra {
                            return bad(format!("B run to its end at yield {} of A", k), "A");
                        }
                        if &z != rb {
                            return bad(format!("B run to its end at yield {} of A", k), "B");
                        }
                    }
                }
            }
            // both on threads of their own; unordered pairs suffice
            if j < i || !(all || a.kind == b.kind || a.v + b.v == 0) {
                continue;
            }
            states += ((*ya + 2) * (*yb + 2)) as u64;
            // the first segments only, when there are too many yields for all words
            let (mut sa, mut sb) = (*ya + 1, *yb + 1);
            while sa + sb > cap {
                if sa >= sb {
                    sa -= 1;
                } else {
                    sb -= 1;
                }
            }
            for w in interleavings(sa, sb) {
                traces += 1;
                transitions += w.len() as u64;
                let mut full = w.clone();
                full.extend(std::iter::repeat(0).take(ya + 1 - sa));
                full.extend(std::iter::repeat(1).take(yb + 1 - sb));
                match scheduled([a, b], len, &full) {
                    Err(m) => {
                        println!("FAIL schedule {} panicked or blocked: {} (A = {:?}, B = {:?})", show(&w), m, a, b);
                        return;
                    }
                    Ok([x, z]) => {
                        if &x != ra {
                            return bad(format!("schedule {}", show(&w)), "A");
                        }
                        if &z != rb {
                            return bad(format!("schedule {}", show(&w)), "B");
                        }
                    }
                }
            }
        }
    }
    println!("OK {} {} {}", states, transitions, traces);
}

pub fn c25(c: &mut Ctx) {
    let (len, cap) = if c.thorough { (4, 10) } else { (4, 10) };
    let exe = std::env::current_exe().expect("own path");
    let acts = actors();
    let mut text = String::new();
    for i in 0..acts.len() {
        let o = Command::new(&exe).args(["iso-solo", &i.to_string(), &len.to_string()]).output().expect("start");
        c.transitions += 1;
        if !o.status.success() {
            c.fail(format!("{:?} alone in a fresh process panicked: {}", acts[i], String::from_utf8_lossy(&o.stderr)));
            return;
        }
        text.push_str(&String::from_utf8_lossy(&o.stdout));
    }
    let of = 8;
    let kids: Vec<_> = (0..of)
        .map(|k| {
            let mut p = Command::new(&exe)
                .args(["iso-shard", &k.to_string(), &of.to_string(), &len.to_string(), &cap.to_string(), if c.thorough { "1" } else { "0" }])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("start");
            p.stdin.take().unwrap().write_all(text.as_bytes()).expect("write");
            p
        })
        .collect();
    for p in kids {
        let o = p.wait_with_output().expect("wait");
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        let mut done = false;
        for l in s.lines() {
            if let Some(m) = l.strip_prefix("FAIL ") {
                c.fail(m);
                done = true;
            } else if let Some(m) = l.strip_prefix("OK ") {
                let v: Vec<u64> = m.split_whitespace().map(|x| x.parse().unwrap()).collect();
                c.states += v[0];
                c.transitions += v[1];
                c.traces += v[2];
                done = true;
            }
        }
        if !done {
            c.fail(format!("an exploring process died: {:?}", o.status));
        }
    }
    c.bound(format!("{} programs of up to {} calls over every kind of instance (each constructor argument varied) and every driver; every ordered pair nested at every yield on one thread; every unordered pair{} under every interleaving of their first {} segments on two threads; references from fresh processes", acts.len(), len, if c.thorough { "" } else { " of one kind and of first variants" }, cap));
    c.sample(|| format!("A = {:?}, B = {:?}, schedule ABABABAB", acts[0], acts[1]));
}
