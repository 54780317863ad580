//! C09..C13: the drivers, run against scripted oracles and search spaces whose answers are
//! enumerated exhaustively (stateless exploration with a chooser), plus long runs with one
//! deviating event at every position.
use crate::ensure;
use crate::rt::*;
use ellalgo_rs::cutting_plane::*;
use std::cell::RefCell;
use std::rc::Rc;

const TOL: f64 = 0.5;

/// Depth-first enumeration of all choice sequences of a deterministic program.
#[derive(Default)]
pub struct Chooser {
    pub script: Vec<(usize, usize)>,
    pub pos: usize,
}
impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        if self.pos < self.script.len() {
            let (c, k) = self.script[self.pos];
            assert!(k == n, "non-deterministic replay: {} alternatives instead of {}", n, k);
            self.pos += 1;
            c
        } else {
            self.script.push((0, n));
            self.pos += 1;
            0
        }
    }
    pub fn next(&mut self) -> bool {
        self.script.truncate(self.pos);
        self.pos = 0;
        while let Some((c, n)) = self.script.pop() {
            if c + 1 < n {
                self.script.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pt(pub u64);

/// one answer of the environment to one driver iteration
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ans {
    feasible: bool,
    shrunk: bool,
    more_alt: bool,
    status: u8, // 0 success 1 nosoln 2 noeffect 3 unknown
    tsq: f64,
    /// the update moved the centre
    moved: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Gamma(f64),
    Query { x: Pt, gamma: f64, retry: bool },
    Update { kind: u8, cut: u64, at: Pt },
}

pub struct Env {
    pub ch: Chooser,
    pub answers: Vec<Ans>,
    pub log: Vec<Ev>,
    pub queries: usize,
    pub limit: usize,
    pub fresh: u64,
    pub mode: u8, // 0 feas, 1 optim, 2 optim_q
    /// for long runs: answer k-th query from this instead of the chooser
    pub fixed: Option<Box<dyn Fn(usize) -> Ans>>,
    pub cur: Option<Ans>,
    /// tolerance of the run; the sizes in the answers are multiples of it
    pub tol: f64,
    /// what an improving answer adds to gamma
    pub dgamma: f64,
    /// level the run starts from
    pub gamma0: f64,
}
/// the level after an improvement
fn step(gamma: f64, d: f64) -> f64 {
    if gamma.is_infinite() {
        -5.0
    } else {
        gamma + d
    }
}
type E = Rc<RefCell<Env>>;

fn env(mode: u8, limit: usize) -> E {
    Rc::new(RefCell::new(Env {
        ch: Chooser::default(),
        answers: vec![],
        log: vec![],
        queries: 0,
        limit,
        fresh: 100,
        mode,
        fixed: None,
        cur: None,
        tol: TOL,
        dgamma: -1.0,
        gamma0: 3.0,
    }))
}
impl Env {
    fn reset(&mut self) {
        self.answers.clear();
        self.log.clear();
        self.queries = 0;
        self.fresh = 100;
        self.ch.pos = 0;
        self.cur = None;
    }
    fn answer(&mut self) -> Ans {
        self.queries += 1;
        assert!(
            self.queries <= self.limit,
            "the driver queried the oracle more often than its iteration limit {} allows",
            self.limit
        );
        let k = self.queries - 1;
        let a = if let Some(f) = &self.fixed {
            f(k)
        } else {
            let mut a = Ans {
                feasible: false,
                shrunk: false,
                more_alt: true,
                status: 0,
                tsq: 1.0,
                moved: true,
            };
            if self.mode == 0 {
                if self.ch.choose(2) == 1 {
                    a.feasible = true;
                }
            } else {
                a.shrunk = self.ch.choose(2) == 1;
            }
            if self.mode == 2 {
                a.more_alt = self.ch.choose(2) == 1;
            }
            if !a.feasible {
                // status x size classes
                let k = if self.mode == 2 {
                    self.ch.choose(7)
                } else {
                    self.ch.choose(8)
                };
                let (s, t) = [
                    (0, 2.0),
                    (0, 1.0),
                    (0, 0.5),
                    (1, 2.0),
                    (2, 2.0),
                    (1, 0.5),
                    (2, 0.5),
                    (3, 2.0),
                ][k];
                a.status = s;
                a.tsq = t * self.tol;
                a.moved = s == 0;
            }
            a
        };
        self.answers.push(a);
        self.cur = Some(a);
        a
    }
}

#[derive(Clone)]
pub struct MCut(u64);

#[derive(Clone)]
pub struct MSpace {
    e: E,
    x: Pt,
    tsq: f64,
    updates: u64,
}
fn code(s: u8) -> CutStatus {
    match s {
        0 => CutStatus::Success,
        1 => CutStatus::NoSoln,
        2 => CutStatus::NoEffect,
        _ => CutStatus::Unknown,
    }
}
impl UpdateByCutChoice<MSpace> for MCut {
    type ArrayType = Pt;
    fn update_bias_cut_by(&self, s: &mut MSpace, g: &Pt) -> CutStatus {
        s.upd(0, g.0, self.0)
    }
    fn update_central_cut_by(&self, s: &mut MSpace, g: &Pt) -> CutStatus {
        s.upd(1, g.0, self.0)
    }
    fn update_q_by(&self, s: &mut MSpace, g: &Pt) -> CutStatus {
        s.upd(2, g.0, self.0)
    }
}
impl MSpace {
    fn upd(&mut self, kind: u8, g: u64, b: u64) -> CutStatus {
        assert!(g == b, "gradient and offset of different cuts were combined");
        let mut e = self.e.borrow_mut();
        let a = e.cur.take().expect("space updated without a fresh cut from the oracle");
        e.log.push(Ev::Update {
            kind,
            cut: g,
            at: self.x,
        });
        self.tsq = a.tsq;
        self.updates += 1;
        if a.moved {
            e.fresh += 1;
            self.x = Pt(e.fresh);
        }
        code(a.status)
    }
}
impl SearchSpace for MSpace {
    type ArrayType = Pt;
    fn xc(&self) -> Pt {
        self.x
    }
    fn tsq(&self) -> f64 {
        self.tsq
    }
    fn update_bias_cut<T>(&mut self, cut: &(Pt, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Pt>,
    {
        cut.1.update_bias_cut_by(self, &cut.0)
    }
    fn update_central_cut<T>(&mut self, cut: &(Pt, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Pt>,
    {
        cut.1.update_central_cut_by(self, &cut.0)
    }
    fn update_q<T>(&mut self, cut: &(Pt, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Pt>,
    {
        cut.1.update_q_by(self, &cut.0)
    }
    fn set_xc(&mut self, x: Pt) {
        self.x = x;
    }
}

pub struct MOracle {
    e: E,
    gamma: f64,
}
impl OracleFeas<Pt> for MOracle {
    type CutChoice = MCut;
    fn assess_feas(&mut self, x: &Pt) -> Option<(Pt, MCut)> {
        let mut e = self.e.borrow_mut();
        let g = self.gamma;
        e.log.push(Ev::Query {
            x: *x,
            gamma: g,
            retry: false,
        });
        let a = e.answer();
        if a.feasible {
            e.cur = None;
            return None;
        }
        let id = 1000 + e.queries as u64;
        Some((Pt(id), MCut(id)))
    }
    fn update(&mut self, gamma: f64) {
        self.gamma = gamma;
        self.e.borrow_mut().log.push(Ev::Gamma(gamma));
    }
}
impl OracleOptim<Pt> for MOracle {
    type CutChoice = MCut;
    fn assess_optim(&mut self, x: &Pt, gamma: &mut f64) -> ((Pt, MCut), bool) {
        let mut e = self.e.borrow_mut();
        e.log.push(Ev::Query {
            x: *x,
            gamma: *gamma,
            retry: false,
        });
        let a = e.answer();
        let id = 1000 + e.queries as u64;
        if a.shrunk {
            *gamma = step(*gamma, e.dgamma);
        }
        ((Pt(id), MCut(id)), a.shrunk)
    }
}
impl OracleOptimQ<Pt> for MOracle {
    type CutChoice = MCut;
    fn assess_optim_q(&mut self, x: &Pt, gamma: &mut f64, retry: bool) -> ((Pt, MCut), bool, Pt, bool) {
        let mut e = self.e.borrow_mut();
        e.log.push(Ev::Query {
            x: *x,
            gamma: *gamma,
            retry,
        });
        let a = e.answer();
        let id = 1000 + e.queries as u64;
        if a.shrunk {
            *gamma = step(*gamma, e.dgamma);
        }
        // the discrete candidate is a point of its own, distinct from the centre
        ((Pt(id), MCut(id)), a.shrunk, Pt(500_000 + e.queries as u64), a.more_alt)
    }
}

/// Specification of the drivers, written as a simulation of the recorded environment answers.
fn spec(mode: u8, x0: Pt, gamma0: f64, max_iters: usize, ans: &[Ans], tol: f64, dgamma: f64) -> (Option<Pt>, usize, f64, Vec<Ev>) {
    let mut log = vec![];
    let mut best = None;
    let mut x = x0;
    let mut fresh = 100;
    let mut gamma = gamma0;
    let mut retry = false;
    for k in 0..max_iters {
        let a = match ans.get(k) {
            Some(a) => *a,
            None => {
                // the driver stopped earlier than allowed; signal with an impossible event
                log.push(Ev::Gamma(f64::INFINITY));
                return (best, k, gamma, log);
            }
        };
        log.push(Ev::Query { x, gamma, retry });
        if mode == 0 && a.feasible {
            return (Some(x), k, gamma, log);
        }
        let mut kind = 0;
        if mode > 0 && a.shrunk {
            gamma = step(gamma, dgamma);
            if mode == 1 {
                best = Some(x);
                kind = 1;
            } else {
                best = Some(Pt(500_001 + k as u64));
            }
        }
        if mode == 2 {
            kind = 2;
        }
        log.push(Ev::Update {
            kind,
            cut: 1001 + k as u64,
            at: x,
        });
        if a.moved {
            fresh += 1;
            x = Pt(fresh);
        }
        match (mode, a.status) {
            (_, 0) => retry = false,
            (2, 2) => {
                if !a.more_alt {
                    return (best, k, gamma, log);
                }
                retry = true;
            }
            _ => return (best, k, gamma, log),
        }
        if a.tsq < tol {
            return (best, k, gamma, log);
        }
    }
    (best, max_iters, gamma, log)
}

fn drive(mode: u8, e: &E, max_iters: usize, verbose: bool) -> (Option<Pt>, usize, f64, Pt, u64) {
    let mut space = MSpace {
        e: e.clone(),
        x: Pt(7),
        tsq: 0.0,
        updates: 0,
    };
    let mut o = MOracle {
        e: e.clone(),
        gamma: e.borrow().gamma0,
    };
    let mut opt = Options::new(max_iters, e.borrow().tol);
    opt.verbose = verbose;
    let mut gamma = e.borrow().gamma0;
    let (r, n) = match mode {
        0 => cutting_plane_feas(&mut o, &mut space, &opt),
        1 => cutting_plane_optim(&mut o, &mut space, &mut gamma, &opt),
        _ => cutting_plane_optim_q(&mut o, &mut space, &mut gamma, &opt),
    };
    (r, n, gamma, space.x, space.updates)
}

fn check_run(c: &mut Ctx, mode: u8, e: &E, max_iters: usize, verbose: bool) {
    let got = drive(mode, e, max_iters, verbose);
    let ev = e.borrow();
    let want = spec(mode, Pt(7), ev.gamma0, max_iters, &ev.answers, ev.tol, ev.dgamma);
    c.traces += 1;
    c.transitions += ev.log.len() as u64;
    let short = |v: &[Ans]| {
        if v.len() > 12 {
            format!("{} answers, last {:?}", v.len(), &v[v.len() - 2..])
        } else {
            format!("{:?}", v)
        }
    };
    ensure!(
        c,
        got.0 == want.0,
        "driver mode {} max_iters {} returned point {:?}, expected {:?}; environment answers: {}",
        mode,
        max_iters,
        got.0,
        want.0,
        short(&ev.answers)
    );
    ensure!(
        c,
        got.1 == want.1,
        "driver mode {} max_iters {} reported {} iterations, expected {}; environment answers: {}",
        mode,
        max_iters,
        got.1,
        want.1,
        short(&ev.answers)
    );
    ensure!(
        c,
        got.2 == want.2,
        "driver mode {} left gamma {}, expected {}; environment answers: {}",
        mode,
        got.2,
        want.2,
        short(&ev.answers)
    );
    if ev.log != want.3 {
        let k = ev.log.iter().zip(&want.3).position(|(a, b)| a != b).unwrap_or(ev.log.len().min(want.3.len()));
        c.fail(format!(
            "driver mode {} max_iters {}: call {} is {:?}, expected {:?}; environment answers: {}",
            mode,
            max_iters,
            k,
            ev.log.get(k),
            want.3.get(k),
            short(&ev.answers)
        ));
        return;
    }
    c.sample(|| format!("mode {} max_iters {} answers {}", mode, max_iters, short(&ev.answers)));
}

fn driver(c: &mut Ctx, mode: u8, depths: &[usize]) {
    let mut items = vec![];
    for &d in depths {
        for v in [false, true] {
            items.push((d, v, TOL, -1.0, 3.0));
        }
    }
    // other tolerances (the sizes follow) and objectives that improve upwards
    let dd = depths[depths.len() - 3];
    for tol in [0.0, 1e-300, 1e-20, 1e-9, 3.0, 1e12] {
        for dg in [-1e9, 1.0, 1e-6, 0.0, f64::NEG_INFINITY, f64::INFINITY] {
            items.push((dd, false, tol, dg, 3.0));
        }
    }
    for e in -19..=6 {
        items.push((dd, e % 2 == 0, 10f64.powi(e), -0.5, 3.0));
        items.push((dd, e % 2 != 0, 3.3 * 10f64.powi(e), -0.5, 3.0));
        // levels of every magnitude and sign, moving by a comparable amount
        for sg in [1.0, -1.0] {
            let g0 = sg * 2.7 * 10f64.powi(e);
            items.push((dd, false, TOL, -g0.abs() / 3.0, g0));
        }
    }
    for g0 in [f64::INFINITY, f64::NEG_INFINITY, 0.0, -2.5, 1e300, f64::MAX] {
        items.push((dd, false, TOL, -1.0, g0));
        items.push((dd, true, TOL, 0.5, g0));
    }
    c.bound(format!(
        "every sequence of oracle answers and space verdicts/sizes (incl. size exactly at the tolerance) for iteration limits {:?}; limit {} also with tolerances 0..1e12 and objectives moving either way, from infinite and finite starting levels",
        depths, depths[depths.len() - 3]
    ));
    c.par(items, |c, &(d, v, tol, dg, g0)| {
        let e = env(mode, d);
        e.borrow_mut().gamma0 = g0;
        e.borrow_mut().tol = tol;
        e.borrow_mut().dgamma = dg;
        loop {
            if c.stopped() {
                return;
            }
            e.borrow_mut().reset();
            c.cur = format!("max_iters {} script {:?}", d, e.borrow().ch.script);
            check_run(c, mode, &e, d, v);
            c.states += e.borrow().answers.len() as u64 + 1;
            let more = e.borrow_mut().ch.next();
            if !more {
                break;
            }
        }
        c.cur.clear();
    });
    if c.stopped() {
        return;
    }
    // long runs with one deviating event at every position
    let lens: Vec<usize> = if c.thorough {
        (1..=300).chain([400, 499, 500, 511, 512, 513, 600, 999, 1000, 1023, 1024, 1025, 1500, 1999, 2000, 2001, 2500]).collect()
    } else {
        (1..=66).chain([75, 99, 100, 127, 128, 150, 199, 200, 255, 256, 257, 300, 500, 1000, 2001]).collect()
    };
    c.bound(format!("single deviating event of every kind at every position of runs with iteration limits {:?}", lens));
    let mut items = vec![];
    for &l in &lens {
        for base in 0..3u8 {
            for dev in 0..9u8 {
                items.push((l, base, dev));
            }
        }
    }
    c.par(items, |c, &(l, base, dev)| {
        let step = 1;
        let mut p = 0;
        while p <= l {
            if c.stopped() {
                return;
            }
            let e = env(mode, l);
            e.borrow_mut().fixed = Some(Box::new(move |k| {
                let mut a = Ans {
                    feasible: false,
                    shrunk: base == 1 || (base == 2 && k % 3 == 0),
                    more_alt: true,
                    status: if mode == 2 && base == 2 && k % 2 == 1 { 2 } else { 0 },
                    tsq: 1.0,
                    moved: true,
                };
                if a.status != 0 {
                    a.moved = false;
                }
                if k == p {
                    match dev {
                        0 => {
                            a.feasible = mode == 0;
                        }
                        1 => a.shrunk = !a.shrunk,
                        2 => {
                            a.status = 1;
                            a.moved = false;
                        }
                        3 => {
                            a.status = 2;
                            a.moved = false;
                        }
                        4 => a.tsq = TOL / 2.0,
                        5 => a.tsq = TOL,
                        6 => {
                            a.status = 2;
                            a.moved = false;
                            a.more_alt = false;
                        }
                        7 => {
                            a.shrunk = true;
                            a.status = 1;
                            a.moved = false;
                        }
                        _ => {
                            a.shrunk = true;
                            a.tsq = 0.0;
                        }
                    }
                }
                a
            }));
            c.cur = format!("run of {} base {} deviation {} at {}", l, base, dev, p);
            check_run(c, mode, &e, l, false);
            c.states += e.borrow().answers.len() as u64;
            p += step;
        }
        c.cur.clear();
    });
    if c.stopped() {
        return;
    }
    // two deviating events at every pair of positions
    let lens: Vec<usize> = if c.thorough { (2..=40).chain([64]).collect() } else { vec![2, 3, 5, 8, 13, 21, 32] };
    c.bound(format!("two deviating events of every kind at every pair of positions of runs with iteration limits {:?}", lens));
    let mut items = vec![];
    for &l in &lens {
        for base in 0..3u8 {
            for d1 in 0..4u8 {
                for d2 in 0..7u8 {
                    items.push((l, base, d1, d2));
                }
            }
        }
    }
    c.par(items, |c, &(l, base, d1, d2)| {
        for p in 0..l {
            for q in p + 1..l {
                if c.stopped() {
                    return;
                }
                let e = env(mode, l);
                e.borrow_mut().fixed = Some(Box::new(move |k| {
                    let mut a = Ans {
                        feasible: false,
                        shrunk: base == 1 || (base == 2 && k % 3 == 0),
                        more_alt: true,
                        status: if mode == 2 && base == 2 && k % 2 == 1 { 2 } else { 0 },
                        tsq: 1.0,
                        moved: true,
                    };
                    // the first event lets the run go on
                    if k == p {
                        match d1 {
                            0 => a.shrunk = !a.shrunk,
                            1 => a.tsq = TOL,
                            2 => a.tsq = if (p + q) % 2 == 0 { 1e9 } else { f64::INFINITY },
                            _ => {
                                if mode == 2 {
                                    a.status = 2 - a.status;
                                }
                                a.shrunk = true;
                            }
                        }
                    }
                    if k == q {
                        match d2 {
                            0 => a.feasible = mode == 0,
                            1 => a.shrunk = !a.shrunk,
                            2 => a.status = 1,
                            3 => a.status = 2,
                            4 => {
                                a.status = 2;
                                a.more_alt = false;
                            }
                            5 => a.tsq = TOL / 2.0,
                            _ => {
                                a.shrunk = true;
                                a.tsq = 0.0;
                            }
                        }
                    }
                    a.moved = a.status == 0;
                    a
                }));
                c.cur = format!("run of {} base {} events {} at {} and {} at {}", l, base, d1, p, d2, q);
                check_run(c, mode, &e, l, false);
                c.states += e.borrow().answers.len() as u64;
            }
        }
        c.cur.clear();
    });
    if c.stopped() {
        return;
    }
    // very long runs
    let lens: Vec<usize> = if c.thorough { vec![1999, 2000, 4097, 10_001, 65_537, 100_003, 1_000_003] } else { vec![2000, 4097, 65_537, 100_003] };
    c.bound(format!("runs with iteration limits {:?} used up, or ended by a refusal, an acceptance or a small size at the start, in the middle and at the end", lens));
    let mut items = vec![];
    for &l in &lens {
        for base in 0..4u8 {
            for dev in 0..4u8 {
                items.push((l, base, dev));
            }
        }
    }
    c.par(items, |c, &(l, base, dev)| {
        for p in [1, l / 2, l - 1, l] {
            if c.stopped() || (dev == 3 && p < l) {
                continue;
            }
            let e = env(mode, l);
            e.borrow_mut().dgamma = -0.25;
            e.borrow_mut().fixed = Some(Box::new(move |k| {
                // base 0: never improving, 1: improving once early, 2: improving every 1000, 3: refused every other time (discrete)
                let ne = mode == 2 && base == 3 && k % 2 == 1;
                let mut a = Ans {
                    feasible: false,
                    shrunk: (base == 1 && k == 3) || (base == 2 && k % 1000 == 5),
                    more_alt: true,
                    status: if ne || (mode == 2 && base == 0 && k > 4) { 2 } else { 0 },
                    tsq: if base == 3 { 1.0 + 1.0 / (k as f64 + 1.0) } else { 1.0 },
                    moved: true,
                };
                if k == p {
                    match dev {
                        0 => a.feasible = mode == 0,
                        1 => a.status = 1,
                        _ => a.tsq = TOL / 2.0,
                    }
                }
                a.moved = a.status == 0;
                a
            }));
            c.cur = format!("run of {} base {} deviation {} at {}", l, base, dev, p);
            check_run(c, mode, &e, l, p % 2 == 0);
            c.states += e.borrow().answers.len() as u64;
        }
        c.cur.clear();
    });
}

pub fn c09(c: &mut Ctx) {
    let d: Vec<usize> = if c.thorough { (0..=16).collect() } else { (0..=12).collect() };
    driver(c, 0, &d);
}
pub fn c10(c: &mut Ctx) {
    let d: Vec<usize> = if c.thorough { (0..=10).collect() } else { (0..=8).collect() };
    driver(c, 1, &d);
}
pub fn c11(c: &mut Ctx) {
    let d: Vec<usize> = if c.thorough { (0..=7).collect() } else { (0..=6).collect() };
    driver(c, 2, &d);
    if c.stopped() {
        return;
    }
    default_q(c);
}

/// A search space that does not override the discrete update falls back to its deep cut.
fn default_q(c: &mut Ctx) {
    #[derive(Clone)]
    struct D {
        log: Vec<u8>,
    }
    struct K(u8);
    impl UpdateByCutChoice<D> for K {
        type ArrayType = f64;
        fn update_bias_cut_by(&self, s: &mut D, _g: &f64) -> CutStatus {
            s.log.push(0);
            code(self.0)
        }
        fn update_central_cut_by(&self, s: &mut D, _g: &f64) -> CutStatus {
            s.log.push(1);
            code(self.0)
        }
        fn update_q_by(&self, s: &mut D, _g: &f64) -> CutStatus {
            s.log.push(2);
            code(self.0)
        }
    }
    impl SearchSpace for D {
        type ArrayType = f64;
        fn xc(&self) -> f64 {
            0.0
        }
        fn tsq(&self) -> f64 {
            1.0
        }
        fn update_bias_cut<T>(&mut self, cut: &(f64, T)) -> CutStatus
        where
            T: UpdateByCutChoice<Self, ArrayType = f64>,
        {
            cut.1.update_bias_cut_by(self, &cut.0)
        }
        fn update_central_cut<T>(&mut self, cut: &(f64, T)) -> CutStatus
        where
            T: UpdateByCutChoice<Self, ArrayType = f64>,
        {
            cut.1.update_central_cut_by(self, &cut.0)
        }
        fn set_xc(&mut self, _x: f64) {}
    }
    for s in 0..4u8 {
        let mut d = D { log: vec![] };
        let r = d.update_q(&(1.0, K(s)));
        c.transitions += 1;
        c.states += 1;
        ensure!(
            c,
            d.log == vec![0] && r == code(s),
            "default discrete update made calls {:?} and returned {:?} for status {}",
            d.log,
            r,
            s
        );
    }
}

// ---------------------------------------------------------------- bisection

struct BOracle<'a> {
    f: &'a mut dyn FnMut(f64) -> bool,
}
impl OracleBS for BOracle<'_> {
    fn assess_bs(&mut self, gamma: f64) -> bool {
        (self.f)(gamma)
    }
}

fn bs_case(c: &mut Ctx, lo: f64, hi: f64, tol: f64, maxit: usize, answer: &mut dyn FnMut(usize, f64) -> bool, desc: &dyn Fn() -> String) {
    let mut qs: Vec<(f64, bool)> = vec![];
    let mut iv = (lo, hi);
    let opt = Options::new(maxit, tol);
    let (feas, niter) = {
        let mut f = |g: f64| {
            assert!(qs.len() < maxit, "bisection exceeded its iteration limit {}", maxit);
            let a = answer(qs.len(), g);
            qs.push((g, a));
            a
        };
        let mut o = BOracle { f: &mut f };
        bsearch(&mut o, &mut iv, &opt)
    };
    c.transitions += qs.len() as u64 + 1;
    c.traces += 1;
    // reference
    let (mut l, mut u) = (lo, hi);
    let mut any = false;
    for (k, &(g, a)) in qs.iter().enumerate() {
        let half = (u - l) / 2.0;
        ensure!(
            c,
            half >= tol,
            "query {} although half the interval {} is below the tolerance: {} queries {:?}",
            k,
            half,
            desc(),
            qs
        );
        let m = l + half;
        ensure!(
            c,
            (g - m).abs() <= 1e-12 * (u - l) + 4.0 * f64::EPSILON * l.abs().max(u.abs()),
            "query {} at {} is not the midpoint of [{}, {}]: {}",
            k,
            g,
            l,
            u,
            desc()
        );
        if a {
            u = g;
            any = true;
        } else {
            l = g;
        }
        c.seen(&[l, u, tol, maxit as f64]);
    }
    ensure!(
        c,
        qs.len() == maxit || (u - l) / 2.0 < tol,
        "stopped after {} queries (limit {}) with interval [{}, {}], tolerance {}: {}",
        qs.len(),
        maxit,
        l,
        u,
        tol,
        desc()
    );
    ensure!(c, niter == qs.len(), "reported {} iterations, made {} queries: {}", niter, qs.len(), desc());
    ensure!(c, feas == any, "reported feasible={} but the oracle accepted a value: {}: {} queries {:?}", feas, any, desc(), qs);
    ensure!(
        c,
        iv == (l, u),
        "interval left at {:?}, bracket found is ({}, {}): {} queries {:?}",
        iv,
        l,
        u,
        desc(),
        qs
    );
}

pub fn c12(c: &mut Ctx) {
    let ivs: Vec<(f64, f64)> = vec![
        (0.0, 1.0),
        (-4.0, 4.0),
        (2.0, 2.0),
        (0.0, 100.0),
        (-8.0, -1.0),
        (1e-6, 3e-6),
        (-1e6, 5e6),
        (0.0, 0.0),
        (-3.0, 0.0),
        (1.0, 1.0 + 1e-9),
        (0.0, 1e-30),
        (-2e-20, 1e-20),
        (1e30, 3e30),
        (-1e200, 1e200),
        (5e-300, 8e-300),
        (1e15, 1e15 + 64.0),
    ];
    let depth = if c.deep { 19 } else if c.thorough { 16 } else { 13 };
    c.bound(format!(
        "{} intervals x tolerances (fractions of the width and zero) x iteration limits 0..{} x every answer sequence; plus 200-point threshold sweeps with limits up to 300",
        ivs.len(), depth
    ));
    let mut items = vec![];
    for &(l, h) in &ivs {
        for tf in [0.0, 0.3, 0.05, 0.011, 1e-3, 2.0] {
            if tf == 0.0 && l == h {
                continue; // nothing to search, and no tolerance to say so
            }
            if tf == 0.0 && (h - l) < 1e-3 * l.abs().max(h.abs()) {
                continue; // would halve down to neighbouring floats
            }
            for mi in 0..=depth {
                items.push((l, h, tf * if h > l { h - l } else { 1.0 }, mi));
            }
        }
    }
 // tolerance exactly equal to a half-width that is reached (exact in binary): the search goes on
    for &(l, h) in &[(0.0, 1.0), (-4.0, 4.0), (0.0, 96.0), (-8.0, -1.0), (-3.0, 0.0), (1e15, 1e15 + 64.0), (0.0, 2f64.powi(-80)), (-(2f64.powi(70)), 2f64.powi(70))] {
        for k in 1..=5 {
            for mi in [0usize, 1, 2, 3, 4, 5, 6, 9] {
                items.push((l, h, (h - l) * 0.5f64.powi(k), mi));
            }
        }
    }
    c.par(items, |c, &(l, h, tol, mi)| {
        let mut ch = Chooser::default();
        loop {
            if c.stopped() {
                return;
            }
            let mut path = vec![];
            {
                let desc_path = RefCell::new(String::new());
                let mut ans = |_k: usize, _g: f64| {
                    let a = ch.choose(2) == 1;
                    path.push(a);
                    desc_path.borrow_mut().push(if a { '1' } else { '0' });
                    a
                };
                let d = || format!("interval ({}, {}) tolerance {} limit {} answers {}", l, h, tol, mi, desc_path.borrow());
                bs_case(c, l, h, tol, mi, &mut ans, &d);
            }
            if !ch.next() {
                break;
            }
        }
        c.sample(|| format!("interval ({}, {}) tolerance {} limit {}", l, h, tol, mi));
    });
    if c.stopped() {
        return;
    }
    let mut items = vec![];
    for &(l, h) in &ivs {
        for e in [1e-3f64, 1e-8, 1e-12, 0.0] {
            for mi in [5usize, 20, 53, 100, 300] {
                items.push((l, h, e, mi));
            }
        }
    }
    c.par(items, |c, &(l, h, e, mi)| {
        for k in 0..=200 {
            if c.stopped() {
                return;
            }
            // monotone: feasible above the threshold
            let t = l + (h - l) * (k as f64 * 1.013 - 0.5) / 200.0;
            let mut ans = |_k: usize, g: f64| g >= t;
            let d = || format!("interval ({}, {}) tolerance {} limit {} threshold {}", l, h, e, mi, t);
            // with tolerance zero the interval may collapse to neighbouring floats; keep above rounding
            let e2 = if e == 0.0 && mi > 40 { 1e-13 * (h - l).max(1e-9) + 1e-15 * h.abs().max(l.abs()) } else { e.max(8.0 * f64::EPSILON * h.abs().max(l.abs())) };
            if l == h && e2 == 0.0 {
                continue;
            }
            bs_case(c, l, h, e2, mi, &mut ans, &d);
        }
    });
    if c.stopped() {
        return;
    }
    // one-sided searches, halving down to the smallest numbers; one deviating answer at every position
    c.bound("one-sided searches of up to 1040 probes towards an end at 0 (all yes / all no), limits around the end, one deviating answer at every position");
    let mut items = vec![];
    for (l, h, base) in [(0.0, 1.0, true), (-1.0, 0.0, false), (0.0, 1e6, true), (-3e9, 0.0, false)] {
        for p in 0..=1000usize {
            items.push((l, h, base, p));
        }
    }
    c.par(items, |c, &(l, h, base, p): &(f64, f64, bool, usize)| {
        if c.stopped() {
            return;
        }
        let mut ans = |k: usize, _g: f64| (k == p) != base;
        let tol = (h - l) * 2f64.powi(-(p as i32) - 20);
        for mi in [p, p + 1, p + 5, p + 40] {
            let d = || format!("interval ({}, {}) tolerance {} limit {} answers {} except number {}", l, h, tol, mi, base, p);
            bs_case(c, l, h, tol, mi, &mut ans, &d);
        }
        if p % 50 == 0 {
            let mut all = |_k: usize, _g: f64| base;
            let tol = (h - l) * 2f64.powi(-1040);
            for mi in [p, p + 60, 4000] {
                let d = || format!("interval ({}, {}) tolerance {} limit {} all answers {}", l, h, tol, mi, base);
                bs_case(c, l, h, tol, mi, &mut all, &d);
            }
        }
    });
}

// ---------------------------------------------------------------- adaptor

pub fn c13(c: &mut Ctx) {
    // sequences of levels, each solved by a feasibility run whose environment is enumerated
    let cfgs: Vec<(usize, usize)> = if c.deep {
        vec![(1, 0), (1, 1), (1, 5), (2, 2), (2, 3), (3, 2), (4, 1), (5, 1), (6, 1), (4, 2), (3, 3)]
    } else if c.thorough {
        vec![(1, 0), (1, 1), (1, 4), (2, 2), (2, 3), (3, 2), (4, 1), (5, 1), (4, 2)]
    } else {
        vec![(1, 0), (1, 1), (1, 3), (2, 2), (3, 1), (4, 1), (3, 2)]
    };
    c.bound(format!("(number of levels, iteration limit per level) in {:?}: every environment answer at every level", cfgs));
    let gam: Vec<fn(usize) -> f64> = vec![
        |l| 10.0 - 3.0 * l as f64,
        |_| 5.0,
        |l| -2.0 + 4.0 * l as f64,
        |l| [1.0, -2e9, 8.0, 0.0, 1e-12][l % 5],
    ];
    c.bound("levels decreasing, constant, increasing and jumping");
    let mut items = vec![];
    for (l, m) in cfgs {
        for g in 0..gam.len() {
            if l > 1 || g == 0 {
                items.push((l, m, g));
            }
        }
    }
    c.par(items, |c, &(levels, mi, gi)| {
        let e = env(0, usize::MAX);
        loop {
            if c.stopped() {
                return;
            }
            e.borrow_mut().reset();
            c.cur = format!("levels {} limit {} script {:?}", levels, mi, e.borrow().ch.script);
            let space = MSpace {
                e: e.clone(),
                x: Pt(7),
                tsq: 0.25,
                updates: 0,
            };
            let o = MOracle {
                e: e.clone(),
                gamma: f64::NAN,
            };
            let mut ad = BSearchAdaptor::new(o, space, Options::new(mi, TOL));
            let mut start = Pt(7);
            for lv in 0..levels {
                let gamma = gam[gi](lv);
                let (a0, l0) = {
                    let b = e.borrow();
                    (b.answers.len(), b.log.len())
                };
                let fresh0 = e.borrow().fresh;
                let got = ad.assess_bs(gamma);
                let b = e.borrow();
                c.traces += 1;
                c.states += 1;
                let ans = &b.answers[a0..];
                let log = &b.log[l0..];
                c.transitions += log.len() as u64;
                let d = format!("level {} (gamma {}) limit {} answers {:?}", lv, gamma, mi, b.answers);
                ensure!(c, ans.len() <= mi, "more than {} queries for one level: {}", mi, d);
                ensure!(c, log.first() == Some(&Ev::Gamma(gamma)), "the level was not given to the oracle before solving: first call {:?}: {}", log.first(), d);
                let feas = ans.last().map(|a| a.feasible).unwrap_or(false);
                ensure!(c, got == feas, "returned {} but the oracle's last word was feasible={}: {}", got, feas, d);
                // replay the queries
                let mut x = start;
                let mut fresh = fresh0;
                let mut k = 1;
                for a in ans {
                    match log.get(k) {
                        Some(Ev::Query { x: qx, gamma: g, .. }) => {
                            ensure!(c, *qx == x && *g == gamma, "query at {:?} level {}, expected {:?} level {}: {}", qx, g, x, gamma, d);
                        }
                        o => {
                            c.fail(format!("expected a query, got {:?}: {}", o, d));
                            return;
                        }
                    }
                    k += 1;
                    if a.feasible {
                        break;
                    }
                    ensure!(c, matches!(log.get(k), Some(Ev::Update { kind: 0, .. })), "expected a deep cut, got {:?}: {}", log.get(k), d);
                    k += 1;
                    if a.moved {
                        fresh += 1;
                        x = Pt(fresh);
                    }
                }
                ensure!(c, k == log.len(), "extra calls {:?}: {}", &log[k..], d);
                if feas {
                    start = x;
                }
                ensure!(c, ad.space.x == start, "stored centre {:?}, expected {:?}: {}", ad.space.x, start, d);
                ensure!(c, ad.space.updates == 0 && ad.space.tsq == 0.25, "the stored search space was consumed by a level ({} cuts): {}", ad.space.updates, d);
            }
            c.sample(|| format!("levels {} limit {} answers {:?}", levels, mi, e.borrow().answers));
            let more = e.borrow_mut().ch.next();
            if !more {
                break;
            }
        }
        c.cur.clear();
    });
    if c.stopped() {
        return;
    }
    let long: Vec<(usize, usize)> = if c.deep { vec![(3, 2000), (3, 50_000), (60, 400), (3000, 5), (1, 700_000)] } else if c.thorough { vec![(3, 2000), (3, 5000), (60, 40), (300, 5), (1, 70_000)] } else { vec![(3, 2000), (60, 40), (300, 5), (1, 70_000)] };
    c.bound(format!("long runs (levels, iteration limit) in {:?}: every level ended by acceptance, refusal, small size or the limit, in every rotation", long));
    let mut items = vec![];
    for (l, m) in long {
        for rot in 0..5usize {
            for at in [0, m / 2, m - 1, m] {
                items.push((l, m, rot, at));
            }
        }
    }
    c.par(items, |c, &(levels, mi, rot, at)| {
        let e = env(0, usize::MAX);
        let space = MSpace {
            e: e.clone(),
            x: Pt(7),
            tsq: 0.25,
            updates: 0,
        };
        let o = MOracle {
            e: e.clone(),
            gamma: f64::NAN,
        };
        let mut ad = BSearchAdaptor::new(o, space, Options::new(mi, TOL));
        let mut start = Pt(7);
        for lv in 0..levels {
            if c.stopped() {
                return;
            }
            let gamma = 100.0 - lv as f64 * if rot % 2 == 0 { 0.5 } else { -0.5 };
            let kind = (lv + rot) % 5;
            e.borrow_mut().reset();
            let base = 1000 * (lv as u64 + 1) * 100;
            e.borrow_mut().fresh = base;
            e.borrow_mut().fixed = Some(Box::new(move |k| {
                let mut a = Ans {
                    feasible: false,
                    shrunk: false,
                    more_alt: true,
                    status: 0,
                    tsq: 1.0,
                    moved: true,
                };
                if k == at {
                    match kind {
                        0 | 1 => a.feasible = true,
                        2 => a.status = 1,
                        3 => a.tsq = TOL / 4.0,
                        _ => {}
                    }
                }
                a.moved = a.status == 0;
                a
            }));
            let got = ad.assess_bs(gamma);
            let b = e.borrow();
            c.traces += 1;
            c.states += 1;
            c.transitions += b.log.len() as u64;
            let d = format!("level {} of {} (gamma {}) limit {} ended in way {} at query {}", lv, levels, gamma, mi, kind, at);
            let want = kind < 2 && at < mi;
            ensure!(c, got == want, "answered {}: {}", got, d);
            let nq = if at < mi && kind < 4 { at + 1 } else { mi };
            ensure!(c, b.queries == nq, "{} queries instead of {}: {}", b.queries, nq, d);
            ensure!(c, b.log.first() == Some(&Ev::Gamma(gamma)), "first call {:?}: {}", b.log.first(), d);
            for (k, q) in b.log[1..].iter().enumerate() {
                let x = if k < 2 { start } else { Pt(base + (k / 2) as u64) };
                let ok = if k % 2 == 0 { *q == Ev::Query { x, gamma, retry: false } } else { *q == Ev::Update { kind: 0, cut: 1001 + (k / 2) as u64, at: x } };
                ensure!(c, ok, "call {} is {:?} (centre {:?}): {}", k, q, x, d);
            }
            if want {
                start = if at == 0 { start } else { Pt(base + at as u64) };
            }
            ensure!(c, ad.space.x == start && ad.space.updates == 0 && ad.space.tsq == 0.25, "stored space {:?} with {} cuts: {}", ad.space.x, ad.space.updates, d);
        }
    });
}
