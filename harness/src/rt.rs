//! Exploration runtime: counters, violations, parallel work queue, evidence.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

thread_local! {
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        PANIC_MSG.with(|p| *p.borrow_mut() = s);
    }));
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    /// deepest bounds
    pub deep: bool,
    /// nodes of the explored behaviour graph (configurations reached)
    pub states: u64,
    /// calls into the code under test, each checked
    pub transitions: u64,
    /// complete model traces / enumerated cases replayed on the implementation
    pub traces: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viol: Vec<String>,
    pub known_hits: Vec<String>,
    pub bounds: Vec<String>,
    /// description of the case being executed, for panics
    pub cur: String,
    stop: Arc<AtomicBool>,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Self {
        Ctx {
            prop: prop.to_string(),
            thorough,
            deep: false,
            states: 0,
            transitions: 0,
            traces: 0,
            distinct: HashSet::new(),
            samples: vec![],
            viol: vec![],
            known_hits: vec![],
            bounds: vec![],
            cur: String::new(),
            stop: Arc::new(AtomicBool::new(false)),
        }
    }
    pub fn child(&self) -> Ctx {
        let mut c = Ctx::new(&self.prop, self.thorough);
        c.deep = self.deep;
        c.stop = self.stop.clone();
        c
    }
    pub fn merge(&mut self, o: Ctx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 12 && !self.samples.contains(&s) {
                self.samples.push(s);
            }
        }
        self.viol.extend(o.viol);
        for k in o.known_hits {
            if !self.known_hits.contains(&k) {
                self.known_hits.push(k);
            }
        }
        for b in o.bounds {
            if !self.bounds.contains(&b) {
                self.bounds.push(b);
            }
        }
    }
    pub fn bound(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.bounds.contains(&s) {
            self.bounds.push(s);
        }
    }
    #[inline]
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.viol.len() < 5 {
            self.viol.push(msg.into());
        }
        self.stop.store(true, Ordering::Relaxed);
    }
    /// record a configuration; `states` then counts the distinct ones
    pub fn seen(&mut self, v: &[f64]) {
        self.distinct.insert(hash_f64s(v));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// Run one enumerated case; a panic inside it is a violation.
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce(&mut Ctx)) {
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        if r.is_err() {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            let d = desc();
            let cur = self.cur.clone();
            self.fail(format!("panic while executing case [{}] {}: {}", d, cur, m));
        }
    }
    /// Explore every item on all cores (work queue); stops early on a violation.
    pub fn par<T, F>(&mut self, items: Vec<T>, f: F)
    where
        T: Sync + std::fmt::Debug,
        F: Fn(&mut Ctx, &T) + Sync,
    {
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        let nthr = std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(4)
            .min(8)
            .min(items.len().max(1));
        std::thread::scope(|sc| {
            for _ in 0..nthr {
                sc.spawn(|| {
                    let mut c = self.child();
                    loop {
                        if c.stopped() {
                            break;
                        }
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= items.len() {
                            break;
                        }
                        let it = &items[k];
                        c.case(
                            || {
                                let mut s = format!("{:?}", it);
                                let k = (0..=4000.min(s.len())).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
                                s.truncate(k);
                                s
                            },
                            |c| f(c, it),
                        );
                    }
                    out.lock().unwrap().push(c);
                });
            }
        });
        for c in out.into_inner().unwrap() {
            self.merge(c);
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $cond:expr, $($arg:tt)*) => {
        if !($cond) {
            $c.fail(format!($($arg)*));
            return;
        }
    };
}

pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn jarr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(","))
}

/// all words of length `len` over 0..k
pub fn words(k: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        let mut nx = Vec::with_capacity(out.len() * k);
        for w in &out {
            for a in 0..k {
                let mut w2 = w.clone();
                w2.push(a);
                nx.push(w2);
            }
        }
        out = nx;
    }
    out
}

/// odometer over mixed radices; calls f with every digit vector
pub fn odometer(radix: &[usize], mut f: impl FnMut(&[usize]) -> bool) {
    if radix.iter().any(|&r| r == 0) {
        return;
    }
    let mut d = vec![0usize; radix.len()];
    loop {
        if !f(&d) {
            return;
        }
        let mut i = 0;
        loop {
            if i == d.len() {
                return;
            }
            d[i] += 1;
            if d[i] < radix[i] {
                break;
            }
            d[i] = 0;
            i += 1;
        }
    }
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * (1.0f64).max(a.abs()).max(b.abs())
}
pub fn rclose(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * a.abs().max(b.abs())
}
pub fn hash_f64s(v: &[f64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        h = (h ^ x.to_bits()).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
