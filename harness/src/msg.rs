//! C24: options, cut choices, verdicts and errors carry exactly what was put into them.
use crate::ensure;
use crate::rt::*;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::error::EllipsoidError;
use std::collections::HashMap;

/// does `text` contain `num` as a whole number token?
fn has_number(text: &str, num: &str) -> bool {
    let b = text.as_bytes();
    let part = |ch: u8| ch.is_ascii_digit();
    let mut at = 0;
    while let Some(p) = text[at..].find(num) {
        let s = at + p;
        let e = s + num.len();
        let before = s == 0 || !(part(b[s - 1]) || b[s - 1] == b'-' || (b[s - 1] == b'.' && s > 1 && part(b[s - 2])));
        let after = e == b.len() || !(part(b[e]) || (b[e] == b'.' && e + 1 < b.len() && part(b[e + 1])) || b[e] == b'e');
        if before && after {
            return true;
        }
        at = s + 1;
        while !text.is_char_boundary(at) {
            at += 1;
        }
    }
    false
}

pub fn c24(c: &mut Ctx) {
    let its: Vec<usize> = if c.thorough { (0..=60).chain([99, 100, 101, 999, 1000, 2000, 65535, 65536, 1_000_000, usize::MAX]).collect() } else { vec![0, 1, 2, 7, 10, 49, 50, 51, 99, 100, 101, 255, 256, 999, 1000, 2000, 65536, 1_000_000, usize::MAX] };
    let vals: Vec<Option<f64>> = vec![None, Some(0.0), Some(-0.5), Some(0.5), Some(1.0), Some(-1.0), Some(2.25), Some(1e-3), Some(123456.75), Some(-98765.5), Some(1e-9), Some(1e20), Some(f64::INFINITY), Some(f64::NEG_INFINITY), Some(f64::MAX), Some(f64::MIN_POSITIVE)];
    let texts: Vec<String> = ["", "x", "a b", "Constraints conflict", "value: 3", "ünïcode ✗", "line\nbreak", "{}", "%s", "infeasible", "(value: 1)", ". Final objective value: 2"]
        .iter()
        .map(|s| s.to_string())
        .chain([String::from("long ").repeat(200), "0".into(), "100".into()])
        .collect();
    c.bound(format!("every error over {} counts x {} counts x {} values and {} texts x {} values; every verdict; options and cut choices over the same grids", its.len(), its.len(), vals.len(), texts.len(), vals.len()));
    let mut all: Vec<EllipsoidError> = vec![];
    for &i in &its {
        for &m in &its {
            for v in &vals {
                all.push(EllipsoidError::NonConvergence { iterations: i, max_iters: m, final_value: *v });
            }
        }
    }
    for t in &texts {
        all.push(EllipsoidError::Infeasible { reason: t.clone() });
        all.push(EllipsoidError::InvalidParameters { details: t.clone() });
        all.push(EllipsoidError::MatrixError { details: t.clone() });
        for v in &vals {
            all.push(EllipsoidError::NumericalInstability { details: t.clone(), value: *v });
        }
    }
    let mut seen: HashMap<String, usize> = HashMap::new();
    for (k, e) in all.iter().enumerate() {
        let s = e.to_string();
        c.states += 1;
        c.transitions += 1;
        c.traces += 1;
        ensure!(c, !s.trim().is_empty(), "empty message for {:?}", e);
        let num = |v: f64| has_number(&s, &v.to_string());
        match e {
            EllipsoidError::NonConvergence { iterations, max_iters, final_value } => {
                ensure!(c, has_number(&s, &iterations.to_string()) && has_number(&s, &max_iters.to_string()), "message {:?} does not give the counts {} and {}", s, iterations, max_iters);
                if let Some(v) = final_value {
                    ensure!(c, num(*v), "message {:?} does not give the final value {}", s, v);
                }
            }
            EllipsoidError::Infeasible { reason } => ensure!(c, s.contains(reason.as_str()), "message {:?} does not give the reason {:?}", s, reason),
            EllipsoidError::InvalidParameters { details } | EllipsoidError::MatrixError { details } => ensure!(c, s.contains(details.as_str()), "message {:?} does not give the details {:?}", s, details),
            EllipsoidError::NumericalInstability { details, value } => {
                ensure!(c, s.contains(details.as_str()), "message {:?} does not give the details {:?}", s, details);
                if let Some(v) = value {
                    ensure!(c, num(*v), "message {:?} does not give the value {}", s, v);
                }
            }
        }
        let cl = e.clone();
        ensure!(c, cl == *e && cl.to_string() == s, "a copy of {:?} differs: {:?}", e, cl);
        let b: Box<dyn std::error::Error> = Box::new(cl);
        ensure!(c, b.to_string() == s, "as a boxed error {:?} reads {:?}, not {:?}", e, b.to_string(), s);
        // different errors read differently
        if let Some(&o) = seen.get(&s) {
            // texts may imitate the rest of a message; only data-only collisions count
            let imitates = format!("{:?}{:?}", all[o], e).contains("value: ") && format!("{:?}", e).contains("details");
            ensure!(c, imitates, "{:?} and {:?} give the same message {:?}", all[o], e, s);
        }
        seen.insert(s, k);
        c.sample(|| format!("{:?} -> {}", e, e));
    }
    // equality distinguishes every pair (on a sub-grid)
    let sub: Vec<&EllipsoidError> = all.iter().step_by(if c.deep { 2 } else if c.thorough { 7 } else { 13 }).collect();
    for (i, a) in sub.iter().enumerate() {
        for (j, b) in sub.iter().enumerate() {
            c.transitions += 1;
            ensure!(c, (a == b) == (i == j), "equality of {:?} and {:?} is {}", a, b, a == b);
        }
    }
    // verdicts
    let sts = [CutStatus::Success, CutStatus::NoSoln, CutStatus::NoEffect, CutStatus::Unknown];
    for (i, a) in sts.iter().enumerate() {
        for (j, b) in sts.iter().enumerate() {
            c.transitions += 1;
            c.states += 1;
            ensure!(c, (a == b) == (i == j), "equality of {:?} and {:?}", a, b);
            ensure!(c, (a.to_string() == b.to_string()) == (i == j), "{:?} and {:?} read {:?} and {:?}", a, b, a.to_string(), b.to_string());
        }
    }
    // cut choices
    let nums: Vec<f64> = vals.iter().flatten().cloned().collect();
    for &x in &nums {
        for y in &vals {
            let p = ParallelCut(x, *y);
            c.transitions += 1;
            c.states += 1;
            ensure!(c, p.beta0() == x && p.beta1() == *y, "{:?} has bounds {} and {:?}", p, p.beta0(), p.beta1());
            let q = p;
            ensure!(c, q == p, "a copy of {:?} differs", p);
            for &x2 in &nums {
                for y2 in &vals {
                    ensure!(c, (ParallelCut(x2, *y2) == p) == (x == x2 && *y == *y2), "equality of {:?} and {:?}", p, ParallelCut(x2, *y2));
                }
            }
        }
        for &x2 in &nums {
            ensure!(c, (SingleCut(x) == SingleCut(x2)) == (x == x2), "equality of single cuts {} and {}", x, x2);
        }
    }
    // options
    for &m in &its {
        for &t in &nums {
            let o = Options::new(m, t);
            c.transitions += 1;
            c.states += 1;
            ensure!(c, o.max_iters == m && o.tolerance == t && !o.verbose, "Options::new({}, {}) gives {} {} {}", m, t, o.max_iters, o.tolerance, o.verbose);
        }
    }
    let o = Options::default();
    ensure!(c, o.max_iters == 2000 && o.tolerance == 1e-20 && !o.verbose, "default options are {} {} {}", o.max_iters, o.tolerance, o.verbose);
}
