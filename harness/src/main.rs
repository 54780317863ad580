mod calc;
mod drv;
mod e2e;
mod iso;
mod msg;
mod sdp;
mod ells;
mod ldlt;
mod num;
mod orac;
mod linalg;
mod rt;
use rt::*;
use std::fs;
use std::time::Instant;

type Check = fn(&mut Ctx);

fn table() -> Vec<(&'static str, Check)> {
    vec![
        ("C01", ells::c01),
        ("C02", ells::c02),
        ("C03", ells::c03),
        ("C04", ells::c04),
        ("C05", ells::c05),
        ("C06", ells::c06),
        ("C07", calc::c07),
        ("C08", ells::c08),
        ("C09", drv::c09),
        ("C10", drv::c10),
        ("C11", drv::c11),
        ("C12", drv::c12),
        ("C13", drv::c13),
        ("C14", ldlt::c14),
        ("C15", ldlt::c15),
        ("C16", orac::c16),
        ("C17", orac::c17),
        ("C18", orac::c18),
        ("C19", num::c19),
        ("C20", num::c20),
        ("C21", num::c21),
        ("C22", e2e::c22),
        ("C23", sdp::c23),
        ("C24", msg::c24),
        ("C25", iso::c25),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let num = |k: usize| args.get(k).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    match args.get(1).map(|s| &s[..]) {
        Some("iso-solo") => return iso::solo(num(2), num(3)),
        Some("iso-shard") => {
            install_hook();
            return iso::shard(num(2), num(3), num(4), num(5), num(6) == 1);
        }
        _ => {}
    }
    if args.len() < 4 {
        eprintln!("usage: mc <property> <quick|thorough> <out-dir>");
        std::process::exit(2);
    }
    let (prop, tier, out) = (args[1].clone(), args[2].clone(), args[3].clone());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    install_hook();
    let f = match table().into_iter().find(|(p, _)| *p == prop) {
        Some((_, f)) => f,
        None => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    };
    let t0 = Instant::now();
    // checks whose large bounds take seconds only use them on every run; their thorough tier goes deeper
    let cheap = ["C05", "C07", "C12", "C13", "C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C24"].contains(&&prop[..]);
    let mut c = Ctx::new(&prop, cheap || tier == "thorough");
    c.deep = cheap && tier == "thorough";
    c.case(|| "top level".into(), |c| f(c));
    let wall = t0.elapsed().as_secs_f64();
    let bounds = c.bounds.clone();
    if !c.distinct.is_empty() {
        c.states = c.distinct.len() as u64;
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":true,\"bounds\":{},\"samples\":{}}},\"wall_s\":{:.3},\"assumptions\":[\"explored directly on the implementation built from /repo; every state is a reached configuration of the real code\",\"values outside the enumerated alphabets are not covered\"],\"violations\":{}}}\n",
        jesc(&prop), jesc(&tier), seed, c.states, c.transitions, c.traces,
        jarr(&bounds), jarr(&c.samples), wall, c.viol.len()
    );
    let _ = fs::create_dir_all(&out);
    fs::write(format!("{}/{}.json", out, prop), ev).expect("write evidence");
    println!(
        "{} {}: states={} transitions={} traces={} wall={:.1}s",
        prop, tier, c.states, c.transitions, c.traces, wall
    );
    for k in &c.known_hits {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    if !c.viol.is_empty() {
        let rd = format!("{}/replays", out);
        let _ = fs::create_dir_all(&rd);
        let path = format!("{}/{}.txt", rd, prop);
        fs::write(&path, c.viol.join("\n---\n")).expect("write replay");
        for v in &c.viol {
            let mut s = v.clone();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            println!("  {}", s.replace('\n', " "));
        }
        println!("VIOLATION property={} replay={}", prop, path);
        std::process::exit(1);
    }
}
