mod engine;
mod xml;
mod pkg;
mod report;
mod decks;
mod props;
mod sched;

use engine::*;
use std::time::{Duration, Instant};

extern "C" {
    fn mallopt(param: i32, value: i32) -> i32;
}
fn main() {
    // keep freed memory: the checks allocate and free the same large buffers over and over
    unsafe {
        mallopt(-1, 256 << 20); // M_TRIM_THRESHOLD
        mallopt(-3, 1 << 30); // M_MMAP_THRESHOLD
        mallopt(-2, 64 << 20); // M_TOP_PAD
    }
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        // what each check explores, for mkdesign.py
        "describe" => {
            for p in props::all() {
                println!("P\t{}\t{}", p.id, p.rule);
                p.assumptions.iter().for_each(|x| println!("A\t{x}"));
                for (t, n) in [(Tier::Quick, "Q"), (Tier::Thorough, "T")] {
                    for sc in (p.scenarios)(t) {
                        println!("{n}\t{}\t{}", sc.name, sc.bound);
                    }
                }
            }
        }
        "check" => {
            let tier = if a.iter().any(|x| x == "thorough") { Tier::Thorough } else { Tier::Quick };
            let rc = check(arg(2), tier, a.iter().any(|x| x == "-v"));
            decks::cleanup();
            std::process::exit(rc);
        }
        "replay" => {
            let rc = replay(arg(2));
            decks::cleanup();
            std::process::exit(rc);
        }
        "child" => props::child(&a[2..]),
        _ => {
            eprintln!("usage: mc list | check <ID> [thorough] | replay <file>");
            std::process::exit(2);
        }
    }
}

fn check(id: &str, tier: Tier, verbose: bool) -> i32 {
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("no such property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let known = report::load_known(id);
    let limit = match tier {
        Tier::Quick => 150,
        Tier::Thorough => 3600,
    };
    let limit = std::env::var("MC_LIMIT").ok().and_then(|v| v.parse().ok()).unwrap_or(limit);
    let deadline = t0 + Duration::from_secs(limit);
    let is_known = |sig: &str| known.iter().any(|k| k.sig == sig);
    let hang = |sc: &str, path: &[u32]| {
        let f = Fail { sig: format!("hang:{sc}"), msg: "execution did not finish in its time limit".into() };
        let rp = report::write_replay(id, sc, path, &f, tier);
        println!("{}", f.msg);
        println!("VIOLATION property={id} replay={rp}");
        std::process::exit(1);
    };
    let only = std::env::var("MC_SCENARIO").ok();
    let scs: Vec<Scenario> = (p.scenarios)(tier);
    let mut reps = vec![];
    for sc in &scs {
        if only.as_ref().is_some_and(|o| o != sc.name) {
            continue;
        }
        let r = explore(sc, &Opts { tier, deadline, is_known: &is_known, on_hang: &hang });
        println!(
            "{id} {}: {} executions, {} steps, {} states, {} outcomes, {} nontrivial, exhaustive={}, {:.1}s [{}]",
            r.name, r.execs, r.steps, r.states, r.outcomes, r.nontrivial, r.exhaustive, r.wall, r.bound
        );
        if engine::DEAD_CHOICE.swap(false, std::sync::atomic::Ordering::Relaxed) {
            println!("note: {id} {} offers deviations without a budget for them", r.name);
        }
        if verbose {
            for s in &r.samples {
                println!("   sample {s}");
            }
            for (k, v) in &r.covers {
                println!("   cover {k} = {v}");
            }
        }
        let stop = r.violations.iter().any(|v| !is_known(&v.fail.sig));
        reps.push(r);
        if stop && !verbose {
            break;
        }
    }
    let mut bad = 0;
    let mut seen = std::collections::BTreeSet::new();
    for r in &reps {
        for v in &r.violations {
            if let Some(k) = known.iter().find(|k| k.sig == v.fail.sig) {
                if seen.insert(k.sig.clone()) {
                    println!("KNOWN-FINDING: property={id} {} [{}]", k.desc, k.sig);
                }
            } else {
                bad += 1;
                let rp = report::write_replay(id, &v.scenario, &v.path, &v.fail, tier);
                println!("FAIL {} {} x{}: {}\n  {}", v.scenario, path_str(&v.path), v.count, v.fail.sig, v.fail.msg.replace('\n', "\n  "));
                if bad <= 5 || verbose {
                    println!("VIOLATION property={id} replay={rp}");
                }
            }
        }
    }
    // vacuity: a scenario that must reach its covers
    let mut vac = 0;
    if bad == 0 && only.is_none() {
        for c in (p.must_cover)() {
            if !reps.iter().any(|r| r.covers.contains_key(c)) {
                eprintln!("check {id}: cover {c:?} never reached");
                vac += 1;
            }
        }
    }
    report::write_evidence(&p, tier, &reps, bad, t0.elapsed().as_secs_f64());
    if bad > 0 {
        1
    } else if vac > 0 {
        4
    } else {
        0
    }
}

fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let id = get("property:");
    let scn = get("scenario:");
    let path = parse_path(&get("path:"));
    let tier = if get("tier:") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else { return 2 };
    let scs = (p.scenarios)(tier);
    let Some(sc) = scs.iter().find(|x| x.name == scn) else { return 2 };
    let acc = Acc::default();
    let (fs, _, _, desc, _) = run_one(sc, tier, &path, &acc, true, 0);
    for d in desc {
        println!("{d}");
    }
    for f in &fs {
        println!("FAIL {}: {}", f.sig, f.msg);
    }
    if fs.is_empty() {
        println!("no violation");
        0
    } else {
        1
    }
}
