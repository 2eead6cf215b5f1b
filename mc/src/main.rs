//! Bounded exhaustive model checking of bytecodec, on the real code.
#![allow(clippy::type_complexity)]
mod core;
mod drive;
mod dterm;
mod eterm;
mod fix;
mod known;
mod props;
mod report;
mod val;

use std::path::PathBuf;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: core::Tracking = core::Tracking;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    core::install_panic_hook();
    core::catch_crashes();
    let out = PathBuf::from(std::env::var("MC_OUT").unwrap_or_else(|_| "/verif/evidence".into()));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2], &tier, seed, out),
        Some("replay") => replay(&args[2]),
        Some("units") => {
            for u in props::units(&args[2], tier == "thorough").0 {
                println!("{}", u.label);
            }
        }
        _ => core::engine_error("usage: mc check ID | replay FILE | units ID"),
    }
}

fn check(id: &str, tier: &str, seed: i64, out: PathBuf) {
    let thorough = tier == "thorough";
    let start = Instant::now();
    let (mut units, bounds) = props::units(id, thorough);
    if units.is_empty() {
        core::engine_error(&format!("no units for {id}"));
    }
    if let Ok(f) = std::env::var("MC_UNIT") {
        units.retain(|u| u.label.contains(&f));
    }
    // Several rounds over the units: cheap ones spread the load; order does not matter for coverage.
    *report::RUN.lock().unwrap() = Some(report::Run {
        id: id.into(),
        tier: tier.into(),
        seed,
        out,
        start,
        bounds,
        assumptions: props::assumptions(id),
    });
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 7200 } else { 600 });
    let mut o = core::Opts { deadline: Some(start + Duration::from_secs(budget)), ..Default::default() };
    if let Ok(t) = std::env::var("MC_THREADS") {
        o.threads = t.parse().unwrap();
    }
    let s = core::explore(&units, &o);
    let known = known::run(id);
    let g = report::RUN.lock().unwrap();
    let r = g.as_ref().unwrap();
    let mut bad = s.violations.len();
    for (i, v) in s.violations.iter().enumerate() {
        report::violation_line(r, v, i);
    }
    let mut listed = vec![];
    for k in known {
        match k {
            known::Kf::Listed(m) => {
                println!("KNOWN-FINDING: property={id} {m}");
                listed.push(m);
            }
            known::Kf::Unlisted(m) => {
                let v = core::Violation { unit: "known-findings".into(), choices: vec![], msg: m, trace: vec![] };
                report::violation_line(r, &v, 100 + bad);
                bad += 1;
            }
        }
    }
    report::evidence(r, &s, bad, &listed);
    println!(
        "{id} {tier}: {} units, {} executions, {} transitions, {} states, {} outcomes, {:.1}s{}",
        s.units,
        s.executions,
        s.transitions,
        s.states,
        s.outcomes.len(),
        start.elapsed().as_secs_f64(),
        if s.capped { " (time budget hit: not exhaustive)" } else { "" }
    );
    std::process::exit(if bad > 0 { 1 } else { 0 });
}

fn replay(file: &str) {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).unwrap();
    let id = j["property"].as_str().unwrap();
    let thorough = j["tier"] == "thorough";
    let label = j["unit"].as_str().unwrap();
    let choices: Vec<u32> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    let (units, _) = props::units(id, thorough);
    let Some(u) = units.iter().find(|u| u.label == label) else {
        core::engine_error(&format!("no unit {label}"));
    };
    *report::REPLAY.lock().unwrap() = Some((id.into(), file.into()));
    let stuck = format!("VIOLATION property={id} replay={file}\n  a call did not return within 60s (endless loop)");
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(60));
        println!("{stuck}");
        std::process::exit(1);
    });
    let (r, trace) = std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || core::replay(u, &choices)).unwrap().join().unwrap());
    for t in trace {
        println!("{t}");
    }
    match r {
        Ok(()) => println!("held"),
        Err(m) => {
            println!("VIOLATION property={id} replay={file}\n  {m}");
            std::process::exit(1);
        }
    }
}
