//! Output: verdict lines, replay files and the evidence file.
use crate::core::*;
use serde_json::json;
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: i64,
    pub out: PathBuf,
    pub start: Instant,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
}
pub static RUN: Mutex<Option<Run>> = Mutex::new(None);
/// Property and file of the replay under way.
pub static REPLAY: Mutex<Option<(String, String)>> = Mutex::new(None);

fn replay_file(r: &Run, v: &Violation, i: usize) -> PathBuf {
    let dir = r.out.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{i}.json", r.id));
    let j = json!({
        "property": r.id, "tier": r.tier, "unit": v.unit, "choices": v.choices,
        "message": v.msg, "trace": v.trace,
        "how": format!("bash /verif/run.sh replay {}", p.display()),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

pub fn evidence(r: &Run, s: &Stats, violations: usize, known: &[String]) {
    let _ = std::fs::create_dir_all(&r.out);
    let exhaustive = !s.capped && s.units == s.units_total && violations == 0;
    let j = json!({
        "property": r.id,
        "tier": r.tier,
        "seed": r.seed,
        "level": "model_checking",
        "coverage": {
            "states": s.states,
            "transitions": s.transitions,
            "traces_validated_against_impl": s.validated,
            "samples": s.samples,
            "executions": s.executions,
            "infeasible_executions": s.skipped,
            "units": s.units,
            "distinct_outcomes": s.outcomes.len(),
            "longest_choice_sequence": s.max_depth,
            "bounds": r.bounds,
            "bounds_completed": exhaustive,
            "exhaustive": exhaustive,
            "known_findings": known,
        },
        "assumptions": r.assumptions,
        "wall_s": r.start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let mut j = j;
    if s.outcomes.is_empty() {
        j["coverage"].as_object_mut().unwrap().remove("distinct_outcomes");
    }
    let p = r.out.join(format!("{}.json", r.id));
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()) {
        engine_error(&format!("cannot write {}: {e}", p.display()));
    }
}

pub fn violation_line(r: &Run, v: &Violation, i: usize) {
    let p = replay_file(r, v, i);
    println!("VIOLATION property={} replay={}", r.id, p.display());
    println!("  unit {}: {}", v.unit, v.msg);
    println!("  choices {:?}", v.choices);
    for t in v.trace.iter().take(60) {
        let mut t = t.clone();
        if t.len() > 300 {
            let mut k = 300;
            while !t.is_char_boundary(k) {
                k -= 1;
            }
            t.truncate(k);
        }
        println!("    {t}");
    }
}

/// A violation from which the process cannot continue.
pub fn fatal(v: Violation) -> ! {
    // The state of the process may be arbitrary here: use nothing that could still be locked.
    let g = match RUN.try_lock() {
        Ok(g) => g,
        Err(_) => {
            println!("VIOLATION property=? replay=none");
            std::process::exit(1);
        }
    };
    if let Some(r) = g.as_ref() {
        violation_line(r, &v, 0);
        let s = Stats { samples: vec![v.msg.clone()], executions: 1, ..Default::default() };
        evidence(r, &s, 1, &[]);
    } else if let Ok(Some((id, file))) = REPLAY.try_lock().as_deref() {
        println!("VIOLATION property={id} replay={file}\n  {}", v.msg);
    }
    std::process::exit(1);
}
