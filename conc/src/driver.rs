//! Command line: `<bin> <property> <out.json>` runs a check, `<bin> --replay FILE` repeats a recorded violation.
use crate::*;
use std::fmt::Write;

pub struct Spec {
    pub property: &'static str,
    /// What is enumerated
    pub rule:     String,
    pub jobs:     Vec<Job>,
    pub bounds:   String,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn tier() -> &'static str {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        "thorough"
    }
    else {
        "quick"
    }
}

pub fn main(specs: impl Fn(&str, bool) -> Option<Spec>) {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--replay" {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| -> String {
            txt.lines()
                .find_map(|l| l.strip_prefix(&format!("{k}: ")))
                .unwrap_or("")
                .to_string()
        };
        let spec = specs(&get("property"), get("tier") == "thorough").expect("property");
        let i: usize = get("job").parse().unwrap();
        let sched: Vec<u8> = get("schedule")
            .split_whitespace()
            .map(|s| s.parse().unwrap())
            .collect();
        let j = &spec.jobs[i];
        println!("flavour {}\nprogram {:?}", j.flavour.name, j.program);
        let mut ex = Explorer::new(j.program.threads.len());
        match ex.replay(&sched, |h| mk_run(&j.flavour, &j.program, h, j.check.clone())) {
            Some(v) => {
                println!("{}\n{}", v.msg, v.trace);
                println!("VIOLATION property={} replay={}", spec.property, args[2]);
                std::process::exit(1);
            }
            None => {
                println!("not reproduced");
                std::process::exit(0);
            }
        }
    }
    let thorough = tier() == "thorough";
    let start = Instant::now();
    let spec = specs(&args[1], thorough).expect("no such property");
    let budget = std::env::var("MC_BUDGET")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3000 } else { 420 });
    let njobs = spec.jobs.len();
    let samples: Vec<String> = (0..3)
        .filter_map(|i| spec.jobs.get(njobs * (2 * i + 1) / 6))
        .map(|j| format!("{}: {:?}", j.flavour.name, j.program))
        .collect();
    let jobs = Arc::new(spec.jobs);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let tot = explore_all(jobs.clone(), workers, start + secs(budget), if thorough { 2_000_000 } else { 60_000 });
    let complete = tot.skipped == 0 && tot.stats.incomplete == 0 && tot.stats.truncated == 0 && tot.stats.externals == 0;
    let mut violated = false;
    let dir = std::env::var("MC_REPLAY_DIR").unwrap_or("/verif/evidence/replay".into());
    let _ = std::fs::create_dir_all(&dir);
    if let Some((i, v)) = tot.viol.first() {
        violated = true;
        let path = format!("{dir}/{}.txt", spec.property);
        let mut s = String::new();
        let _ = writeln!(s, "property: {}", spec.property);
        let _ = writeln!(s, "tier: {}", tier());
        let _ = writeln!(s, "job: {i}");
        let _ = writeln!(s, "schedule: {}", v.schedule.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(s, "flavour: {}", jobs[*i].flavour.name);
        let _ = writeln!(s, "program: {:?}", jobs[*i].program);
        let _ = writeln!(s, "\n{}\n\nschedule:\n{}", v.msg, v.trace);
        let _ = std::fs::write(&path, &s);
        println!("{s}");
        println!("VIOLATION property={} replay={path}", spec.property);
    }
    let mut fl = String::new();
    for (k, (p, e)) in &tot.by_flav {
        let _ = write!(fl, "{}{}: {{\"programs\": {p}, \"schedules\": {e}}}", if fl.is_empty() { "" } else { ", " }, esc(k));
    }
    let mut sh = String::new();
    for (k, (p, e)) in &tot.by_shape {
        let _ = write!(sh, "{}{}: {{\"programs\": {p}, \"schedules\": {e}}}", if sh.is_empty() { "" } else { ", " }, esc(k));
    }
    let ev = format!(
        "{{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \
         \"programs\": {}, \"programs_not_reached\": {}, \"programs_cut_short\": {}, \"steps_outside_of_model\": {}, \
         \"exhaustive\": {complete}, \"bounds\": {}, \"rule\": {}, \"per_struct\": {{{fl}}}, \"per_shape\": {{{sh}}}, \"samples\": [{}]}}",
        tot.stats.states,
        tot.stats.transitions,
        tot.stats.executions,
        tot.programs,
        tot.skipped,
        tot.stats.incomplete + tot.stats.truncated,
        tot.stats.externals,
        esc(&spec.bounds),
        esc(&spec.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
    );
    println!(
        "{}: programs={} schedules={} states={} transitions={} skipped={} cut={} external={} wall={:.1}s",
        spec.property,
        tot.programs,
        tot.stats.executions,
        tot.stats.states,
        tot.stats.transitions,
        tot.skipped,
        tot.stats.incomplete + tot.stats.truncated,
        tot.stats.externals,
        start.elapsed().as_secs_f64()
    );
    if let Some(p) = args.get(2) {
        std::fs::write(p, ev).expect("write coverage");
    }
    std::process::exit(if violated { 1 } else { 0 });
}
