//! Command line: `<bin> PROPERTY OUT.json [REPLAY_DIR]` explores, `<bin> --replay FILE` repeats a violation.
use crate::model::K;
use crate::*;

fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn life(k: K) -> bool {
    !matches!(k, K::Fork | K::Swap | K::Eq | K::EqSelf | K::Debug | K::Serde)
}

pub fn opts(property: &str, tags: &[&str], thorough: bool) -> Opts {
    use Class::*;
    let mut o = Opts {
        property:  property.to_string(),
        classes:   vec![Result, Displaced, Builder, Crash, Other],
        op:        life,
        max_fails: 0,
        need_fail: false,
        need_fork: false,
        tags:      tags.iter().map(|s| s.to_string()).collect(),
        budget:    if thorough { 20_000_000 } else { 600_000 },
        max_depth: if thorough { 9 } else { 7 },
    };
    match property {
        "C03" => {
            o.max_fails = 2;
            o.need_fail = true;
        }
        "C08" => {
            o.op = |k| k != K::Serde;
            o.need_fork = true;
        }
        "C12" => {
            o.op = |k| life(k) || k == K::Swap;
            o.max_depth = if thorough { 7 } else { 5 };
        }
        "C13" | "C14" => o.max_depth = if thorough { 12 } else { 9 },
        "C15" => {
            o.op = |k| life(k) || matches!(k, K::Swap | K::Serde);
            o.need_fork = true;
        }
        "C18" => {
            o.op = |k| life(k) || matches!(k, K::Fork | K::Swap | K::Serde);
            o.max_fails = 1;
            o.classes = vec![Displaced, Live];
        }
        _ => (),
    }
    if matches!(property, "C03" | "C08" | "C18") && !thorough {
        o.budget = 100_000;
    }
    if let Ok(b) = std::env::var("SEQ_BUDGET") {
        o.budget = b.parse().unwrap();
    }
    crate::model::LIVE.store(o.classes.contains(&Live), std::sync::atomic::Ordering::Relaxed);
    o
}

pub fn main(subjects: Vec<Subject>) {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    if args[1] == "--replay" {
        let txt = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| -> String {
            txt.lines()
                .find_map(|l| l.strip_prefix(&format!("{k}: ")))
                .unwrap_or("")
                .to_string()
        };
        let o = opts(&get("property"), &[], thorough);
        let choices: Vec<(u16, u16)> = get("choices")
            .split_whitespace()
            .map(|s| {
                let (a, b) = s.split_once('/').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .collect();
        let s = subjects.iter().find(|s| s.name == get("subject")).expect("subject");
        let depth = get("depth").parse().unwrap();
        println!("{}", s.src);
        let done = std::thread::spawn(|| {
            std::thread::sleep(Duration::from_secs(30));
            println!("hangs");
            std::process::exit(1);
        });
        let out = replay(s, &o, &choices, depth);
        drop(done);
        println!("{}", out.trace);
        match out.viol {
            Some(v) => {
                println!("{}", v.msg);
                println!("VIOLATION property={} replay={}", o.property, args[2]);
                std::process::exit(1);
            }
            None => {
                println!("not reproduced");
                std::process::exit(0);
            }
        }
    }
    let start = Instant::now();
    let out = args[2].clone();
    let dir = args[3].clone();
    let tags: Vec<&str> = args[4].split(',').collect();
    let o = opts(&args[1], &tags, thorough);
    std::fs::create_dir_all(&dir).unwrap();
    let file = format!("{dir}/{}.txt", o.property);
    let info: Vec<(String, &'static str, usize)> = subjects
        .iter()
        .map(|s| (s.name.clone(), s.src, depth_for(s, &o)))
        .collect();
    let report = {
        let (property, file, info) = (o.property.clone(), file.clone(), info.clone());
        move |name: &str, choices: &[(u16, u16)], msg: &str, trace: &str| {
            let i = info.iter().find(|i| i.0 == name);
            std::fs::write(
                &file,
                format!(
                    "property: {property}\nsubject: {name}\ndepth: {}\nchoices: {}\n\n{msg}\n\n{}\n\n{trace}\n",
                    i.map_or(0, |i| i.2),
                    show_choices(choices),
                    i.map_or("", |i| i.1),
                ),
            )
            .unwrap();
            println!("{msg}\n{trace}");
            println!("VIOLATION property={property} replay={file}");
        }
    };
    let write_cov = {
        let out = out.clone();
        move |st: &Stats, n: usize, depths: &str, samples: &[String], wall: f64| {
            std::fs::write(
                &out,
                format!(
                    "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"structs\":{n},\"abandoned_after_a_violation_of_another_property\":{},\"depths\":{},\"wall_s\":{wall:.2},\"samples\":[{}]}}\n",
                    st.states,
                    st.steps,
                    st.runs,
                    st.abandoned,
                    esc(depths),
                    samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
                ),
            )
            .unwrap();
        }
    };
    let hang = {
        let report = report.clone();
        let write_cov = write_cov.clone();
        move |name: &str, choices: &[(u16, u16)]| {
            report(name, choices, &format!("{name}: an operation never completes"), "");
            write_cov(&Stats::default(), 0, "", &[], 0.0);
            std::process::exit(1);
        }
    };
    let deadline = Duration::from_secs(if thorough { 6000 } else { 600 });
    let res = run_all(&subjects, &o, deadline, hang);
    let mut total = Stats::default();
    let mut samples = vec![];
    let mut depths = std::collections::BTreeMap::new();
    let mut bad = None;
    for (i, st, f) in &res {
        total.runs += st.runs;
        total.steps += st.steps;
        total.states += st.states;
        total.abandoned += st.abandoned;
        *depths.entry(st.depth).or_insert(0) += 1;
        if !st.sample.is_empty() && samples.len() < 4 {
            samples.push(st.sample.clone());
        }
        if std::env::var("SEQ_VERBOSE").is_ok() {
            println!("{}: depth {} runs {} states {}", subjects[*i].name, st.depth, st.runs, st.states);
        }
        if let (Some(f), None) = (f, &bad) {
            bad = Some((*i, f));
        }
    }
    let depths: Vec<String> = depths.iter().map(|(d, n)| format!("{n} structs at depth {d}")).collect();
    write_cov(&total, res.len(), &depths.join(", "), &samples, start.elapsed().as_secs_f64());
    println!(
        "{}: {} structs, {} runs, {} steps, {} states, {} abandoned, {:.1} s ({})",
        o.property,
        res.len(),
        total.runs,
        total.steps,
        total.states,
        total.abandoned,
        start.elapsed().as_secs_f64(),
        depths.join(", ")
    );
    if let Some((i, f)) = bad {
        let r = replay(&subjects[i], &o, &f.choices, info[i].2);
        report(&subjects[i].name, &f.choices, &f.viol.msg, &r.trace);
        std::process::exit(1);
    }
}
