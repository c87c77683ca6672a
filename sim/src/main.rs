mod asset_engine;
mod cache_engine;
mod attacks;
mod ctx;
mod http_engine;
mod ic;
mod js;
mod map_engine;
mod plan;
mod prng;
mod refimpl;
mod runner;
mod sys;
mod load_engine;
mod wire_engine;
mod world;

use runner::{Job, Mode};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::time::Instant;

pub fn engine(name: &str) -> runner::Engine {
    match name {
        "http" => http_engine::run,
        "map" => map_engine::run,
        "cache" => cache_engine::run,
        "asset" => asset_engine::run,
        "wire" => wire_engine::run,
        "load" => load_engine::run,
        _ => panic!("no engine {name}"),
    }
}

fn root() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into()).into()
}

fn arg(a: &[String], name: &str) -> Option<String> {
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned()
}

/// (property, class) of the findings that are recorded rather than repaired.
fn known_findings() -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: ")?;
            let mut it = r.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let c = it.next()?.strip_prefix("class=")?;
            Some((p.to_string(), c.to_string(), it.next().unwrap_or("").to_string()))
        })
        .collect()
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    ctx::install_panic_hook();
    // megabyte buffers come and go all the time: keep their pages
    unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 28);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 28);
    }
    ic::keys();
    cache_engine::presign();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("replay") => replay(&a),
        Some("dev") => dev(&a),
        Some("hash") => hash(&a),
        _ => {
            eprintln!("usage: sim check --property C01 [--tier quick|thorough] [--seed N] [--workers N] | sim replay FILE | sim hash PROPERTY RUNS");
            2
        }
    };
    std::process::exit(code);
}

fn workers(a: &[String]) -> u64 {
    arg(a, "--workers")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16))
}

fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = arg(a, "--property").expect("--property");
    let tier = arg(a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed: u64 = arg(a, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let scale: f64 = arg(a, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cap: f64 = arg(a, "--cap").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780.0 } else { 420.0 });
    let w = workers(a);
    let all_known = known_findings();
    let known: Vec<(String, String)> = all_known.iter().map(|k| (k.0.clone(), k.1.clone())).collect();
    let jobs = plan::jobs(&prop, thorough);
    if jobs.is_empty() {
        eprintln!("no plan for {prop}");
        return 2;
    }
    println!("seed {seed} property {prop} tier {tier} workers {w}");
    let total: u64 = jobs.iter().map(|j| j.runs).sum();
    let mut agg = runner::Agg::default();
    let mut per_job = vec![];
    let mut replay_path = None;
    let mut identical = 0u64;
    let mut samples = vec![];
    let mut errors: Vec<String> = vec![];
    for pj in &jobs {
        let job = Job { engine: pj.engine, profile: pj.profile.to_string(), focus: prop.clone(), thorough };
        let runs = ((pj.runs as f64 * scale) as u64).max(8);
        let left = cap - t0.elapsed().as_secs_f64();
        let share = (left * (runs as f64 / (total as f64 * scale)).max(0.15)).max(left.min(30.0));
        let tj = Instant::now();
        let g = runner::sweep(&job, seed, runs, w, share.max(1.0), &known);
        per_job.push(json!({"engine": job.engine, "profile": job.profile, "runs": g.runs, "distinct_states": g.sigs.len(),
            "log_hash": format!("{:016x}", g.hash), "seconds": tj.elapsed().as_secs_f64(), "stopped_by_time": g.capped}));
        errors.extend(g.errors.iter().cloned());
        let found = g.found.clone();
        // determinism: a sample of the runs again, in fresh processes, must give the same event log
        if found.is_none() {
            let shm = runner::new_shm();
            for run in 0..3.min(g.runs) {
                let rs = runner::run_seed(seed, &job, run);
                let x = runner::execute(&job, rs, Mode::Generate, true, shm);
                let y = runner::execute(&job, rs, Mode::Replay(x.steps.clone()), false, shm);
                if x.trace_hash == y.trace_hash {
                    identical += 1;
                } else {
                    errors.push(format!("run {run} of {}/{} did not replay identically", job.engine, job.profile));
                }
                if run == 1 || g.runs == 1 {
                    samples.push(json!({"engine": job.engine, "profile": job.profile, "run": run, "run_seed": rs,
                        "log": x.trace.iter().take(14).map(|l| l.chars().take(220).collect::<String>()).collect::<Vec<_>>()}));
                }
            }
        }
        agg.merge(g);
        if let Some((run, o)) = found {
            let v = o
                .violations
                .iter()
                .find(|v| v.tags.contains(&prop) && !runner::is_known(&known, &prop, v))
                .unwrap()
                .clone();
            println!("run {run} violates {prop}: {} - {}", v.class, v.msg);
            let rs = runner::run_seed(seed, &job, run);
            let (m, tries) = runner::minimise(&job, rs, o.steps.clone(), &v.class, 600, 60.0);
            let shm = runner::new_shm();
            let o2 = runner::execute(&job, rs, Mode::Replay(m.clone()), true, shm);
            let o3 = runner::execute(&job, rs, Mode::Replay(m.clone()), true, shm);
            let v2 = o2.violations.iter().find(|x| x.class == v.class && x.tags.contains(&prop)).cloned();
            let same = v2.is_some() && o2.trace_hash == o3.trace_hash;
            std::fs::create_dir_all(root().join("out")).ok();
            let p = root().join("out").join(format!("{prop}-seed{seed}-run{run}.json"));
            let file = json!({
                "property": prop, "engine": job.engine, "profile": job.profile, "thorough": thorough,
                "seed": seed, "run": run, "run_seed": rs, "class": v.class,
                "violation": v2.unwrap_or(v).msg, "steps": m, "trace": o2.trace, "trace_hash": format!("{:016x}", o2.trace_hash),
                "replays_identically": same, "minimised_from_steps": o.steps.len(), "minimisation_runs": tries,
            });
            std::fs::write(&p, serde_json::to_string_pretty(&file).unwrap()).unwrap();
            for l in &o2.trace {
                println!("  {}", l.chars().take(400).collect::<String>());
            }
            replay_path = Some(p);
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    for (p, c, d) in &all_known {
        if *p == prop {
            println!("KNOWN-FINDING: property={p} {c} {d} (met {} times in this run)", agg.known.get(c).copied().unwrap_or(0));
        }
    }
    let group = |pre: &str| -> BTreeMap<String, u64> {
        agg.stats.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), *v)).collect()
    };
    let faults = group("fault.");
    let judged: u64 = group("check.").values().sum();
    let engines: BTreeSet<&str> = jobs.iter().map(|j| j.engine).collect();
    let mut parts = engines.clone();
    if jobs.iter().any(|j| js::wanted(j.profile)) {
        parts.insert("js");
    }
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": "one evaluation is one simulated run, fully decided by its seed; it counts as non-trivial if at least one oracle verdict was reached in it, and as distinct if its event log differs from that of every other run",
            "oracle_verdicts": judged,
            "distinct_states": agg.sigs.len(),
            "distinct_states_measure": plan::state_measure(&engines),
            "decisions_drawn": agg.draws,
            "runs_per_hour": (agg.runs as f64 / wall * 3600.0) as u64,
            "simulated_seconds": agg.sim_ns / 1_000_000_000,
            "faults_injected": faults,
            "tampering_injected": group("attack."),
            "benign_noise_injected": group("noise."),
            "operations": group("op."),
            "verdicts": group("check."),
            "probes": group("probe."),
            "code_under_test": group("verify."),
            "replayed_identically": identical,
            "jobs": per_job,
            "real_components": plan::real(&parts),
            "stub_components": plan::stubs(&parts),
            "stopped_by_time": agg.capped,
            "samples": samples,
        },
        "assumptions": plan::assumptions(&engines),
        "wall_s": wall,
        "violations": if replay_path.is_some() { 1 } else { 0 },
    });
    std::fs::create_dir_all(root().join("evidence")).ok();
    std::fs::write(root().join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs, {} verdicts, {} distinct states, {:.0} s; log hash {:016x}",
        agg.runs,
        judged,
        agg.sigs.len(),
        wall,
        agg.hash
    );
    if let Some(p) = replay_path {
        println!("VIOLATION property={prop} replay={}", p.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(10) {
            eprintln!("harness error: {e}");
        }
        return 2;
    }
    0
}

fn replay(a: &[String]) -> i32 {
    let f: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let s = |k: &str| f[k].as_str().unwrap().to_string();
    let steps: Vec<Vec<u64>> = serde_json::from_value(f["steps"].clone()).unwrap();
    let job = Job { engine: leak(s("engine")), profile: s("profile"), focus: s("property"), thorough: f["thorough"].as_bool().unwrap() };
    let o = runner::execute(&job, f["run_seed"].as_u64().unwrap(), Mode::Replay(steps), true, runner::new_shm());
    for l in &o.trace {
        println!("{l}");
    }
    if let Some(e) = &o.harness_error {
        eprintln!("harness error: {e}");
    }
    let hit = o.violations.iter().find(|v| v.class == s("class") && v.tags.contains(&job.focus));
    let same = format!("{:016x}", o.trace_hash) == s("trace_hash");
    println!("event log identical to the recorded one: {same}");
    match hit {
        Some(v) => {
            println!("{}", v.msg);
            println!("VIOLATION property={} replay={}", job.focus, a[2]);
            1
        }
        None => {
            println!("the recorded violation does not occur");
            0
        }
    }
}

/// Prints the combined event-log hash of a batch: equal for equal seeds at any worker count.
fn hash(a: &[String]) -> i32 {
    let runs: u64 = a[3].parse().unwrap();
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    for pj in plan::jobs(&a[2], false) {
        let job = Job { engine: pj.engine, profile: pj.profile.to_string(), focus: a[2].clone(), thorough: false };
        let g = runner::sweep(&job, seed, runs, workers(a), 600.0, &[]);
        println!("{} {} {} {:016x} {} {}", a[2], job.engine, job.profile, g.hash, g.draws, g.sigs.len());
    }
    0
}

/// Development: sim dev ENGINE PROFILE RUNS [--focus P] [--seed N] [stats]
fn dev(a: &[String]) -> i32 {
    let job = Job {
        engine: leak(a[2].clone()),
        profile: a[3].clone(),
        focus: arg(a, "--focus").unwrap_or(a[3].clone()),
        thorough: a.iter().any(|x| x == "thorough"),
    };
    let runs: u64 = a[4].parse().unwrap();
    let seed: u64 = arg(a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let t = Instant::now();
    let known: Vec<(String, String)> = known_findings().into_iter().map(|k| (k.0, k.1)).collect();
    let g = runner::sweep(&job, seed, runs, workers(a), 3600.0, &known);
    println!("runs {} in {:?} draws {} sigs {} hash {:x}", g.runs, t.elapsed(), g.draws, g.sigs.len(), g.hash);
    for (k, v) in &g.others {
        println!("other {v} {k}");
    }
    for e in g.errors.iter().take(5) {
        println!("error {e}");
    }
    if a.iter().any(|x| x == "stats") {
        for (k, v) in &g.stats {
            println!("{k} {v}");
        }
    }
    if let Some((run, o)) = g.found {
        let v = o.violations.iter().find(|v| v.tags.contains(&job.focus) && !runner::is_known(&known, &job.focus, v)).unwrap().clone();
        println!("run {run} {:?}", v);
        let rs = runner::run_seed(seed, &job, run);
        let (m, tries) = runner::minimise(&job, rs, o.steps, &v.class, 800, 60.0);
        let o = runner::execute(&job, rs, Mode::Replay(m.clone()), true, runner::new_shm());
        println!("minimised with {tries} tries to {} steps", m.len());
        for l in o.trace {
            println!("{l}");
        }
        println!("{:?}", o.violations);
    }
    0
}
