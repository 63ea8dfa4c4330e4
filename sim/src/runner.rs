//! The search: seeds are spread over worker processes, a watchdog catches runs that hang or kill
//! their process, the first violation is minimised, written to a replay file and confirmed in a
//! fresh process.
use crate::rt::RunStats;
use crate::scheck::Violation;
use crate::world::World;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";
/// no run needs more than a few seconds of real time
const HANG_S: u64 = 90;

pub struct Job {
    pub world: World,
    pub profile: &'static str,
    pub weight: usize,
}

/// which worlds decide a property, and how many runs one check makes
pub fn jobs(id: &str, thorough: bool) -> (Vec<Job>, u64) {
    let s = |profile: &'static str| vec![Job { world: World::Server, profile, weight: 1 }];
    // the profiles are named after the properties
    let c = |id: &str| {
        let profile = ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C23"].into_iter().find(|p| *p == id).unwrap();
        vec![Job { world: World::Client, profile, weight: 1 }]
    };
    let (j, n) = match id {
        "C01" => (s("C01"), 24_000),
        "C02" => (s("C02"), 24_000),
        "C03" => (s("C03"), 24_000),
        "C04" => (s("C04"), 3_600),
        "C05" => (s("C05"), 20_000),
        "C06" => (s("C06"), 16_000),
        "C07" => (s("C07"), 12_000),
        "C08" => (s("C08"), 20_000),
        "C09" => (s("C09"), 24_000),
        "C10" => (s("C10"), 24_000),
        "C11" => (s("C11"), 4_800),
        "C21" => (s("C21"), 16_000),
        "C22" => (s("C22"), 12_000),
        "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => (c(id), 5_000),
        "C23" => (c(id), 3_000),
        "C19" => (c(id), 4_000),
        "C20" => (vec![Job { world: World::Gen, profile: "C20", weight: 2 }, Job { world: World::Client, profile: "C19", weight: 1 }], 2_400),
        _ => (vec![], 0),
    };
    (j, if thorough { n * 30 } else { n })
}

pub fn pick_job(jobs: &[Job], idx: u64) -> &Job {
    let total: usize = jobs.iter().map(|j| j.weight).sum();
    let mut k = idx as usize % total;
    for j in jobs {
        if k < j.weight {
            return j;
        }
        k -= j.weight;
    }
    unreachable!()
}

pub fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
fn run_seed(base: u64, idx: u64) -> u64 {
    base.wrapping_mul(1_000_000_000).wrapping_add(idx)
}

// ------------------------------------------------------------------------------------- findings

#[derive(Clone, Debug)]
pub struct Finding {
    property: String,
    code: String,
    needle: String,
    text: String,
}

/// `finding: property=<id> code=<code> match=<text>` lines of /verif/known_findings.txt; lines that
/// start with `fixed:` are a record only and suppress nothing.
pub fn findings() -> Vec<Finding> {
    let text = std::fs::read_to_string(format!("{VERIF}/known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let get = |k: &str| l.split_once(k).map(|x| x.1);
            Some(Finding {
                property: get("property=")?.split(' ').next()?.into(),
                code: get("code=")?.split(' ').next()?.into(),
                needle: get("match=")?.into(),
                text: l.into(),
            })
        })
        .collect()
}

fn relevant<'a>(id: &str, vs: &'a [Violation], known: &[Finding], seen: &mut Vec<String>) -> Option<&'a Violation> {
    vs.iter().filter(|v| v.props.contains(id)).find(|v| {
        match known.iter().find(|k| k.property == id && k.code == v.code && v.detail.contains(&k.needle)) {
            Some(k) => {
                if !seen.contains(&k.text) {
                    seen.push(k.text.clone());
                }
                false
            }
            None => true,
        }
    })
}

// --------------------------------------------------------------------------------------- worker

/// runs the seeds idx = offset, offset + stride, ... below `n` and reports each on a line
pub fn worker(id: &str, n: u64, stride: u64, offset: u64) {
    let (jobs, _) = jobs(id, thorough());
    let base = base_seed();
    let known = findings();
    let mut out = std::io::stdout().lock();
    let mut idx = offset;
    while idx < n {
        let j = pick_job(&jobs, idx);
        let seed = run_seed(base, idx);
        let _ = writeln!(out, "S {idx}");
        let _ = out.flush();
        let plan = j.world.generate(j.profile, seed);
        let r = j.world.run(&plan, seed, None);
        let mut seen = vec![];
        if let Some(v) = relevant(id, &r.violations, &known, &mut seen) {
            let _ = writeln!(out, "V {}", json!({"idx": idx, "seed": seed, "code": v.code, "detail": v.detail}));
        }
        for k in seen {
            let _ = writeln!(out, "K {k}");
        }
        let ex = r.exercised.get(id).copied().unwrap_or(0);
        let sample = if idx < 3 * stride && ex > 0 { sample(j, seed, &plan, &r.stats, ex) } else { Value::Null };
        let _ = writeln!(
            out,
            "R {}",
            json!({"i": idx, "w": format!("{:?}/{}", j.world, j.profile), "s": r.stats.sched_hash, "h": r.hist_hash, "p": r.stats.polls, "c": r.stats.choices,
                   "t": r.stats.virtual_ms, "f": r.stats.faults, "n": r.stats.counts, "e": ex, "x": sample, "l": r.log.len()})
        );
        idx += stride;
    }
    let _ = writeln!(out, "E");
}

fn sample(j: &Job, seed: u64, plan: &Value, st: &RunStats, ex: u64) -> Value {
    let text = plan.to_string();
    let cut: String = text.chars().take(1500).collect();
    json!({"world": format!("{:?}", j.world), "profile": j.profile, "seed": seed, "scheduler_steps": st.polls, "choices": st.choices,
           "virtual_ms": st.virtual_ms, "faults": st.faults, "premise_judged": ex, "plan": cut})
}

// --------------------------------------------------------------------------------------- replay

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub world: World,
    pub profile: String,
    pub seed: u64,
    pub code: String,
    pub detail: String,
    /// the minimised plan: clients, what they do, which faults hit them
    pub plan: Value,
    /// the minimised schedule: every decision of the simulator in order, zeros beyond the end
    pub choices: Option<Vec<u32>>,
    pub history_hash: u64,
    pub sched_hash: u64,
    pub trace: Vec<String>,
}

fn attempt(id: &str, code: &str, world: World, plan: &Value, seed: u64, rec: Option<Vec<u32>>) -> Option<(Violation, crate::world::RunResult)> {
    let r = world.run(plan, seed, rec);
    let v = relevant(id, &r.violations, &findings(), &mut vec![]).filter(|_| true)?.clone();
    // the same kind of violation, so that shrinking does not drift to another one
    let v = r.violations.iter().find(|x| x.code == code && x.props.contains(id)).cloned().or(if v.code == code { Some(v) } else { None })?;
    Some((v, r))
}

fn trace_of(r: &crate::world::RunResult) -> Vec<String> {
    let cut = |s: String| if s.chars().count() > 400 { s.chars().take(400).collect::<String>() + "…" } else { s };
    let n = r.log.len();
    let mut out: Vec<String> = vec![];
    for (i, e) in r.log.iter().enumerate() {
        if n > 1200 && i == 600 {
            out.push(format!("... {} events left out ...", n - 1200));
        }
        if n > 1200 && (600..n - 600).contains(&i) {
            continue;
        }
        out.push(cut(format!("{:>8} ms  {:?}", e.t, e.ev)));
    }
    for p in &r.panics {
        out.push(cut(format!("panic: {p}")));
    }
    out
}

/// shrinks the violation found at `seed`; writes the best so far to `out` whenever it improves
pub fn minimise(id: &str, world: World, profile: &str, seed: u64, code: &str, out: &Path, seconds: u64) {
    let t0 = Instant::now();
    let late = || t0.elapsed() > Duration::from_secs(seconds);
    let mut plan = world.generate(profile, seed);
    let save = |plan: &Value, choices: Option<Vec<u32>>, v: &Violation, r: &crate::world::RunResult| {
        let rp = Replay {
            property: id.into(),
            world,
            profile: profile.into(),
            seed,
            code: v.code.into(),
            detail: v.detail.clone(),
            plan: plan.clone(),
            choices,
            history_hash: r.hist_hash,
            sched_hash: r.stats.sched_hash,
            trace: trace_of(r),
        };
        let tmp = out.with_extension("tmp");
        std::fs::write(&tmp, serde_json::to_string_pretty(&rp).unwrap()).expect("write replay");
        std::fs::rename(&tmp, out).expect("rename replay");
    };
    let Some((v, r)) = attempt(id, code, world, &plan, seed, None) else {
        eprintln!("the violation did not show again under seed {seed}");
        return;
    };
    save(&plan, None, &v, &r);
    let mut best = r;
    'again: while !late() {
        for cand in world.shrink(&plan) {
            if late() {
                break 'again;
            }
            if let Some((v, r)) = attempt(id, code, world, &cand, seed, None) {
                plan = cand;
                save(&plan, None, &v, &r);
                best = r;
                continue 'again;
            }
        }
        break;
    }
    // now the schedule: keep as few non-default decisions as possible
    let mut choices = best.choices.clone();
    if let Some((v, r)) = attempt(id, code, world, &plan, seed, Some(choices.clone())) {
        save(&plan, Some(choices.clone()), &v, &r);
        let keep = |c: &Vec<u32>| attempt(id, code, world, &plan, seed, Some(c.clone()));
        let mut len = choices.len();
        while len >= 1 && !late() {
            let mut at = 0;
            while at < choices.len() && !late() {
                let end = (at + len).min(choices.len());
                if choices[at..end].iter().any(|c| *c != 0) {
                    let mut c = choices.clone();
                    c[at..end].iter_mut().for_each(|c| *c = 0);
                    if let Some((v, r)) = keep(&c) {
                        while c.last() == Some(&0) {
                            c.pop();
                        }
                        choices = c;
                        save(&plan, Some(choices.clone()), &v, &r);
                    }
                }
                at += len;
            }
            len /= 2;
        }
    }
}

/// 0: no violation, 1: the violation showed again, exactly; 3: a violation, but another history
pub fn replay(file: &Path, verbose: bool) -> i32 {
    let rp: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    if rp.code == "hang" || rp.code == "crash" {
        return replay_hard(&rp);
    }
    let r = rp.world.run(&rp.plan, rp.seed, rp.choices.clone());
    if verbose {
        for l in trace_of(&r) {
            println!("{l}");
        }
    }
    let hit = r.violations.iter().find(|v| v.code == rp.code && v.props.contains(rp.property.as_str()));
    let same = r.hist_hash == rp.history_hash && r.stats.sched_hash == rp.sched_hash;
    match hit {
        Some(v) => {
            println!("{}: {}", v.code, v.detail);
            println!("history {:016x} schedule {:016x} ({})", r.hist_hash, r.stats.sched_hash, if same { "identical" } else { "DIFFERENT from the recorded one" });
            println!("VIOLATION property={} replay={}", rp.property, file.display());
            if same {
                1
            } else {
                3
            }
        }
        None => {
            println!("no violation of {} ({})", rp.property, rp.code);
            0
        }
    }
}

/// a run that hangs or kills its process is repeated in a process of its own
fn replay_hard(rp: &Replay) -> i32 {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["single", &serde_json::to_string(&rp.world).unwrap(), &rp.profile, &rp.seed.to_string()])
        .stdout(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(st) if st.success() => {
                println!("no violation of {} ({})", rp.property, rp.code);
                return 0;
            }
            Some(st) => {
                println!("crash: the process running seed {} ended with {st}", rp.seed);
                return 1;
            }
            None if t0.elapsed() > Duration::from_secs(HANG_S) => {
                let _ = c.kill();
                let _ = c.wait();
                println!("hang: seed {} was still running after {HANG_S} s of real time", rp.seed);
                return 1;
            }
            None => std::thread::sleep(Duration::from_millis(50)),
        }
    }
}

pub fn single(world: World, profile: &str, seed: u64) {
    let plan = world.generate(profile, seed);
    let r = world.run(&plan, seed, None);
    println!("{} events, {} violations", r.log.len(), r.violations.len());
}

// ---------------------------------------------------------------------------------------- check

struct W {
    child: Child,
    at: Option<(u64, Instant)>,
    done: bool,
}

pub fn check(id: &str) -> i32 {
    let thorough = thorough();
    let (jobs_, mut n) = jobs(id, thorough);
    if jobs_.is_empty() {
        eprintln!("no check for {id}");
        return 2;
    }
    if let Some(k) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        n = k;
    }
    let base = base_seed();
    let cap = Duration::from_secs(std::env::var("SIM_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 150 }));
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel::<(usize, Option<String>)>();
    let mut ws: Vec<W> = vec![];
    for k in 0..nw {
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["worker", id, &n.to_string(), &nw.to_string(), &k.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .expect("spawn worker");
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        let w = k as usize;
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if tx.send((w, Some(l))).is_err() {
                    return;
                }
            }
            let _ = tx.send((w, None));
        });
        ws.push(W { child, at: None, done: false });
    }
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut scheds: HashSet<u64> = HashSet::new();
    let mut hists: HashSet<u64> = HashSet::new();
    let mut nt: HashSet<u64> = HashSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut worlds: BTreeMap<String, u64> = BTreeMap::new();
    let (mut polls, mut choices, mut virt, mut premise, mut events) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut known_seen: Vec<String> = vec![];
    // idx, seed, code, detail
    let mut found: Option<(u64, u64, String, String)> = None;
    let mut capped = false;
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((w, Some(l))) => {
                let (tag, rest) = l.split_at(1.min(l.len()));
                let rest = rest.trim_start();
                match tag {
                    "S" => ws[w].at = rest.parse().ok().map(|i: u64| (i, Instant::now())),
                    "V" => {
                        let v: Value = serde_json::from_str(rest).unwrap_or_default();
                        let i = v["idx"].as_u64().unwrap_or(0);
                        if found.as_ref().is_none_or(|f| f.0 > i) {
                            found = Some((i, v["seed"].as_u64().unwrap_or(0), v["code"].as_str().unwrap_or("?").into(), v["detail"].as_str().unwrap_or("").into()));
                        }
                    }
                    "K" => {
                        if !known_seen.contains(&rest.to_string()) {
                            known_seen.push(rest.to_string());
                        }
                    }
                    "R" => {
                        let v: Value = serde_json::from_str(rest).unwrap_or_default();
                        let u = |k: &str| v[k].as_u64().unwrap_or(0);
                        runs += 1;
                        scheds.insert(u("s"));
                        hists.insert(u("h"));
                        polls += u("p");
                        choices += u("c");
                        virt += u("t");
                        events += u("l");
                        premise += u("e");
                        if u("e") > 0 {
                            nontrivial += 1;
                            nt.insert(u("h"));
                        }
                        *worlds.entry(v["w"].as_str().unwrap_or("?").into()).or_default() += 1;
                        for (m, k) in [(&mut faults, "f"), (&mut counts, "n")] {
                            if let Some(o) = v[k].as_object() {
                                for (a, b) in o {
                                    *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                                }
                            }
                        }
                        if !v["x"].is_null() && samples.len() < 3 {
                            samples.push(v["x"].clone());
                        }
                    }
                    "E" => ws[w].done = true,
                    _ => {}
                }
            }
            Ok((w, None)) => {
                let st = ws[w].child.wait();
                if !ws[w].done {
                    // the run took its process down
                    ws[w].done = true;
                    if let Some((i, _)) = ws[w].at {
                        if found.as_ref().is_none_or(|f| f.0 > i) && !capped {
                            found = Some((i, run_seed(base, i), "crash".into(), format!("the process of the run ended: {st:?}")));
                        }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for w in ws.iter_mut().filter(|w| !w.done) {
            if let Some((i, since)) = w.at {
                if since.elapsed() > Duration::from_secs(HANG_S) {
                    w.done = true;
                    let _ = w.child.kill();
                    if found.as_ref().is_none_or(|f| f.0 > i) {
                        found = Some((i, run_seed(base, i), "hang".into(), format!("the run was still going after {HANG_S} s of real time")));
                    }
                }
                if found.as_ref().is_some_and(|f| f.0 <= i) {
                    w.done = true;
                    let _ = w.child.kill();
                }
            }
        }
        if t0.elapsed() > cap {
            capped = true;
            for w in ws.iter_mut().filter(|w| !w.done) {
                w.done = true;
                let _ = w.child.kill();
            }
        }
        if ws.iter().all(|w| w.done) {
            break;
        }
    }
    for w in &mut ws {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut status = 0;
    let mut violations = 0;
    if let Some((i, seed, code, detail)) = &found {
        let j = pick_job(&jobs_, *i);
        violations = 1;
        let dir = PathBuf::from(VERIF).join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join(format!("{id}-{seed}.json"));
        let _ = std::fs::remove_file(&file);
        println!("{id}: run {i} (seed {seed}, {:?}/{}): {code}: {detail}", j.world, j.profile);
        if code == "hang" || code == "crash" {
            let rp = Replay {
                property: id.into(),
                world: j.world,
                profile: j.profile.into(),
                seed: *seed,
                code: code.clone(),
                detail: detail.clone(),
                plan: j.world.generate(j.profile, *seed),
                choices: None,
                history_hash: 0,
                sched_hash: 0,
                trace: vec![],
            };
            std::fs::write(&file, serde_json::to_string_pretty(&rp).unwrap()).expect("write replay");
        } else {
            let secs = std::env::var("SIM_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(40u64);
            let mut c = Command::new(std::env::current_exe().unwrap())
                .args(["minimise", id, &serde_json::to_string(&j.world).unwrap(), j.profile, &seed.to_string(), code, file.to_str().unwrap(), &secs.to_string()])
                .spawn()
                .expect("spawn");
            let t = Instant::now();
            while c.try_wait().expect("wait").is_none() {
                if t.elapsed() > Duration::from_secs(secs + 30) {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
        // the replay must show it again in a fresh process, twice
        let again = |_: u32| Command::new(std::env::current_exe().unwrap()).args(["replay", file.to_str().unwrap()]).stdout(Stdio::null()).status().ok().and_then(|s| s.code());
        let (a, b) = if code == "hang" { (again(1), Some(1)) } else { (again(1), again(2)) };
        if let Ok(rp) = std::fs::read_to_string(&file) {
            if let Ok(rp) = serde_json::from_str::<Replay>(&rp) {
                println!("minimised: {}: {}", rp.code, rp.detail);
            }
        }
        println!("replay in fresh processes: {}", if a == Some(1) && b == Some(1) { "identical" } else { "NOT identical" });
        println!("VIOLATION property={id} replay={}", file.display());
        status = 1;
    }
    for k in &known_seen {
        println!("KNOWN-FINDING: {k}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = |x: f64| (x / search_s.max(0.001) * 3600.0).round();
    let (real, stub) = components(id);
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nt.len(),
            "rule": RULE,
            "samples": samples,
            "runs_planned": n,
            "stopped_by_time_limit": capped,
            "nontrivial_runs": nontrivial,
            "premise_judged": premise,
            "simulated_runs_per_hour": per_hour(runs as f64),
            "seeds_per_hour": per_hour(runs as f64),
            "simulated_time_s": virt as f64 / 1000.0,
            "simulated_seconds_per_real_second": (virt as f64 / 1000.0 / search_s.max(0.001)).round(),
            "scheduler_steps": polls,
            "recorded_decisions": choices,
            "history_events": events,
            "distinct_interleavings": scheds.len(),
            "distinct_interleavings_measure": "64-bit hash of the sequence of tasks polled (numbered in order of first poll) until the faults stop",
            "distinct_histories": hists.len(),
            "faults_injected": faults,
            "counters": counts,
            "runs_per_world_and_profile": worlds,
            "real_components": real,
            "stubs": stub,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = PathBuf::from(VERIF).join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{id}: {runs} runs, {} distinct non-trivial histories, {} distinct interleavings, {:.0} s simulated, {:.1} s real{}",
        nt.len(),
        scheds.len(),
        virt as f64 / 1000.0,
        wall,
        if capped { " (time limit)" } else { "" }
    );
    if runs == 0 && status == 0 {
        eprintln!("no run was made");
        return 2;
    }
    status
}

const RULE: &str = "One case is one simulated execution: a plan (clients, messages, faults) and every scheduling, delay and fault decision drawn from one seed. \
It is non-trivial when the premise of the property occurred in it and was judged by the oracle (see premise_judged); distinct means a different recorded history (64-bit hash over all events with their virtual times).";

const ASSUMPTIONS: &[&str] = &[
    "Most runs have one worker thread, so tasks interleave at await points. In about a quarter of them a second worker is simulated: at channel, spawn, abort, socket and user-code points inside a poll other tasks are polled to their next await before it goes on. Races between other instructions, and effects of weak memory ordering, are not explored.",
    "Liveness bounds are in virtual time with a fixed cost per task poll and hold once the injected faults have stopped.",
];

fn components(id: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let (jobs, _) = jobs(id, false);
    let client = jobs.iter().any(|j| j.world != World::Server);
    let gen = jobs.iter().any(|j| j.world == World::Gen);
    let mut real = vec![];
    let mut stub = vec![];
    if client {
        real.push("the client text generated by zod (codegen, derive output, websocket_client.ts), transpiled by TypeScript and run in Node with the zod npm package");
        stub.push("browser: WebSocket, timers, Date, performance, Math.random, console; the page's program is a script of the plan");
        stub.push("in part of the runs the server: a scripted model that delays, reorders, duplicates and invents replies (runs without it use the real server)");
    }
    if gen {
        real.push("the registry (inventory, patched only to present its items in an order of the simulator's choosing)");
    }
    real.extend([
        "code generated by zod's derive macros for the simulated backends",
        "zod_core::rpc (Request, Response, SubscriberMap)",
        "zod::rpc::servers::{proxy, axum}",
        "axum, hyper, tungstenite, tokio (current-thread scheduler, timers, sync), futures",
    ]);
    stub.extend([
        "tokio's choice of the next task, its clock and its random generator, and the process's entropy (decided by the seed)",
        "TCP: in-memory pipes with simulated latency, fragmentation, windows, FIN, RST and silent loss",
        "methods and streams of the backend: instrumented test doubles",
    ]);
    if !client {
        stub.push("WebSocket clients: hand-written framing and scripts");
    }
    (real, stub)
}
