mod backend;
mod ccheck;
mod cplan;
mod cworld;
mod gworld;
mod heap;
mod jsh;
mod log;
mod net;
mod rng;
mod rt;
mod runner;
mod scheck;
mod splan;
mod sworld;
mod world;
mod ws;

use world::World;

fn world(s: &str) -> World {
    serde_json::from_str(s).or_else(|_| serde_json::from_str(&format!("\"{s}\""))).expect("world")
}

fn main() {
    rt::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let num = |s: &str| s.parse::<u64>().expect("number");
    match a[1..] {
        ["check", id] => std::process::exit(runner::check(id)),
        ["worker", id, n, stride, off] => runner::worker(id, num(n), num(stride), num(off)),
        ["single", w, profile, seed] => runner::single(world(w), profile, num(seed)),
        ["minimise", id, w, profile, seed, code, out, secs] => runner::minimise(id, world(w), profile, num(seed), code, out.as_ref(), num(secs)),
        ["replay", file] => std::process::exit(runner::replay(file.as_ref(), false)),
        ["trace", file] => std::process::exit(runner::replay(file.as_ref(), true)),
        ["sweep", w, profile, from, to] => sweep(world(w), profile, num(from), num(to), false),
        ["show", w, profile, seed] => sweep(world(w), profile, num(seed), num(seed) + 1, true),
        ["hash", w, profile, from, to] => hash(world(w), profile, num(from), num(to)),
        _ => {
            eprintln!("usage: zodsim check ID | replay FILE | trace FILE | sweep WORLD PROFILE FROM TO | show WORLD PROFILE SEED | hash WORLD PROFILE FROM TO");
            std::process::exit(2)
        }
    }
}

/// one line per seed, to compare two processes
fn hash(w: World, profile: &str, from: u64, to: u64) {
    for seed in from..to {
        let r = w.run(&w.generate(profile, seed), seed, None);
        println!("{seed} {:016x} {:016x} {} {}", r.hist_hash, r.stats.sched_hash, r.stats.polls, r.choices.len());
    }
}

fn sweep(w: World, profile: &str, from: u64, to: u64, verbose: bool) {
    let t = std::time::Instant::now();
    let mut codes: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
    let mut ex: std::collections::BTreeMap<&str, u64> = Default::default();
    let mut slowest = (0.0, 0);
    for seed in from..to {
        let plan = w.generate(profile, seed);
        let t = std::time::Instant::now();
        let r = w.run(&plan, seed, None);
        if t.elapsed().as_secs_f64() > slowest.0 {
            slowest = (t.elapsed().as_secs_f64(), seed);
        }
        if verbose {
            println!("{}", serde_json::to_string_pretty(&plan).unwrap());
            for (i, r) in r.log.iter().enumerate() {
                println!("{i:5} {:7} {:?}", r.t, r.ev);
            }
            println!("{:?}\npanics {:?}", r.stats, r.panics);
            for v in &r.violations {
                println!("{} {:?} {}", v.code, v.props, v.detail);
            }
        }
        for (k, n) in r.exercised {
            *ex.entry(k).or_default() += n;
        }
        for v in r.violations {
            let e = codes.entry(format!("{} {:?}", v.code, v.props)).or_insert((0, seed, v.detail.clone()));
            e.0 += 1;
        }
    }
    for (c, (n, s, d)) in codes {
        println!("{n:5} {c} first seed {s}: {d}");
    }
    println!("{} runs in {:?} (slowest: seed {}, {:.1} s) {ex:?}", to - from, t.elapsed(), slowest.1, slowest.0);
}
