//! What the runner needs to know of a simulated world: make a plan from a seed, execute it, judge it,
//! and propose smaller plans.
use crate::rt::RunStats;
use crate::scheck::Violation;
use crate::{ccheck, cplan, cworld, gworld, jsh, rt, scheck, splan, sworld};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum World {
    Server,
    /// generated clients in simulated browser tabs
    Client,
    /// generation of clients under permuted registries
    Gen,
}

pub struct RunResult {
    pub violations: Vec<Violation>,
    pub stats: RunStats,
    pub choices: Vec<u32>,
    pub hist_hash: u64,
    /// how often each property's premise occurred and was judged
    pub exercised: BTreeMap<&'static str, u64>,
    pub log: Vec<crate::log::Rec>,
    pub panics: Vec<String>,
}

struct Fnv(u64);
impl Write for Fnv {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 ^= b as u64;
            self.0 = self.0.wrapping_mul(0x0000_0100_0000_01b3);
        }
        Ok(())
    }
}
pub fn hash_log(log: &[crate::log::Rec]) -> u64 {
    let mut h = Fnv(crate::rng::FNV0);
    for r in log {
        let _ = write!(h, "{} {:?};", r.t, r.ev);
    }
    h.0
}

impl World {
    pub fn generate(self, profile: &str, seed: u64) -> Value {
        match self {
            World::Server => serde_json::to_value(splan::generate(&splan::profile(profile), seed)).unwrap(),
            World::Gen => serde_json::to_value(gworld::generate(seed)).unwrap(),
            World::Client => serde_json::to_value(cplan::generate(&cplan::profile(profile), seed)).unwrap(),
        }
    }

    pub fn run(self, plan: &Value, seed: u64, recorded: Option<Vec<u32>>) -> RunResult {
        match self {
            World::Server => {
                let plan: splan::Plan = serde_json::from_value(plan.clone()).expect("plan");
                let o = rt::run_sim(seed, plan.sched.clone(), recorded, seed, move || sworld::run(plan));
                let violations = scheck::check(&o.value);
                let exercised = scheck::exercised(&o.value);
                RunResult { violations, stats: o.stats, choices: o.choices, hist_hash: hash_log(&o.value.log), exercised, panics: o.value.panics, log: o.value.log }
            }
            World::Gen => {
                let plan: gworld::GPlan = serde_json::from_value(plan.clone()).expect("plan");
                jsh::ensure();
                let o = rt::run_sim(seed, plan.sched.clone(), recorded, seed, move || gworld::run(plan));
                RunResult {
                    violations: o.value.violations,
                    stats: o.stats,
                    choices: o.choices,
                    hist_hash: hash_log(&o.value.log),
                    exercised: BTreeMap::from([("C20", o.value.judged)]),
                    panics: o.value.panics,
                    log: o.value.log,
                }
            }
            World::Client => {
                let plan: cplan::CPlan = serde_json::from_value(plan.clone()).expect("plan");
                jsh::ensure();
                let o = rt::run_sim(seed, plan.sched.clone(), recorded, seed, move || cworld::run(plan));
                let (violations, exercised) = ccheck::check(&o.value);
                RunResult { violations, stats: o.stats, choices: o.choices, hist_hash: hash_log(&o.value.log), exercised, panics: o.value.panics, log: o.value.log }
            }
        }
    }

    /// smaller plans, boldest first
    pub fn shrink(self, plan: &Value) -> Vec<Value> {
        match self {
            World::Server => {
                let plan: splan::Plan = serde_json::from_value(plan.clone()).expect("plan");
                splan::shrink(&plan).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
            }
            World::Gen => {
                let plan: gworld::GPlan = serde_json::from_value(plan.clone()).expect("plan");
                gworld::shrink(&plan).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
            }
            World::Client => {
                let plan: cplan::CPlan = serde_json::from_value(plan.clone()).expect("plan");
                cplan::shrink(&plan).into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
            }
        }
    }
}
