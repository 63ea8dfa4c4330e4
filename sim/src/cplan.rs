//! Plans of the client world: what the programs in the browser tabs do, and which faults hit them.
use crate::net::NetCfg;
use crate::rng::Rng;
use crate::rt::{Policy, SchedCfg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub type Fun = (String, String);

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "k", rename_all = "lowercase")]
pub enum Step {
    Sleep {
        ms: u64,
    },
    Call {
        f: Fun,
        args: Value,
        r: u64,
        /// the actor goes on only when the promise has settled
        wait: bool,
        /// arguments the schema rejects
        #[serde(default)]
        bad: bool,
        /// the server answers with an error
        #[serde(default)]
        error: bool,
        #[serde(default)]
        then: Vec<Step>,
        #[serde(default)]
        fail: Vec<Step>,
    },
    All {
        calls: Vec<Step>,
    },
    /// `n` requests, at most `w` at a time, answered by the tab's own host
    Marathon {
        r: u64,
        n: u64,
        w: u64,
        /// weigh what they leave behind
        #[serde(default, skip_serializing_if = "Option::is_none")]
        weigh: Option<Weigh>,
    },
    Stream {
        f: Fun,
        args: Value,
        r: u64,
    },
    Sub {
        r: u64,
        u: u64,
        #[serde(default)]
        on: Vec<On>,
        /// its callback throws at every so many items
        #[serde(default, skip_serializing_if = "Option::is_none")]
        boom: Option<u64>,
        /// uses the callback of that subscription
        #[serde(default, skip_serializing_if = "Option::is_none")]
        same: Option<u64>,
    },
    Unsub {
        u: u64,
    },
    UnsubAll {},
    Close {
        r: u64,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct On {
    pub n: u64,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Actor {
    pub id: u64,
    pub at: u64,
    pub steps: Vec<Step>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum After {
    In(u32),
    Out(u32),
    Ms(u64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Rst,
    /// nothing gets through any more; the tab learns of it only after this long
    Vanish(u64),
    /// the other side starts the closing handshake
    Goaway,
}

/// what happens to one connection attempt and the connection it may lead to
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct ConnPlan {
    pub delay: u64,
    pub refuse: bool,
    pub cut: Option<(After, How)>,
    /// how long closing takes
    pub lag: u64,
}
pub const HEALTHY: ConnPlan = ConnPlan { delay: 0, refuse: false, cut: None, lag: 0 };

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    /// new connections are refused
    Refuse,
    /// the server goes down, with all connections and its state, and comes back
    Restart,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Outage {
    pub at: u64,
    pub dur: u64,
    pub kind: Out,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct ModelCfg {
    /// replies are delayed by up to this much, each on its own
    pub delay: u64,
    /// percentages
    pub dup: u32,
    pub stray: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TabPlan {
    pub at: u64,
    pub net: NetCfg,
    pub actors: Vec<Actor>,
    /// the n-th connection attempt; beyond the end all is well
    pub conns: Vec<ConnPlan>,
    /// closing takes this long on connections without a plan of their own
    pub lag: u64,
    /// events reach the page up to this late
    pub late: u64,
    /// the page does not run at all: (from, for)
    pub freezes: Vec<(u64, u64)>,
    /// the wall clock is set: (when, by)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub clock: Vec<(u64, i64)>,
    /// the browser believes that it is offline, or shows another tab: (from, for, which)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub signs: Vec<(u64, u64, u8)>,
    /// bytes per ms the network takes from a socket, as far as the page can tell, 0: all at once
    #[serde(default, skip_serializing_if = "crate::cplan::zero")]
    pub uplink: u64,
}

pub fn zero(n: &u64) -> bool {
    *n == 0
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CPlan {
    pub sched: SchedCfg,
    /// a scripted server instead of the real one
    pub model: Option<ModelCfg>,
    /// the client is generated under a registry order of its own
    pub permute: bool,
    pub tabs: Vec<TabPlan>,
    pub outages: Vec<Outage>,
    /// look at what the clients have kept in the end, and weigh what many requests leave behind
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub kept: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub weigh: Option<Weigh>,
}

/// how the many requests end whose remains are weighed
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "lowercase")]
pub enum Weigh {
    Plain,
    /// every other one is answered with an error
    Errors,
    /// the connection breaks again and again
    Losses,
    /// streams that are opened, left after an item and closed
    Streams,
}

/// relative frequencies
#[derive(Clone, Debug)]
pub struct Prof {
    pub model: u32,
    pub permute: bool,
    pub tabs: (u64, u64),
    pub actors: (u64, u64),
    pub steps: (u64, u64),
    pub call: u32,
    pub all: u32,
    pub chain: u32,
    pub stream: u32,
    pub sleep: u32,
    pub errors: u32,
    pub bad: u32,
    pub conn_faults: u32,
    pub refuse: u32,
    pub outages: u32,
    pub lag: u32,
    pub late: u32,
    pub resub: u32,
    pub long: bool,
    pub every: bool,
    /// per thousand tabs
    pub excess: u32,
    /// subscribers that throw, subscriptions that share a callback
    pub boom: u32,
    pub same: u32,
    pub kept: bool,
    /// tabs with hardly anything to do, over connections that are slow to open
    pub calm: u32,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            model: 50,
            permute: false,
            tabs: (1, 2),
            actors: (1, 4),
            steps: (1, 8),
            call: 30,
            all: 10,
            chain: 25,
            stream: 12,
            sleep: 20,
            errors: 8,
            bad: 3,
            conn_faults: 40,
            refuse: 30,
            outages: 25,
            lag: 40,
            late: 30,
            resub: 20,
            long: false,
            every: false,
            excess: 20,
            boom: 5,
            same: 5,
            kept: false,
            calm: 8,
        }
    }
}

pub fn profile(id: &str) -> Prof {
    let d = Prof::default();
    match id {
        "C12" => Prof { excess: 40, model: 85, call: 40, all: 40, stream: 18, conn_faults: 15, refuse: 10, outages: 8, actors: (1, 6), ..d },
        "C13" => Prof { conn_faults: 55, refuse: 55, outages: 35, stream: 20, lag: 30, ..d },
        "C14" => Prof { calm: 15, conn_faults: 40, refuse: 70, outages: 60, stream: 25, call: 25, long: true, tabs: (1, 1), ..d },
        "C15" => Prof { conn_faults: 60, refuse: 35, outages: 45, errors: 25, ..d },
        "C16" => Prof { calm: 35, model: 40, conn_faults: 12, refuse: 12, outages: 8, lag: 80, late: 40, call: 45, all: 8, stream: 10, sleep: 30, tabs: (1, 1), ..d },
        "C17" => Prof { calm: 12, boom: 12, same: 15, excess: 30, stream: 60, call: 15, all: 8, conn_faults: 20, refuse: 12, outages: 10, resub: 45, ..d },
        "C23" => Prof { calm: 12, kept: true, tabs: (1, 1), excess: 250, model: 70, call: 40, all: 30, stream: 30, errors: 15, conn_faults: 35, refuse: 20, outages: 20, actors: (2, 6), ..d },
        "C18" => Prof { model: 0, conn_faults: 55, refuse: 30, outages: 45, call: 40, all: 20, stream: 8, ..d },
        "C19" => Prof { calm: 0, model: 0, permute: true, conn_faults: 0, refuse: 0, outages: 0, lag: 20, late: 15, errors: 0, bad: 5, every: true, tabs: (1, 2), actors: (2, 4), ..d },
        _ => d,
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub p: &'a Prof,
    pub tab: u64,
    pub n: u64,
    pub u: u64,
}

pub fn tag_of(tab: u64, r: u64) -> u64 {
    (tab + 1) * 100_000 + r
}

fn fun(ns: &str, f: &str) -> Fun {
    (ns.into(), f.into())
}

fn plain_sub(r: u64, u: u64) -> Step {
    Step::Sub { r, u, on: vec![], boom: None, same: None }
}

/// kinds of calls
const CALLS: usize = 18;

/// stands for half a character, which JSON can carry but the server cannot represent
pub const HALF: &str = "\u{e000}";

impl G<'_> {
    fn id(&mut self) -> (u64, u64) {
        self.n += 1;
        (self.n, tag_of(self.tab, self.n))
    }
    fn text(&mut self) -> String {
        const C: &[&str] = &["a", "Z", "0", " ", "\"", "\\", "\n", "é", "漢", "🦀", "{\"exec\":1}", "</x>", "\u{2028}", "exec", "method"];
        let n = self.r.below(6);
        (0..n).map(|_| C[self.r.below(C.len())]).collect()
    }
    pub fn call(&mut self, kind: usize, depth: u32) -> Step {
        let (r, tag) = self.id();
        let n = self.r.range(0, 20) as i64 - 5;
        let (mut bad, mut error) = (false, false);
        let k = if self.r.pct(self.p.errors) {
            100
        } else if self.r.pct(self.p.bad) {
            101
        } else {
            kind
        };
        let (f, args) = match k {
            0 => (fun("Alpha", "add"), json!([tag, n])),
            1 => (fun("Beta", "add"), json!([tag, n])),
            2 => (fun("Gam_ma", "add"), json!([tag, n])),
            3 => {
                let t = self.text();
                (fun("Alpha", "echo"), json!([tag, t]))
            }
            4 => (fun("Alpha", "ping"), json!([])),
            5 => (fun("Beta", "ping"), json!([])),
            6 => (fun("Alpha", "silent"), json!([tag])),
            7 => {
                let l = self.text();
                (
                    fun("Alpha", "mix"),
                    json!([tag, {"x": n, "label": l, "inner": {"on": n > 3, "parts": [8, 7]}}, ["Dot", {"Circle": {"radius": 3}}, {"Line": [1, 2]}], json!(if n > 4 { "" } else { "o" })]),
                )
            }
            8 => (fun("Gam_ma", "only_here"), json!([tag])),
            9 | 10 => {
                let ms = self.r.range(0, if self.p.long { 400 } else { 60 });
                let ns = if k == 9 { "Alpha" } else { "Beta" };
                (fun(ns, "slow"), json!([tag, n, ms, self.r.below(3)]))
            }
            11 => (fun("Odd", *self.r.pick(&["request", "__request", "__subscribe"])), json!([tag, n + 7, n])),
            12 => {
                let t = self.text();
                (fun("Odd", "move"), json!([tag, t, n]))
            }
            // null stands for undefined
            13 => {
                let (a, b) = (self.r.pct(50).then_some(n + 9), self.r.pct(50).then(|| self.text()));
                (fun("Odd", "opt"), json!([tag, a, n, b]))
            }
            14 => (fun("Alpha", "raw"), json!([tag, self.r.below(6), self.r.below(12)])),
            100 => {
                error = true;
                if self.r.pct(60) {
                    (fun("Alpha", "brittle"), json!([tag, true]))
                } else {
                    (fun("Alpha", "boom"), json!([tag, self.r.below(6)]))
                }
            }
            101 => {
                bad = true;
                match self.r.below(3) {
                    0 => (fun("Alpha", "add"), json!([tag, "no number"])),
                    1 => (fun("Alpha", "echo"), json!([tag])),
                    _ => (fun("Beta", "add"), json!(["x", n])),
                }
            }
            15 => (fun("Alpha", "brittle"), json!([tag, false])),
            // arguments with reserved names
            16 => {
                let w = self.r.below(5);
                let args: Vec<u64> = std::iter::once(tag).chain((0..9).map(|i| 100 + i)).collect();
                (fun("Odd", ["wordsa", "wordsb", "wordsc", "wordsd", "wordse"][w]), json!(args))
            }
            _ => {
                error = true;
                (fun("Alpha", "echo"), json!([tag, format!("half {HALF}")]))
            }
        };
        let mut then = vec![];
        let mut fail = vec![];
        if depth < 3 && self.r.pct(self.p.chain) {
            let k = self.r.below(CALLS);
            then.push(self.call(k, depth + 1));
        }
        if depth < 2 && self.r.pct(self.p.chain / 2) {
            let k = self.r.below(CALLS);
            fail.push(self.call(k, depth + 1));
        }
        Step::Call { f, args, r, wait: self.r.pct(55), bad, error, then, fail }
    }
    pub fn stream(&mut self, kind: usize) -> Step {
        let (r, tag) = self.id();
        let len = self.r.range(0, 8);
        let gap = *self.r.pick(&[0u64, 0, 1, 7, 40]);
        let (f, args) = match kind {
            0 => (fun("Alpha", "count"), json!([tag, len, gap])),
            1 => (fun("Beta", "count"), json!([tag, len, gap])),
            2 => (fun("Gam_ma", "count"), json!([tag, len, gap])),
            3 => (fun("Beta", "beat"), json!([])),
            4 => (fun("Alpha", "never"), json!([tag])),
            5 => (fun("Odd", "subscribe"), json!([tag, len, gap])),
            6 => (fun("Alpha", "same"), json!([tag, len, gap, self.r.below(6)])),
            _ => (fun("Alpha", "tick"), json!([tag, *self.r.pick(&[60u64, 150, 400, 1000])])),
        };
        Step::Stream { f, args, r }
    }
    fn sub(&mut self, r: u64) -> Step {
        self.u += 1;
        let u = self.u;
        let mut on = vec![];
        if self.r.pct(self.p.resub) {
            let n = self.r.range(1, 4);
            let steps = match self.r.below(5) {
                0 => vec![Step::Unsub { u }],
                1 => vec![Step::Close { r }],
                2 => vec![Step::Unsub { u }, self.sub_plain(r)],
                3 => {
                    let k = self.r.below(CALLS);
                    vec![self.call(k, 2)]
                }
                _ => {
                    let other = self.r.range(1, self.u);
                    vec![Step::Unsub { u: other }]
                }
            };
            on.push(On { n, steps });
        }
        let boom = self.r.pct(self.p.boom).then(|| self.r.range(1, 3));
        Step::Sub { r, u, on, boom, same: None }
    }
    fn sub_plain(&mut self, r: u64) -> Step {
        self.u += 1;
        plain_sub(r, self.u)
    }
    fn nap(&mut self) -> Step {
        let k = *self.r.pick(&[1u64, 5, 20, 120, if self.p.long { 4000 } else { 600 }]);
        Step::Sleep { ms: self.r.range(0, k) }
    }
    /// out of proportion: thousands of requests, hundreds at once, long streams
    fn excess(&mut self, id: u64) -> Actor {
        let mut steps = vec![];
        if self.r.pct(50) {
            let x = self.nap();
            steps.push(x);
        }
        match self.r.below(4) {
            0 | 1 => {
                let (r, _) = self.id();
                let n = *self.r.pick(&[70u64, 300, 1100, 1100, 5000, 5000, 70_000]);
                steps.push(Step::Marathon { r, n, w: if n > 5000 { *self.r.pick(&[3u64, 40]) } else { *self.r.pick(&[2, 3, 40, 200, 1500, 3000]) }, weigh: None });
            }
            2 => {
                let k = *self.r.pick(&[30u64, 70, 150, 300]);
                let mut calls = vec![];
                for _ in 0..k {
                    let kind = self.r.below(9);
                    calls.push(self.call(kind, 3));
                }
                steps.push(Step::All { calls });
            }
            _ => {
                let (r, tag) = self.id();
                let len = *self.r.pick(&[70u64, 300, 1100]);
                steps.push(Step::Stream { f: fun("Alpha", "count"), args: json!([tag, len, self.r.below(2)]), r });
                let s = self.sub_plain(r);
                steps.push(s);
                let s = self.sub_plain(r);
                steps.push(s);
            }
        }
        Actor { id, at: if self.r.pct(50) { 0 } else { self.r.range(0, 300) }, steps }
    }
    fn actor(&mut self, id: u64) -> Actor {
        let n = self.r.range(self.p.steps.0, self.p.steps.1);
        let mut steps = vec![];
        let mut streams: Vec<u64> = vec![];
        let mut subs: Vec<u64> = vec![];
        for _ in 0..n {
            let w = [self.p.call, self.p.all, self.p.stream, self.p.sleep, if streams.is_empty() { 0 } else { self.p.stream }];
            match self.r.weighted(&w) {
                0 => {
                    let k = self.r.below(CALLS);
                    steps.push(self.call(k, 0))
                }
                1 => {
                    let k = self.r.range(2, 5);
                    // the very same request several times over
                    let alike = self.r.pct(8).then(|| 4 + self.r.below(2));
                    let calls = (0..k)
                        .map(|_| {
                            let k = alike.unwrap_or_else(|| self.r.below(CALLS));
                            self.call(k, 1)
                        })
                        .collect();
                    steps.push(Step::All { calls });
                }
                2 => {
                    let k = self.r.below(8);
                    let s = self.stream(k);
                    let Step::Stream { r, .. } = s else { unreachable!() };
                    steps.push(s);
                    streams.push(r);
                    for _ in 0..self.r.weighted(&[1, 8, 3]) {
                        if self.r.pct(10) {
                            let x = self.nap();
                            steps.push(x);
                        }
                        let s = self.sub(r);
                        let Step::Sub { u, .. } = s else { unreachable!() };
                        subs.push(u);
                        let shared = matches!(&s, Step::Sub { on, .. } if on.is_empty()) && self.r.pct(self.p.same);
                        steps.push(s);
                        if shared {
                            self.u += 1;
                            subs.push(self.u);
                            steps.push(Step::Sub { r, u: self.u, on: vec![], boom: None, same: Some(u) });
                        }
                    }
                }
                3 => {
                    let x = self.nap();
                    steps.push(x)
                }
                _ => {
                    let r = *self.r.pick(&streams);
                    steps.push(match self.r.below(4) {
                        0 => {
                            let s = self.sub(r);
                            if let Step::Sub { u, .. } = s {
                                subs.push(u);
                            }
                            s
                        }
                        1 => Step::Close { r },
                        _ if !subs.is_empty() => Step::Unsub { u: *self.r.pick(&subs) },
                        _ => Step::Close { r },
                    });
                }
            }
        }
        // most pages tidy up
        if self.r.pct(70) {
            if self.r.pct(50) {
                let x = self.nap();
                steps.push(x);
            }
            for r in streams {
                if self.r.pct(60) {
                    steps.push(Step::Close { r });
                }
            }
            for u in subs {
                steps.push(Step::Unsub { u });
            }
        }
        Actor { id, at: if self.r.pct(50) { 0 } else { self.r.range(0, 300) }, steps }
    }
    /// comes, looks at one thing, goes, comes back
    fn calm(&mut self) -> Actor {
        let mut steps = vec![];
        for _ in 0..self.r.range(1, 5) {
            if self.r.pct(75) {
                let k = self.r.below(8);
                let s = self.stream(k);
                let Step::Stream { r, .. } = s else { unreachable!() };
                steps.push(s);
                if self.r.pct(10) {
                    steps.push(self.moment());
                }
                let s = self.sub(r);
                let Step::Sub { u, .. } = s else { unreachable!() };
                steps.push(s);
                steps.push(self.moment());
                let close = self.r.pct(50);
                if close && self.r.pct(50) {
                    steps.push(Step::Close { r });
                }
                steps.push(Step::Unsub { u });
                if self.r.pct(30) {
                    // has another look at the same thing
                    if self.r.pct(60) {
                        steps.push(self.moment());
                    }
                    let s = self.sub_plain(r);
                    let Step::Sub { u, .. } = s else { unreachable!() };
                    steps.push(s);
                    steps.push(self.moment());
                    steps.push(Step::Unsub { u });
                }
                if close {
                    steps.push(Step::Close { r });
                }
            } else {
                let k = self.r.below(CALLS);
                steps.push(self.call(k, 2));
            }
            if self.r.pct(70) {
                steps.push(self.moment());
            }
        }
        Actor { id: 0, at: 0, steps }
    }
    fn moment(&mut self) -> Step {
        const M: &[u64] = &[0, 1, 5, 20, 50, 95, 100, 105, 150, 200, 205, 260, 310, 700, 1000, 1100, 1400, 3100];
        Step::Sleep { ms: *self.r.pick(M) }
    }
    /// every function once, in some order
    fn every(&mut self, id: u64) -> Actor {
        let mut order: Vec<usize> = (0..CALLS + 7).collect();
        self.r.shuffle(&mut order);
        let mut steps = vec![];
        for k in order {
            if k < CALLS {
                steps.push(self.call(k, 3));
            } else {
                let s = self.stream(k - CALLS);
                let Step::Stream { r, .. } = s else { unreachable!() };
                steps.push(s);
                self.u += 1;
                steps.push(plain_sub(r, self.u));
            }
        }
        Actor { id, at: 0, steps }
    }
}

/// what every tab does at the end, when nothing fails any more
pub fn epilogue(tab: u64, phase: usize, weigh: Option<Weigh>) -> Vec<Actor> {
    let base = 50_000 + 100 * phase as u64;
    let call = |k: u64, ns: &str, f: &str, args: Value| Step::Call { f: fun(ns, f), args, r: base + k, wait: true, bad: false, error: false, then: vec![], fail: vec![] };
    let t = |k: u64| tag_of(tab, base + k);
    let steps = match phase {
        0 => vec![
            call(1, "Alpha", "add", json!([t(1), 1])),
            call(2, "Alpha", "echo", json!([t(2), "x"])),
            Step::Stream { f: fun("Alpha", "count"), args: json!([t(3), 3, 2]), r: base + 3 },
            Step::Sub { r: base + 3, u: base + 3, on: vec![On { n: 3, steps: vec![Step::Unsub { u: base + 3 }] }], boom: None, same: None },
            call(4, "Beta", "add", json!([t(4), 1])),
            Step::Sleep { ms: 30 },
            call(5, "Beta", "ping", json!([])),
            Step::Sleep { ms: 400 },
            call(6, "Gam_ma", "only_here", json!([t(6)])),
        ],
        1 => vec![Step::UnsubAll {}, call(1, "Alpha", "echo", json!([t(1), "last"]))],
        _ => {
            let mut v = vec![call(1, "Alpha", "echo", json!([t(1), "again"])), call(2, "Beta", "add", json!([t(2), 2]))];
            if let Some(k) = weigh {
                v.push(Step::Marathon { r: base + 3, n: 10_000, w: if k == Weigh::Losses { 200 } else { 30 }, weigh });
            }
            v
        }
    };
    vec![Actor { id: base, at: 0, steps }]
}

pub fn generate(p: &Prof, seed: u64) -> CPlan {
    let mut rng = Rng::new(seed, 9);
    let r = &mut rng;
    let policy = match r.below(10) {
        0..=1 => Policy::Fifo,
        2..=7 => Policy::Random,
        8 => Policy::Lifo,
        _ => Policy::Pct(100),
    };
    let sched = SchedCfg { policy, poll_us: *r.pick(&[0u64, 5, 40]), event_interval: *r.pick(&[1u32, 7, 61]), par: if r.pct(20) { *r.pick(&[1u32, 3, 8, 30]) } else { 0 } };
    let model = r.pct(p.model).then(|| ModelCfg { delay: *r.pick(&[0u64, 10, 80, 700]), dup: *r.pick(&[0u32, 15, 40]), stray: *r.pick(&[0u32, 10, 30]) });
    let n_tabs = r.range(p.tabs.0, p.tabs.1);
    let faulty = r.pct(75);
    let mut tabs = vec![];
    for t in 0..n_tabs {
        let lat = *r.pick(&[0u64, 0, 1, 8, 60]);
        let net = NetCfg { lat_min: 0, lat_max: lat, frag: if r.pct(30) { r.range(1, 2) as u8 } else { 0 }, window: if r.pct(12) { *r.pick(&[64usize, 700]) } else { 1 << 16 } };
        let mut g = G { r, p, tab: t, n: 0, u: 0 };
        let calm = g.r.pct(p.calm);
        let na = if calm { 1 } else { g.r.range(p.actors.0, p.actors.1) };
        let mut actors: Vec<Actor> = vec![];
        for i in 0..na {
            if calm {
                actors.push(g.calm());
            } else if p.every && i == 0 {
                actors.push(g.every(i));
            } else {
                actors.push(g.actor(i));
            }
        }
        if !calm && g.r.below(1000) < p.excess as usize {
            actors.push(g.excess(na));
        }
        let mut conns = vec![];
        if faulty {
            // attempts in a row that all fail, then single mishaps
            if r.pct(if calm { p.refuse.max(30) } else { p.refuse }) {
                for _ in 0..r.range(1, if p.long { 7 } else { 4 }) {
                    conns.push(ConnPlan { delay: r.range(0, 30), refuse: true, ..HEALTHY });
                }
            }
            for _ in 0..r.range(if calm { 3 } else { 0 }, 6) {
                let mut c = HEALTHY;
                if calm && r.pct(60) {
                    c.delay = *r.pick(&[10u64, 60, 150, 300, 800, 1500]);
                } else if r.pct(40) {
                    c.delay = *r.pick(&[1u64, 10, 60, 500]);
                }
                if r.pct(p.lag) {
                    c.lag = *r.pick(&[1u64, 5, 30, 150, 1500]);
                }
                if r.pct(p.refuse / 2) {
                    c.refuse = true;
                }
                if r.pct(if calm { p.conn_faults.max(60) } else { p.conn_faults }) {
                    let after = match r.below(3) {
                        0 => After::In(r.range(0, 8) as u32),
                        1 => After::Out(r.range(1, 8) as u32),
                        _ => After::Ms(r.range(0, 200)),
                    };
                    let how = match r.below(5) {
                        0..=1 => How::Rst,
                        2 => How::Vanish(*r.pick(&[20u64, 400, 2500])),
                        _ => How::Goaway,
                    };
                    c.cut = Some((after, how));
                }
                conns.push(c);
            }
        }
        let lag = if r.pct(p.lag) { *r.pick(&[1u64, 5, 30, 150, 1500]) } else { 0 };
        let late = if r.pct(p.late) { *r.pick(&[1u64, 6, 50, 1000]) } else { 0 };
        let mut freezes = vec![];
        if faulty && r.pct(p.late / 2) {
            for _ in 0..r.range(1, 2) {
                freezes.push((r.range(0, 600), *r.pick(&[10u64, 200, 3000])));
            }
        }
        let mut clock = vec![];
        if faulty && r.pct(20) {
            for _ in 0..r.range(1, 3) {
                clock.push((r.range(0, 900), *r.pick(&[-86_400_000i64, -5000, -700, -40, 60, 2500, 3_600_000])));
            }
        }
        let mut signs = vec![];
        let mut uplink = 0;
        if faulty && r.pct(25) {
            for _ in 0..r.range(1, 3) {
                signs.push((r.range(0, 900), *r.pick(&[1u64, 30, 500, 4000]), r.below(2) as u8));
            }
        }
        if faulty && r.pct(25) {
            uplink = *r.pick(&[1u64, 10, 200]);
        }
        tabs.push(TabPlan { at: if t == 0 || r.pct(50) { 0 } else { r.range(0, 100) }, net, actors, conns, lag, late, freezes, clock, signs, uplink });
    }
    let mut outages = vec![];
    if faulty && r.pct(p.outages) {
        let mut at = r.range(0, 200);
        for _ in 0..r.range(1, 3) {
            let dur = *r.pick(&[5u64, 60, 400, 2000, if p.long { 14_000 } else { 4000 }]);
            outages.push(Outage { at, dur, kind: if r.pct(55) { Out::Restart } else { Out::Refuse } });
            at += dur + r.range(1, 500);
        }
    }
    let weigh = (p.kept && r.pct(20)).then(|| *r.pick(&[Weigh::Plain, Weigh::Errors, Weigh::Losses, Weigh::Streams]));
    CPlan { sched, model, permute: p.permute, tabs, outages, kept: p.kept, weigh }
}

// ----------------------------------------------------------------------------------- shrinking

fn shrink_steps(s: &[Step]) -> Vec<Vec<Step>> {
    let mut out = vec![];
    if s.len() > 2 {
        out.push(s[..s.len() / 2].to_vec());
        out.push(s[s.len() / 2..].to_vec());
    }
    for i in 0..s.len() {
        let mut v = s.to_vec();
        v.remove(i);
        out.push(v);
    }
    for i in 0..s.len() {
        let mut put = |n: Step| {
            let mut v = s.to_vec();
            v[i] = n;
            out.push(v);
        };
        match &s[i] {
            Step::Call { f, args, r, wait, bad, error, then, fail } => {
                if !then.is_empty() || !fail.is_empty() {
                    put(Step::Call { f: f.clone(), args: args.clone(), r: *r, wait: *wait, bad: *bad, error: *error, then: vec![], fail: vec![] });
                    for x in shrink_steps(then) {
                        put(Step::Call { f: f.clone(), args: args.clone(), r: *r, wait: *wait, bad: *bad, error: *error, then: x, fail: fail.clone() });
                    }
                    for x in shrink_steps(fail) {
                        put(Step::Call { f: f.clone(), args: args.clone(), r: *r, wait: *wait, bad: *bad, error: *error, then: then.clone(), fail: x });
                    }
                }
            }
            Step::Marathon { r, n, w, weigh } => {
                if *n > 4 {
                    for k in [2, 20, n / 2, n * 3 / 4] {
                        if k < *n {
                            put(Step::Marathon { r: *r, n: k, w: *w, weigh: *weigh });
                        }
                    }
                }
            }
            Step::All { calls } => {
                if calls.len() == 1 {
                    put(calls[0].clone());
                }
                for x in shrink_steps(calls) {
                    put(Step::All { calls: x });
                }
            }
            Step::Sleep { ms } if *ms > 0 => put(Step::Sleep { ms: ms / 2 }),
            Step::Sub { r, u, on, boom, same } => {
                if !on.is_empty() {
                    put(Step::Sub { r: *r, u: *u, on: vec![], boom: *boom, same: *same });
                }
                if boom.is_some() || same.is_some() {
                    put(Step::Sub { r: *r, u: *u, on: on.clone(), boom: None, same: None });
                }
            }
            _ => {}
        }
    }
    out
}

pub fn shrink(p: &CPlan) -> Vec<CPlan> {
    let mut out: Vec<CPlan> = vec![];
    let mut add = |f: &dyn Fn(&mut CPlan)| {
        let mut q = p.clone();
        f(&mut q);
        out.push(q);
    };
    if p.tabs.len() > 1 {
        for i in 0..p.tabs.len() {
            // the numbering of the tabs is part of the tags: empty it instead of removing it
            if !p.tabs[i].actors.is_empty() {
                add(&|q| q.tabs[i].actors.clear());
            }
        }
        add(&|q| {
            q.tabs.pop();
        });
    }
    if !p.outages.is_empty() {
        add(&|q| q.outages.clear());
        for i in 0..p.outages.len() {
            add(&|q| {
                q.outages.remove(i);
            });
        }
    }
    for t in 0..p.tabs.len() {
        let tab = &p.tabs[t];
        if tab.actors.len() > 1 {
            for i in 0..tab.actors.len() {
                add(&|q| {
                    q.tabs[t].actors.remove(i);
                });
            }
        }
        if !tab.conns.is_empty() {
            add(&|q| q.tabs[t].conns.clear());
            add(&|q| {
                q.tabs[t].conns.pop();
            });
            for i in 0..tab.conns.len() {
                if tab.conns[i] != HEALTHY {
                    add(&|q| q.tabs[t].conns[i] = HEALTHY);
                }
            }
        }
        if !tab.freezes.is_empty() {
            add(&|q| q.tabs[t].freezes.clear());
        }
        if !tab.clock.is_empty() {
            add(&|q| q.tabs[t].clock.clear());
        }
        if !tab.signs.is_empty() {
            add(&|q| q.tabs[t].signs.clear());
        }
        if tab.uplink > 0 {
            add(&|q| q.tabs[t].uplink = 0);
        }
        if tab.late > 0 {
            add(&|q| q.tabs[t].late = 0);
        }
        if tab.lag > 0 {
            add(&|q| q.tabs[t].lag = 0);
        }
        if tab.at > 0 {
            add(&|q| q.tabs[t].at = 0);
        }
        if tab.net != NetCfg::default() {
            add(&|q| q.tabs[t].net = NetCfg::default());
        }
        for a in 0..tab.actors.len() {
            for v in shrink_steps(&tab.actors[a].steps) {
                add(&|q| q.tabs[t].actors[a].steps = v.clone());
            }
            if tab.actors[a].at > 0 {
                add(&|q| q.tabs[t].actors[a].at = 0);
            }
        }
        for i in 0..tab.conns.len() {
            let c = tab.conns[i];
            if c.delay > 0 {
                add(&|q| q.tabs[t].conns[i].delay = 0);
            }
            if c.lag > 0 {
                add(&|q| q.tabs[t].conns[i].lag = 0);
            }
        }
    }
    if let Some(m) = p.model {
        if m.delay > 0 || m.dup > 0 || m.stray > 0 {
            add(&|q| q.model = Some(ModelCfg { delay: 0, dup: 0, stray: 0 }));
            add(&|q| q.model = Some(ModelCfg { dup: 0, stray: 0, ..m }));
        }
    }
    if p.weigh.is_some() {
        add(&|q| q.weigh = None);
    }
    if p.permute {
        add(&|q| q.permute = false);
    }
    if p.sched.policy != Policy::Fifo {
        add(&|q| q.sched.policy = Policy::Fifo);
    }
    if p.sched.par > 0 {
        add(&|q| q.sched.par = 0);
    }
    out
}
