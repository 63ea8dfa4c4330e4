//! Oracles over the history of a client-world run: a reference model of what a tab may observe and
//! do, stepped along the recorded events.
use crate::cplan::*;
use crate::cworld::{CHistory, MODEL_GEN};
use crate::log::Ev;
use crate::scheck::{cut, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const BACKOFF: [u64; 4] = [100, 200, 1000, 3000];

#[derive(Clone)]
struct Planned {
    f: Fun,
    args: Value,
    stream: bool,
    bad: bool,
    error: bool,
}

fn collect(steps: &[Step], m: &mut HashMap<u64, Planned>) {
    for s in steps {
        match s {
            Step::Call { f, args, r, bad, error, then, fail, .. } => {
                m.insert(*r, Planned { f: f.clone(), args: args.clone(), stream: false, bad: *bad, error: *error });
                collect(then, m);
                collect(fail, m);
            }
            Step::All { calls } => collect(calls, m),
            Step::Stream { f, args, r } => {
                m.insert(*r, Planned { f: f.clone(), args: args.clone(), stream: true, bad: false, error: false });
            }
            Step::Sub { on, .. } => on.iter().for_each(|o| collect(&o.steps, m)),
            _ => {}
        }
    }
}

/// the name under which the backend records an execution
fn what(f: &Fun) -> String {
    match (f.0.as_str(), f.1.as_str()) {
        ("Alpha", "ping") => "Alpha.ping".into(),
        ("Alpha", m) => m.into(),
        ("Gam_ma", m) => format!("Gamma.{m}"),
        (ns, m) => format!("{ns}.{m}"),
    }
}
fn zero(f: &Fun) -> bool {
    matches!(f.1.as_str(), "ping" | "beat")
}

#[derive(Default, Clone)]
struct Sock {
    state: u8,
    by_client: bool,
    /// requests and streams put on it
    carried: Vec<u64>,
    lost_at: Option<usize>,
}

#[derive(Default, Clone)]
struct Req {
    issued: Option<usize>,
    order: usize,
    id: Option<u64>,
    sock: Option<usize>,
    sent: u32,
    settled: Option<usize>,
    ok: Option<Value>,
    /// first reply or error with its id, delivered while open
    reply: Option<(usize, Value)>,
    error: Option<usize>,
    closed: Option<usize>,
}

struct Sub {
    r: u64,
    active: bool,
    from: usize,
    /// items owed in the order of arrival
    got: Vec<Value>,
    owed: Vec<Value>,
    /// the event being delivered now may or may not still reach it
    maybe: Option<Value>,
}

pub struct C {
    pub out: Vec<Violation>,
    faults: bool,
    permute: bool,
    pub ex: BTreeMap<&'static str, u64>,
}

impl C {
    fn add(&mut self, code: &'static str, props: &[&'static str], detail: String) {
        if self.out.iter().filter(|v| v.code == code).count() < 4 {
            let mut p: BTreeSet<&'static str> = props.iter().copied().collect();
            if self.permute {
                p.insert("C19");
            }
            self.out.push(Violation { code, props: p, detail });
        }
    }
    fn n(&mut self, p: &'static str, k: u64) {
        *self.ex.entry(p).or_default() += k;
    }
}

pub fn check(h: &CHistory) -> (Vec<Violation>, BTreeMap<&'static str, u64>) {
    let faults = !h.plan.outages.is_empty() || h.plan.tabs.iter().any(|t| !t.conns.is_empty());
    let mut c = C { out: vec![], faults, permute: h.plan.permute, ex: BTreeMap::new() };
    let all: &[&'static str] = &["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];
    for e in &h.load_errors {
        c.add("load", all, format!("the generated client does not load: {e}"));
    }
    if h.runaway {
        c.add("runaway", &["C14", "C16"], "the client opened connection after connection without end".into());
    }
    if !h.load_errors.is_empty() {
        return (c.out, c.ex);
    }
    let mut resolved: Vec<(usize, u64, Planned, Value)> = vec![];
    let mut wire: Vec<(usize, usize, u64, Planned)> = vec![]; // tab, socket, r, what - in order
    let mut closed_streams: Vec<(usize, u64, u64, bool)> = vec![];
    for t in 0..h.plan.tabs.len() {
        let mut plan = HashMap::new();
        for a in &h.plan.tabs[t].actors {
            collect(&a.steps, &mut plan);
        }
        for ph in 0..3 {
            for a in epilogue(t as u64, ph, h.plan.weigh) {
                collect(&a.steps, &mut plan);
            }
        }
        TabCheck::new(t, plan).run(h, &mut c, &mut resolved, &mut wire, &mut closed_streams);
    }
    if !h.runaway {
        servers(h, &mut c, &resolved, &wire, &closed_streams);
    }
    (c.out, c.ex)
}

struct TabCheck {
    t: usize,
    plan: HashMap<u64, Planned>,
    req: BTreeMap<u64, Req>,
    socks: Vec<Sock>,
    subs: BTreeMap<u64, Sub>,
    by_id: HashMap<u64, u64>,
    issue: Vec<u64>,
    /// how far the wire has come in the order of issue
    wire_pos: Option<usize>,
    timers: HashMap<u64, (usize, u64)>,
    /// possible lengths of the current series of failures
    ks: BTreeSet<usize>,
    lost: Option<(usize, u64)>,
    idle_since: Option<(usize, u64)>,
    /// a stream was opened since something last waited: a subscriber may still come
    lone_stream: bool,
    was_waiting: bool,
    actors: Vec<u64>,
    ids: HashSet<u64>,
    races: BTreeSet<u64>,
    /// put on an open connection in this step
    put: Vec<u64>,
    weighing: bool,
}

impl TabCheck {
    fn new(t: usize, plan: HashMap<u64, Planned>) -> Self {
        TabCheck {
            t,
            plan,
            req: BTreeMap::new(),
            socks: vec![],
            subs: BTreeMap::new(),
            by_id: HashMap::new(),
            issue: vec![],
            wire_pos: None,
            timers: HashMap::new(),
            ks: [0].into(),
            lost: None,
            idle_since: None,
            lone_stream: false,
            was_waiting: false,
            actors: vec![],
            ids: HashSet::new(),
            races: BTreeSet::new(),
            put: vec![],
            weighing: false,
        }
    }
    fn name(&self, r: u64) -> String {
        match self.plan.get(&r) {
            Some(p) => format!("tab {} request {r} {}.{}{}", self.t, p.f.0, p.f.1, cut(&p.args)),
            None => format!("tab {} request {r}", self.t),
        }
    }
    fn pending(&self) -> usize {
        self.req.iter().filter(|(r, q)| q.issued.is_some() && q.settled.is_none() && !self.plan.get(r).is_some_and(|p| p.stream)).count()
    }
    fn waiting(&self) -> bool {
        self.pending() > 0 || !self.races.is_empty() || self.subs.values().any(|s| s.active)
    }
    /// the requests and subscribers that wait
    fn waiters(&self) -> Vec<(u64, u64)> {
        let requests = self.req.iter().filter(|(r, q)| q.issued.is_some() && q.settled.is_none() && self.plan.get(r).is_some_and(|p| !p.stream && !p.bad)).map(|(r, _)| (*r, 0));
        requests.chain(self.subs.iter().filter(|(_, s)| s.active).map(|(u, s)| (s.r, *u))).collect()
    }
    fn unsent(&self) -> bool {
        self.req.iter().any(|(r, q)| q.issued.is_some() && q.sent == 0 && q.settled.is_none() && self.plan.get(r).is_some_and(|p| !p.bad))
    }
    fn current(&self) -> Option<usize> {
        (0..self.socks.len()).rev().find(|i| self.socks[*i].state < 2)
    }

    fn run(mut self, h: &CHistory, c: &mut C, resolved: &mut Vec<(usize, u64, Planned, Value)>, wire: &mut Vec<(usize, usize, u64, Planned)>, closed_streams: &mut Vec<(usize, u64, u64, bool)>) {
        let mut phase = "start";
        let mut phases: Vec<&str> = vec![];
        for (i, rec) in h.log.iter().enumerate() {
            let Ev::Js(v) = &rec.ev else { continue };
            if let Some(m) = v["mark"].as_str() {
                if !m.starts_with("server") {
                    phase = ["quiet", "settled", "sequential", "idle", "again", "end", "stopped"].iter().find(|x| **x == m).copied().unwrap_or("?");
                    phases.push(phase);
                    // time passes also where nothing happens
                    if phase != "stopped" && !h.runaway {
                        self.idle(c, rec.t);
                    }
                    if phase == "settled" {
                        self.settled_yet(c, false);
                    }
                }
                continue;
            }
            if v["t"] != json!(self.t) || phase == "stopped" {
                continue;
            }
            self.step(c, i, rec.t, v, phase, resolved, wire);
        }
        if h.runaway {
            return;
        }
        self.settled_yet(c, true);
        self.finish(c, h);
        for (r, q) in &self.req {
            if let (Some(p), Some(_)) = (self.plan.get(r), q.closed) {
                if p.stream && q.sent > 0 && !zero(&p.f) {
                    let s = &self.socks[q.sock.unwrap()];
                    closed_streams.push((self.t, *r, tag_of(self.t as u64, *r), s.lost_at.is_none() && !s.by_client));
                }
            }
        }
    }

    fn settled_yet(&mut self, c: &mut C, end: bool) {
        if !end {
            for r in std::mem::take(&mut self.races) {
                c.add("pending-for-ever", &["C15", "C12", "C13"], format!("tab {}: of many requests made in a row ({r}), some are still pending long after all faults have stopped", self.t));
                self.races.insert(r);
            }
            let late: Vec<u64> = self.req.iter().filter(|(r, q)| q.issued.is_some() && q.sent == 0 && q.settled.is_none() && self.plan[*r].stream).map(|(r, _)| *r).collect();
            for r in late {
                c.add("never-sent", &["C13", "C14"], format!("{} has not been put on any connection yet, long after all faults have stopped", self.name(r)));
            }
        }
        let stuck: Vec<(u64, Req)> = self.req.iter().filter(|(r, q)| q.issued.is_some() && q.settled.is_none() && !self.plan[*r].stream).map(|(r, q)| (*r, q.clone())).collect();
        for (r, q) in stuck {
            if end != (r >= 50_000) {
                continue;
            }
            let why = match (q.sock, q.error) {
                (_, Some(_)) => "although the server answered with an error",
                (None, _) => "it was never sent",
                (Some(s), _) if self.socks[s].lost_at.is_some() => "although the connection that carried it is gone",
                _ => "",
            };
            let mut p = vec!["C15"];
            if !c.faults {
                p.push("C16");
            }
            if end {
                p.extend(["C14", "C16"]);
            }
            if q.sock.is_none() {
                p.push("C13");
            }
            c.add("pending-for-ever", &p, format!("{} is still pending long after all faults have stopped; {why}", self.name(r)));
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn step(&mut self, c: &mut C, at: usize, now: u64, v: &Value, phase: &str, resolved: &mut Vec<(usize, u64, Planned, Value)>, wire: &mut Vec<(usize, usize, u64, Planned)>) {
        let ev = &v["ev"];
        let kind = ev["k"].as_str().unwrap_or("");
        let mut issued_here = false;
        let mut lost_here: Option<usize> = None;
        let mut all_gone = false;
        let mut set_here: Vec<u64> = vec![];
        let was_idle = !self.was_waiting;
        let mut left_here: Option<usize> = None;
        let before: Vec<(u64, u64)> = self.waiters();
        let mut delivered: Option<Value> = None;
        let mut new_here = 0;
        let mut opened_here = false;
        for f in v["fx"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
            let r = f["r"].as_u64().unwrap_or(0);
            let s = f["s"].as_u64().unwrap_or(0) as usize;
            match f["e"].as_str().unwrap_or("") {
                "loaderror" => c.add("load", &["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"], format!("the generated client does not load: {}", f["m"])),
                "missing" => c.add("missing-function", &["C19", "C20"], format!("tab {}: the generated client has no function {}", self.t, f["f"])),
                "uncaught" if f["m"].as_str().is_some_and(|m| m.contains("fails on purpose")) => {}
                "uncaught" => c.add("uncaught", &["C12", "C15", "C17"], format!("tab {}: exception in {}: {}", self.t, f["at"], f["m"])),
                "issue" | "open" => {
                    issued_here = true;
                    let stream = f["e"] == json!("open");
                    if stream {
                        self.lone_stream = true;
                    }
                    let order = self.issue.len();
                    self.issue.push(r);
                    let q = self.req.entry(r).or_default();
                    q.issued = Some(at);
                    q.order = order;
                }
                "throw" => {
                    self.req.entry(r).or_default().settled = Some(at);
                    c.add("throws", &["C13", "C17", "C19"], format!("{}: the function throws {}", self.name(r), f["m"]));
                }
                "ok" => {
                    let val = f["v"].clone();
                    let name = self.name(r);
                    let p = self.plan[&r].clone();
                    let q = self.req.entry(r).or_default();
                    q.settled = Some(at);
                    q.ok = Some(val.clone());
                    let reply = q.reply.clone();
                    c.n("C12", 1);
                    c.n("C15", 1);
                    c.n("C18", 1);
                    c.n("C19", 1);
                    match reply {
                        None => c.add("resolved-without-reply", &["C12", "C15"], format!("{name} resolved with {} although no reply with its id has arrived", cut(&val))),
                        Some((_, want)) => {
                            // an undefined result stands for null
                            if want != val {
                                c.add("wrong-value", &["C12", "C18"], format!("{name} resolved with {} but the first reply with its id said {}", cut(&val), cut(&want)));
                            }
                        }
                    }
                    if p.bad {
                        c.add("bad-arguments-accepted", &["C19"], format!("{name} resolved although its arguments do not match the schema"));
                    }
                    resolved.push((self.t, r, p, val));
                }
                "err" => {
                    let name = self.name(r);
                    let p = self.plan[&r].clone();
                    let q = self.req.entry(r).or_default();
                    q.settled = Some(at);
                    let (error, reply, sock, sent) = (q.error, q.reply.is_some(), q.sock, q.sent);
                    c.n("C15", 1);
                    let lost = sock.is_some_and(|s| self.socks[s].lost_at.is_some());
                    if p.bad {
                        if sent > 0 {
                            c.add("bad-arguments-sent", &["C19", "C13"], format!("{name} was rejected and sent all the same"));
                        }
                    } else if error.is_none() && !lost {
                        let mut props = vec!["C15", "C12"];
                        if !c.faults {
                            props.push("C16");
                        }
                        if matches!(phase, "sequential" | "idle" | "again") {
                            props.extend(["C14", "C16"]);
                        }
                        if sent == 0 {
                            props.push("C13");
                        }
                        c.add("rejected-without-reason", &props, format!("{name} was rejected ({}) although neither an error for it has arrived nor its connection was lost (sent {sent} times)", f["m"]));
                    } else if reply && error.is_none() {
                        c.add("rejected-after-reply", &["C12", "C15"], format!("{name} was rejected ({}) although its reply has arrived", f["m"]));
                    } else if lost && error.is_none() && self.socks[sock.unwrap()].by_client {
                        c.add("client-dropped-request", &["C15", "C16"], format!("{name}: the client itself closed the connection its request was waiting on"));
                    } else if error.is_none() && matches!(phase, "sequential" | "idle" | "again") {
                        c.add("rejected-while-healthy", &["C14", "C15", "C16"], format!("{name} was rejected ({}) although the server is reachable and nothing fails any more", f["m"]));
                    }
                }
                "sub" => {
                    let u = f["u"].as_u64().unwrap_or(0);
                    self.lone_stream = false;
                    self.subs.insert(u, Sub { r, active: true, from: at, got: vec![], owed: vec![], maybe: None });
                }
                "unsub" => {
                    let u = f["u"].as_u64().unwrap_or(0);
                    if let Some(s) = self.subs.get_mut(&u) {
                        s.active = false;
                        // an item of the message that is being passed on may have come too late
                        if let (Some(d), Some(id)) = (&delivered, self.req.get(&s.r).and_then(|q| q.id)) {
                            if d["stream"]["id"] == json!(id) && s.from < at && s.owed.len() > s.got.len() {
                                s.maybe = s.owed.pop();
                            }
                        }
                    }
                }
                "unsubbed" => {
                    // from here on the callback must be silent
                    let u = f["u"].as_u64().unwrap_or(0);
                    if let Some(s) = self.subs.get_mut(&u) {
                        s.maybe = None;
                    }
                }
                "item" => {
                    let u = f["u"].as_u64().unwrap_or(0);
                    let val = f["v"].clone();
                    c.n("C17", 1);
                    let t = self.t;
                    let Some(s) = self.subs.get_mut(&u) else { continue };
                    s.got.push(val.clone());
                    let k = s.got.len();
                    let want = s.owed.get(k - 1).cloned();
                    if want.as_ref() != Some(&val) {
                        let r = s.r;
                        let from = s.from;
                        let act = s.active;
                        let maybe = s.maybe.take();
                        if maybe.as_ref() == Some(&val) {
                            s.owed.push(val);
                        } else {
                            let why = if !act {
                                "after it had unsubscribed"
                            } else if from == at {
                                "that had arrived before it subscribed"
                            } else {
                                "it is not owed"
                            };
                            s.owed.push(val.clone());
                            c.add("stray-item", &["C17", "C12"], format!("tab {t} subscriber {u} of stream {r} was called with {} {why} (owed next: {want:?})", cut(&val)));
                        }
                    }
                }
                "close" => {
                    let q = self.req.entry(r).or_default();
                    if q.closed.is_none() {
                        q.closed = Some(at);
                        issued_here = true;
                        let order = self.issue.len();
                        self.issue.push(1 << 40 | r);
                        let _ = order;
                        // to be seen on the wire by the end of this step if its connection is up
                    }
                }
                "ws_new" => {
                    new_here += 1;
                    self.socks.push(Sock::default());
                    let live = self.socks.iter().filter(|s| s.state < 2).count();
                    if live > 1 {
                        c.add("two-connections", &["C16"], format!("tab {} has {live} connections opening or open at the same time (new: #{s})", self.t));
                    }
                    c.n("C16", 1);
                    self.attempt(c, now, ev, kind, issued_here || self.weighing, lost_here, was_idle);
                }
                "ws_close" => {
                    if self.socks[s].state < 2 {
                        self.socks[s].state = 2;
                        self.socks[s].by_client = true;
                        left_here = Some(s);
                        self.socks[s].lost_at.get_or_insert(at);
                    }
                }
                "opened" => {
                    opened_here = true;
                    self.socks[s].state = 1;
                    self.ks = [0].into();
                    self.lost = None;
                    c.n("C14", 1);
                }
                "closing" => {
                    self.socks[s].state = 2;
                    self.socks[s].lost_at.get_or_insert(at);
                }
                "closed" => {
                    let cur = (0..self.socks.len()).next_back() == Some(s);
                    if cur && !self.socks[s].by_client {
                        lost_here = Some(s);
                    }
                    self.socks[s].state = 3;
                    self.socks[s].lost_at.get_or_insert(at);
                }
                "ws_send" => self.sent(c, s, f, wire),
                "delivered" => {
                    let msg: Value = serde_json::from_str(f["x"].as_str().unwrap_or("")).unwrap_or(Value::Null);
                    self.deliver(at, &msg);
                    delivered = Some(msg);
                }
                "timer" => {
                    let ms = f["ms"].as_u64().unwrap_or(0);
                    let i = f["i"].as_u64().unwrap_or(0);
                    self.timers.insert(i, (at, now + ms));
                    set_here.push(i);
                }
                "untimer" | "fired" => {
                    self.timers.remove(&f["i"].as_u64().unwrap_or(0));
                }
                "race" => {
                    issued_here = true;
                    self.races.insert(r);
                    self.weighing = f["weigh"] == json!(true);
                }
                "raced" => {
                    self.races.remove(&r);
                    self.weighing = false;
                    self.raced(c, r, f);
                }
                "kept" => {
                    let (of, left) = (f["of"].as_u64().unwrap_or(0), f["left"].as_u64().unwrap_or(0));
                    c.n("C23", of);
                    // whoever still waits is another matter
                    if left > 0 && !self.waiting() {
                        c.add("retained", &["C23"], format!("tab {}: {left} of {of} {}s are still reachable although every request has settled, every subscriber has gone and the page has forgotten them", self.t, f["kind"].as_str().unwrap_or("")));
                    }
                }
                "weighed" => {
                    c.n("C23", f["n"].as_u64().unwrap_or(0));
                    if f["over"] == json!(true) {
                        c.add("grows", &["C23"], format!("tab {}: the client holds more memory after {} further requests, all of them settled and forgotten", self.t, f["n"]));
                    }
                }
                "actor" => self.actors.push(f["a"].as_u64().unwrap_or(0)),
                _ => {}
            }
            // whoever subscribes after everybody has gone again does not bring it back
            if (lost_here.is_some() || self.lost.is_some()) && !self.waiting() {
                all_gone = true;
            }
        }
        let _ = (opened_here, new_here);
        // ---- end of the step
        if let Some(msg) = &delivered {
            self.after_delivery(c, at, msg);
        }
        // a stream that was closed while its connection was up is cancelled there
        // one that was closed before it got there, too
        let mut closed: Vec<u64> = self.req.iter().filter(|(_, q)| q.closed == Some(at)).map(|(r, _)| *r).collect();
        for r in std::mem::take(&mut self.put) {
            if self.req[&r].closed.is_some() && !closed.contains(&r) {
                closed.push(r);
            }
        }
        for r in closed {
            let q = self.req[&r].clone();
            if let (Some(s), Some(id)) = (q.sock, q.id) {
                if self.socks[s].state == 1 && !self.cancelled(v, s, id) {
                    c.add("close-without-cancel", &["C17"], format!("{}: closed while its connection is open, but no cancel was sent", self.name(r)));
                }
                c.n("C17", 1);
            }
        }
        let waiting = self.waiting();
        // ---- leaving it
        if let Some(s) = left_here {
            let after = self.waiters();
            if let Some((r, u)) = before.iter().find(|w| after.contains(w)) {
                let who = if *u > 0 { format!("subscriber {u} of stream {r}") } else { self.name(*r) };
                c.add("left-while-waiting", &["C14", "C15", "C16", "C17"], format!("tab {}: the client itself closes connection #{s} at {now} ms although {who} waits for data", self.t));
            }
        }
        // ---- losing the connection
        if let Some(s) = lost_here {
            if waiting && !all_gone {
                self.lost = Some((at, now));
                c.n("C14", 1);
                let again = self.current().is_some();
                let timer = set_here.iter().any(|i| self.timers.contains_key(i));
                if !again && !timer {
                    c.add("gave-up", &["C14", "C15"], format!("tab {}: connection #{s} was lost or refused at {now} ms while {} requests and {} subscribers are waiting, and no reconnection is under way", self.t, self.pending(), self.subs.values().filter(|s| s.active).count()));
                }
                if timer {
                    // what it waits now is judged when it comes to the next attempt
                    for i in &set_here {
                        if let Some((_, due)) = self.timers.get(i) {
                            let wait = due - now;
                            let k: Vec<usize> = self.ks.iter().copied().filter(|k| BACKOFF[(*k).min(3)] == wait).collect();
                            if k.is_empty() {
                                c.add("back-off", &["C14"], format!("tab {}: after losing connection #{s} at {now} ms the client waits {wait} ms; after {:?} failures in a row it should be {:?} ms", self.t, self.ks, self.ks.iter().map(|k| BACKOFF[(*k).min(3)]).collect::<Vec<_>>()));
                                self.ks = [0, 1, 2, 3].into();
                            } else {
                                self.ks = k.into_iter().map(|k| k + 1).collect();
                            }
                        }
                    }
                }
            } else {
                // nothing waits: the attempt may or may not count
                let more: Vec<usize> = self.ks.iter().map(|k| k + 1).collect();
                self.ks.extend(more);
                self.lost = None;
            }
        } else if let Some((_, t0)) = self.lost {
            // a wait that is cut short may or may not count
            if !waiting || all_gone {
                let less: Vec<usize> = self.ks.iter().map(|k| k.saturating_sub(1)).collect();
                self.ks.extend(less);
                self.lost = None;
            } else if self.current().is_none() && self.timers.is_empty() {
                c.add("gave-up", &["C14", "C15"], format!("tab {}: lost its connection at {t0} ms, still has something waiting at {now} ms, and is not reconnecting", self.t));
                self.lost = None;
            }
        }
        if self.current().is_some() {
            self.lost = None;
        }
        // ---- idle
        if waiting {
            self.idle_since = None;
        } else {
            if self.was_waiting {
                // streams opened before this point had their chance
                self.lone_stream = self.unsent();
                self.idle_since = Some((at, now));
            }
            self.idle(c, now);
        }
        self.was_waiting = waiting;
    }

    /// nothing waits: the connection has to be gone by now
    fn idle(&mut self, c: &mut C, now: u64) {
        let (Some((_, t0)), false, false) = (self.idle_since, self.lone_stream, self.unsent()) else { return };
        match self.current() {
            Some(s) if now > t0 + 1000 => {
                c.add("open-while-idle", &["C16"], format!("tab {}: nothing has been waiting since {t0} ms, but connection #{s} is still there at {now} ms", self.t));
                self.idle_since = None;
            }
            Some(_) => {}
            None => c.n("C16", 1),
        }
    }

    /// what came of thousands of requests in a row
    fn raced(&mut self, c: &mut C, r: u64, f: &Value) {
        let n = |k: &str| f[k].as_u64().unwrap_or(0);
        let who = format!("tab {} request {r} ({} requests in a row)", self.t, n("n"));
        for p in ["C12", "C13", "C15"] {
            c.n(p, n("n"));
        }
        let some = |k: &str| f[k].as_array().is_some_and(|l| !l.is_empty());
        if some("wrong") {
            c.add("wrong-value", &["C12", "C18"], format!("{who}: resolved with what was not its reply: [request, value] {}", f["wrong"]));
        }
        if some("spurious") {
            c.add("rejected-without-reason", &["C15", "C12"], format!("{who}: rejected although neither an error for it has arrived nor its connection was lost: [request, error] {}", f["spurious"]));
        }
        if n("dupIds") > 0 {
            c.add("id-reused", &["C12"], format!("{who}: {} of them used the id of an earlier request", n("dupIds")));
        }
        if n("twice") > 0 {
            c.add("sent-twice", &["C13", "C18"], format!("{who}: {} of them were put on an open connection again", n("twice")));
        }
        if n("order") > 0 {
            c.add("out-of-order", &["C13", "C18"], format!("{who}: {} of them were sent after one that was asked for later", n("order")));
        }
        if n("unsent") > n("lost") {
            c.add("never-sent", &["C13"], format!("{who}: {} of them were never put on an open connection", n("unsent") - n("lost")));
        }
    }

    fn cancelled(&self, v: &Value, s: usize, id: u64) -> bool {
        v["fx"].as_array().is_some_and(|l| {
            l.iter().any(|f| {
                f["e"] == json!("ws_send")
                    && f["st"] == json!(1)
                    && f["s"] == json!(s)
                    && serde_json::from_str::<Value>(f["x"].as_str().unwrap_or("")).is_ok_and(|m| m["cancelStream"]["id"] == json!(id))
            })
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn attempt(&mut self, c: &mut C, now: u64, ev: &Value, kind: &str, issued: bool, lost_here: Option<usize>, was_idle: bool) {
        if issued {
            // asking for something may connect at once
            if self.lost.is_some() || lost_here.is_some() {
                let less: Vec<usize> = self.ks.iter().map(|k| k.saturating_sub(1)).collect();
                let more: Vec<usize> = self.ks.iter().map(|k| k + 1).collect();
                self.ks.extend(less);
                self.ks.extend(more);
            }
            return;
        }
        if was_idle && !self.waiting() && !self.unsent() {
            c.add("reconnects-while-idle", &["C16"], format!("tab {}: opens a connection at {now} ms although nothing waits for data", self.t));
            return;
        }
        if kind != "timer" {
            c.add("hasty", &["C14"], format!("tab {}: connects at {now} ms (on {kind}) without having waited, and nothing was asked for", self.t));
            return;
        }
        c.n("C14", 1);
        if let (Some((_, t0)), Some(due)) = (self.lost, ev["due"].as_u64()) {
            let wait = due.saturating_sub(t0);
            // the series has been advanced when the wait began
            let ok = self.ks.iter().any(|k| BACKOFF[k.saturating_sub(1).min(3)] == wait);
            if !ok {
                c.add("back-off", &["C14"], format!("tab {}: the attempt at {now} ms came {wait} ms after the loss at {t0} ms; it should be one of {:?}", self.t, self.ks.iter().map(|k| BACKOFF[k.saturating_sub(1).min(3)]).collect::<Vec<_>>()));
            }
        }
    }

    fn sent(&mut self, c: &mut C, s: usize, f: &Value, wire: &mut Vec<(usize, usize, u64, Planned)>) {
        let text = f["x"].as_str().unwrap_or("");
        let st = f["st"].as_u64().unwrap_or(9);
        let msg: Value = serde_json::from_str(&crate::cworld::whole(text)).unwrap_or(Value::Null);
        if st != 1 {
            // thrown back or dropped by the browser: the message has not been sent
            return;
        }
        if let Some(id) = msg["cancelStream"]["id"].as_u64() {
            let Some(r) = self.by_id.get(&id).copied() else {
                c.add("cancel-of-nothing", &["C17", "C13"], format!("tab {}: cancels the id {id}, which it never used", self.t));
                return;
            };
            if self.req[&r].closed.is_none() || !self.plan[&r].stream {
                c.add("cancel-unasked", &["C17"], format!("{}: cancelled although it was never closed", self.name(r)));
                return;
            }
            if let Some(p) = self.issue.iter().position(|x| *x == 1 << 40 | r) {
                self.ordered(c, p, r, true);
            }
            return;
        }
        let e = &msg["exec"];
        let (Some(id), Some(ns), Some(m)) = (e["id"].as_u64(), e["namespace"].as_str(), e["method"].as_str()) else {
            c.add("odd-message", &["C13", "C19"], format!("tab {}: sends something the server does not understand: {}", self.t, text.chars().take(200).collect::<String>()));
            return;
        };
        let fun: Fun = (ns.into(), m.into());
        let r = if zero(&fun) {
            // the first one of its kind that is still to be sent, unless this id was sent before
            self.by_id.get(&id).copied().or_else(|| self.issue.iter().copied().find(|r| self.plan.get(r).is_some_and(|p| p.f == fun) && self.req[r].sent == 0))
        } else {
            let tag = e["args"][0].as_u64().unwrap_or(0);
            Some(tag.wrapping_sub(tag_of(self.t as u64, 0))).filter(|r| self.req.contains_key(r) && self.plan.contains_key(r))
        };
        let Some(r) = r else {
            c.add("unasked-message", &["C13", "C19"], format!("tab {}: sends a request nobody made: {}", self.t, text.chars().take(200).collect::<String>()));
            return;
        };
        let p = self.plan[&r].clone();
        c.n("C13", 1);
        if p.f != fun || p.args != e["args"] {
            c.add("altered-request", &["C19"], format!("{} was sent as {ns}.{m}{}", self.name(r), cut(&e["args"])));
        }
        let name = self.name(r);
        let q = self.req.get_mut(&r).unwrap();
        q.sent += 1;
        if q.sent > 1 {
            let n = q.sent;
            c.add("sent-twice", &["C13", "C18"], format!("{name} was put on an open connection {n} times (now on #{s})"));
            return;
        }
        q.id = Some(id);
        q.sock = Some(s);
        self.put.push(r);
        let ord = q.order;
        if !self.ids.insert(id) {
            c.add("id-reused", &["C12"], format!("{name} uses the id {id} again"));
        }
        self.by_id.insert(id, r);
        self.socks[s].carried.push(r);
        wire.push((self.t, s, r, p));
        self.ordered(c, ord, r, false);
    }

    fn ordered(&mut self, c: &mut C, ord: usize, r: u64, cancel: bool) {
        if self.wire_pos.is_some_and(|w| ord < w) {
            if !cancel {
                c.add("out-of-order", &["C13", "C18"], format!("{} was sent after something that was asked for later", self.name(r)));
            } else {
                // a repeated close may cancel again
            }
            return;
        }
        self.wire_pos = Some(ord);
    }

    fn deliver(&mut self, at: usize, msg: &Value) {
        if let Some(id) = msg["method"]["id"].as_u64() {
            if let Some(q) = self.by_id.get(&id).and_then(|r| self.req.get_mut(r)) {
                if q.reply.is_none() && q.error.is_none() {
                    q.reply = Some((at, msg["method"]["data"].clone()));
                }
            }
        } else if let Some(id) = msg["error"]["id"].as_u64() {
            if let Some(q) = self.by_id.get(&id).and_then(|r| self.req.get_mut(r)) {
                if q.reply.is_none() {
                    q.error.get_or_insert(at);
                }
            }
        } else if let Some(id) = msg["stream"]["id"].as_u64() {
            if let Some(r) = self.by_id.get(&id).copied() {
                for s in self.subs.values_mut().filter(|s| s.r == r && s.active && s.from < at) {
                    s.owed.push(msg["stream"]["data"].clone());
                }
            }
        }
    }

    fn after_delivery(&mut self, c: &mut C, at: usize, msg: &Value) {
        if let Some(id) = msg["stream"]["id"].as_u64() {
            let Some(r) = self.by_id.get(&id).copied() else { return };
            let t = self.t;
            for (u, s) in self.subs.iter_mut().filter(|(_, s)| s.r == r) {
                s.maybe = None;
                if s.owed.len() > s.got.len() {
                    let item = s.owed[s.got.len()].clone();
                    s.got = s.owed.clone();
                    c.add("item-missed", &["C17"], format!("tab {t} subscriber {u} of stream {r} was not called with {}, which arrived while it was subscribed", cut(&item)));
                }
            }
            return;
        }
        for k in ["method", "error"] {
            let Some(id) = msg[k]["id"].as_u64() else { continue };
            let Some(r) = self.by_id.get(&id).copied() else { continue };
            let q = self.req[&r].clone();
            let first = q.reply.as_ref().map(|x| x.0 == at).unwrap_or(false) || q.error == Some(at);
            if first && q.settled.is_none() && !self.plan[&r].stream {
                c.add("reply-ignored", &["C12", "C15"], format!("{}: its {} has arrived but the promise is still pending", self.name(r), if k == "method" { "reply" } else { "error" }));
            }
        }
    }

    fn finish(&mut self, c: &mut C, h: &CHistory) {
        for r in self.issue.clone() {
            if r >= 1 << 40 {
                continue;
            }
            let q = &self.req[&r];
            let p = &self.plan[&r];
            if !p.bad && q.sent == 0 && q.settled.is_none_or(|_| true) {
                let mut props = vec!["C13"];
                if !c.faults {
                    props.extend(["C16", "C19"]);
                }
                if p.stream {
                    props.push("C17");
                }
                c.add("never-sent", &props, format!("{} was asked for but never put on an open connection", self.name(r)));
            }
        }
        // every phase at the end must have been gone through
        for ph in 0..3u64 {
            let id = 50_000 + 100 * ph;
            if !self.actors.contains(&id) {
                c.add("no-recovery", &["C14", "C15", "C16"], format!("tab {}: the requests made one after the other on a healthy network did not get through ({})", self.t, ["first round", "before going idle", "after having been idle"][ph as usize]));
            }
        }
        // requests of the epilogue succeed
        for (r, q) in self.req.iter().filter(|(r, _)| **r >= 50_000) {
            if !self.plan[r].stream && q.issued.is_some() && q.ok.is_none() && q.settled.is_some() && q.error.is_some() {
                c.add("healthy-error", &["C14", "C16", "C19"], format!("{} failed on a healthy network", self.name(*r)));
            }
        }
        // a stream whose connection never went away has delivered everything to whoever was there
        for (u, s) in &self.subs {
            let Some(q) = self.req.get(&s.r) else { continue };
            let Some(p) = self.plan.get(&s.r) else { continue };
            let Some(k) = q.sock else { continue };
            if self.socks[k].lost_at.is_some() && !self.permute_healthy(h) {
                continue;
            }
            let want = match p.f.1.as_str() {
                "count" | "subscribe" | "same" => p.args[1].as_u64().unwrap_or(0),
                "beat" => 3,
                _ => continue,
            };
            // subscribed before the first item could arrive, and never left
            let first = h.log.iter().position(|x| match &x.ev {
                Ev::Js(v) => v["t"] == json!(self.t) && v["fx"].as_array().is_some_and(|l| l.iter().any(|f| f["e"] == json!("ws_send") && f["s"] == json!(k))),
                _ => false,
            });
            if s.active && q.closed.is_none() && first.is_some_and(|f| s.from <= f) && (s.got.len() as u64) < want && self.socks[k].lost_at.is_none() {
                let n = s.got.len();
                c.add("stream-incomplete", &["C17", "C19"], format!("tab {} subscriber {u}: {} delivered {n} of {want} items over a connection that stayed up", self.t, self.name(s.r)));
            }
        }
    }
    fn permute_healthy(&self, h: &CHistory) -> bool {
        h.plan.permute
    }
}

/// what happened on the server, against what the tabs saw
fn servers(h: &CHistory, c: &mut C, resolved: &[(usize, u64, Planned, Value)], wire: &[(usize, usize, u64, Planned)], closed: &[(usize, u64, u64, bool)]) {
    let mut execs: HashMap<u64, Vec<(usize, u32, &'static str)>> = HashMap::new();
    let mut ends: HashMap<u64, Value> = HashMap::new();
    let mut zero_vals: HashMap<&'static str, Vec<Value>> = HashMap::new();
    let mut last_zero: HashMap<u32, &'static str> = HashMap::new();
    let mut sums: HashMap<(u32, bool), i64> = HashMap::new();
    let mut dropped: HashSet<u64> = HashSet::new();
    let mut started: HashMap<u64, u32> = HashMap::new();
    let mut planned: HashMap<u64, Planned> = HashMap::new();
    for (t, _, r, p) in wire {
        planned.insert(tag_of(*t as u64, *r), p.clone());
    }
    let mut kinds: HashMap<u64, &'static str> = HashMap::new();
    for (i, rec) in h.log.iter().enumerate() {
        match &rec.ev {
            Ev::ExecStart { gen, tag, what } => {
                if *tag == 0 {
                    last_zero.insert(*gen, what);
                } else {
                    execs.entry(*tag).or_default().push((i, *gen, what));
                }
            }
            Ev::ExecEnd { gen, tag, val } => {
                if *tag == 0 {
                    if let Some(w) = last_zero.get(gen) {
                        zero_vals.entry(w).or_default().push(val.clone());
                    }
                    continue;
                }
                ends.insert(*tag, val.clone());
                if *gen >= MODEL_GEN {
                    continue;
                }
                // the method that was named has run, with the arguments that were passed
                if let Some(p) = planned.get(tag) {
                    let n = p.args[1].as_i64().unwrap_or(0);
                    let want = match (p.f.0.as_str(), p.f.1.as_str()) {
                        ("Gam_ma", "add") => json!([tag, 1_000_000 + n]),
                        ("Gam_ma", "only_here") => json!([tag, "gamma"]),
                        (ns, "add" | "slow") => {
                            let s = sums.entry((*gen, ns == "Alpha")).or_default();
                            *s += n;
                            json!([tag, *s])
                        }
                        (_, "echo" | "mix") | ("Odd", _) => p.args.clone(),
                        _ => continue,
                    };
                    c.n("C19", 1);
                    if &want != val {
                        c.add("wrong-method", &["C19", "C18"], format!("{}.{}{} evaluated to {} instead of {}", p.f.0, p.f.1, cut(&p.args), cut(val), cut(&want)));
                    }
                }
            }
            Ev::StreamNew { tag, kind, .. } => {
                *started.entry(*tag).or_default() += 1;
                kinds.insert(*tag, kind);
            }
            Ev::StreamDrop { tag } => {
                dropped.insert(*tag);
            }
            // what happens once the server is shut down does not count
            Ev::Js(v) if v["mark"] == json!("end") => break,
            _ => {}
        }
    }
    for (tag, l) in &execs {
        let Some(p) = planned.get(tag) else {
            c.add("unasked-execution", &["C18", "C13"], format!("the server executed {} (tag {tag}), which no client has sent", l[0].2));
            continue;
        };
        if l.len() > 1 {
            c.add("executed-twice", &["C18", "C13"], format!("{}.{}{} was executed {} times", p.f.0, p.f.1, cut(&p.args), l.len()));
        }
        if l[0].1 < MODEL_GEN && l[0].2 != what(&p.f) {
            c.add("wrong-method", &["C19"], format!("{}.{} ran {}", p.f.0, p.f.1, l[0].2));
        }
    }
    for (tag, n) in &started {
        if *tag == 0 {
            continue;
        }
        let Some(p) = planned.get(tag) else {
            c.add("unasked-execution", &["C18", "C13"], format!("the server started a stream (tag {tag}), which no client has sent"));
            continue;
        };
        if *n > 1 {
            c.add("executed-twice", &["C18", "C13"], format!("{}.{}{} was started {n} times", p.f.0, p.f.1, cut(&p.args)));
        }
        let want = if p.f.0 == "Alpha" { p.f.1.clone() } else { what(&p.f) };
        if kinds[tag] != "model" && kinds[tag] != want {
            c.add("wrong-method", &["C19"], format!("{}.{} started {}", p.f.0, p.f.1, kinds[tag]));
        }
    }
    for (t, r, p, val) in resolved {
        if zero(&p.f) {
            let w = if h.plan.model.is_some() { "model".to_string() } else { what(&p.f) };
            let seen = zero_vals.iter().find(|(k, _)| ***k == *w).is_some_and(|(_, l)| l.contains(val));
            if !seen {
                c.add("resolved-unexecuted", &["C18", "C19"], format!("tab {t} request {r} {}.{} resolved with {}, which no execution returned", p.f.0, p.f.1, cut(val)));
            }
            continue;
        }
        let tag = tag_of(*t as u64, *r);
        let n = execs.get(&tag).map(|l| l.len()).unwrap_or(0);
        let got = ends.get(&tag);
        if n != 1 || got != Some(val) {
            c.add("resolved-unexecuted", &["C18", "C19"], format!("tab {t} request {r} {}.{}{} resolved with {}; it was executed {n} times and returned {:?}", p.f.0, p.f.1, cut(&p.args), cut(val), got.map(cut)));
        }
    }
    // zero-argument methods: no more executions than requests on the wire
    for w in ["Alpha.ping", "Beta.ping"] {
        let ran = zero_vals.get(w).map(|l| l.len()).unwrap_or(0);
        let sent = wire.iter().filter(|(_, _, _, p)| what(&p.f) == w).count();
        if ran > sent {
            c.add("executed-twice", &["C18", "C13"], format!("{w} ran {ran} times for {sent} requests"));
        }
    }
    // one connection's requests run in the order in which they were made
    if h.plan.model.is_none() {
        let mut last: HashMap<(usize, usize), (usize, u64)> = HashMap::new();
        for (t, s, r, p) in wire {
            let tag = tag_of(*t as u64, *r);
            if p.stream || zero(&p.f) {
                continue;
            }
            if let Some(l) = execs.get(&tag) {
                c.n("C18", 1);
                let e = last.entry((*t, *s)).or_insert((0, 0));
                if l[0].0 < e.0 {
                    c.add("executed-out-of-order", &["C18"], format!("tab {t}: request {r} ran before request {}, which was made earlier on the same connection", e.1));
                }
                *e = (l[0].0.max(e.0), *r);
            }
        }
    }
    // closed streams do not live on
    for (t, r, tag, up) in closed {
        if started.contains_key(tag) && !dropped.contains(tag) {
            let mut p = vec!["C17"];
            if !*up {
                p.push("C16");
            }
            c.add("stream-outlives-close", &p, format!("tab {t}: stream {r} was closed but still runs on the server"));
        }
    }
}
