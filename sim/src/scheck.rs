//! Oracles over the history of a server-world run.
use crate::backend::plain;
use crate::log::Ev;
use crate::splan::*;
use crate::sworld::{budget_ms, is_flaky, History};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug)]
pub struct Violation {
    pub code: &'static str,
    pub props: BTreeSet<&'static str>,
    pub detail: String,
}

#[derive(Default)]
struct Ctx {
    leave: bool,
    malformed: bool,
    breakage: bool,
    stall: bool,
    flood: bool,
    cancel: bool,
    multi: bool,
}

#[derive(Default)]
struct St {
    new: u32,
    produced: Vec<(u64, bool, u64, usize)>, // idx, bad, time, log position
    end: Option<usize>,
    dropped: Option<(usize, u64)>,
    panicked: bool,
}

pub struct Checker<'a> {
    h: &'a History,
    pub out: Vec<Violation>,
    ctx: Ctx,
}

impl Checker<'_> {
    fn add(&mut self, code: &'static str, props: &[&'static str], detail: String) {
        self.out.push(Violation { code, props: props.iter().copied().collect(), detail });
    }
    /// harm done to a connection nothing happened to
    fn harm(&mut self, code: &'static str, base: &[&'static str], stream: bool, probe: bool, detail: String) {
        let mut p: Vec<&'static str> = base.to_vec();
        let c = &self.ctx;
        if c.leave {
            p.push("C07");
        }
        if c.malformed {
            p.push("C09");
        }
        if c.breakage {
            p.push("C10");
        }
        if c.stall {
            p.push("C11");
        }
        if c.flood {
            p.push("C04");
        }
        if c.multi && (c.cancel || c.malformed) {
            p.push("C06");
        }
        if stream && c.cancel {
            p.push("C05");
        }
        let d = if probe { format!("[newcomer after the faults] {detail}") } else { detail };
        self.add(code, &p, d);
    }
}

pub fn check(h: &History) -> Vec<Violation> {
    let mut ctx = Ctx { multi: h.n_scripted > 1, ..Default::default() };
    for s in &h.sess {
        if s.probe {
            continue;
        }
        ctx.leave |= s.leave != Leave::Stay;
        ctx.stall |= s.stalled;
        let mut ids = BTreeSet::new();
        for m in &s.sent {
            match m {
                Msg::Bad { .. } | Msg::Binary { .. } => ctx.malformed = true,
                Msg::Cancel { .. } => ctx.cancel = true,
                Msg::Call { method, .. } | Msg::Stream { method, .. } => {
                    ctx.breakage |= matches!(method.as_str(), "brittle" | "boom" | "dud" | "flaky" | "bomb");
                    ctx.flood |= matches!(method.as_str(), "flood" | "tick" | "slow" | "burst");
                    if let Msg::Stream { id, .. } = m {
                        ctx.cancel |= !ids.insert(*id);
                    }
                }
                _ => {}
            }
        }
    }
    ctx.stall |= h.plan.sessions.iter().any(|s| s.net.frag > 0 || s.net.window < 1000);
    let mut c = Checker { h, out: vec![], ctx };
    c.run();
    c.out
}

impl Checker<'_> {
    fn run(&mut self) {
        let h = self.h;
        let leaving = h.marks["leaving"];
        let t_leaving = h.log[leaving].t;
        let mut owner: HashMap<u64, (usize, usize)> = HashMap::new();
        for (si, s) in h.sess.iter().enumerate() {
            for (k, m) in s.sent.iter().enumerate() {
                if m.tag() != 0 {
                    owner.insert(m.tag(), (si, k));
                }
            }
        }
        // ---- executions
        let mut execs: HashMap<u64, u32> = HashMap::new();
        let mut results: HashMap<u64, Value> = HashMap::new();
        let mut dropped_bodies: BTreeSet<u64> = BTreeSet::new();
        let mut open: Vec<(u64, &'static str)> = vec![];
        let mut exec_order: HashMap<usize, Vec<usize>> = HashMap::new();
        let mut streams: BTreeMap<u64, St> = BTreeMap::new();
        let mut sums: BTreeMap<&str, i64> = BTreeMap::new();
        let mut pings = 0u64;
        let mut ns_dropped = 0;
        let mut down: HashMap<usize, (usize, String)> = HashMap::new();
        let mut got: BTreeMap<usize, Vec<(usize, u64, &Value, bool)>> = BTreeMap::new();
        for (pos, r) in h.log.iter().enumerate() {
            match &r.ev {
                Ev::ExecStart { tag, what, .. } => {
                    if let Some((other, w)) = open.last() {
                        self.add("overlap", &["C02"], format!("{what}({tag}) started while {w}({other}) was still running, t={}", r.t));
                    }
                    open.push((*tag, what));
                    if *tag != 0 {
                        *execs.entry(*tag).or_default() += 1;
                        match owner.get(tag) {
                            Some((si, k)) => {
                                exec_order.entry(*si).or_default().push(*k);
                                match &h.sess[*si].sent[*k] {
                                    Msg::Call { .. } => {}
                                    m => self.add("executed_invalid", &["C09", "C01"], format!("{what} ran for a message that is no valid call: {m:?}")),
                                }
                            }
                            None => self.add("exec_unasked", &["C01"], format!("{what} ran with tag {tag}, which nobody sent")),
                        }
                    }
                }
                Ev::ExecEnd { tag, val, .. } => {
                    let what = open.iter().rposition(|(t, _)| t == tag).map(|i| open.remove(i).1).unwrap_or("?");
                    if *tag != 0 {
                        results.insert(*tag, val.clone());
                    } else if what == "Alpha.ping" {
                        pings += 1;
                        if val != &json!(pings) {
                            self.add("wrong_state", &["C02"], format!("ping number {pings} returned {val}"));
                        }
                    }
                    if let Some((si, k)) = owner.get(tag) {
                        if let Msg::Call { method, ns, args, .. } = &h.sess[*si].sent[*k] {
                            let n = args[1].as_i64().unwrap_or(0);
                            let want = match (ns.as_str(), method.as_str()) {
                                ("Alpha" | "Beta", "add" | "slow") => {
                                    let s = sums.entry(if ns == "Alpha" { "a" } else { "b" }).or_default();
                                    *s += n;
                                    let w = *s;
                                    // follow what was really stored, to report each lost update once
                                    *s = val[1].as_i64().unwrap_or(w);
                                    Some((json!([tag, w]), "C02"))
                                }
                                ("Gam_ma", "add") => Some((json!([tag, 1_000_000 + n]), "C01")),
                                ("Alpha", "echo" | "mix") | ("Odd", _) => Some((args.clone(), "C01")),
                                _ => None,
                            };
                            if let Some((w, p)) = want {
                                if &w != val {
                                    let props: &[&'static str] = if p == "C02" { &["C02"] } else { &["C01", "C11", "C19"] };
                                    self.add("wrong_result", props, format!("{ns}.{method}{} gave {} instead of {}", cut(args), cut(val), cut(&w)));
                                }
                            }
                        }
                    }
                }
                Ev::ExecDropped { tag, .. } => {
                    if let Some(i) = open.iter().rposition(|(t, _)| t == tag) {
                        open.remove(i);
                    }
                    dropped_bodies.insert(*tag);
                }
                Ev::StreamNew { tag, .. } => {
                    let st = streams.entry(*tag).or_default();
                    st.new += 1;
                    if st.new > 1 {
                        self.add("stream_twice", &["C03", "C01"], format!("stream {tag} was started {} times", st.new));
                    }
                    match owner.get(tag) {
                        Some((si, k)) if matches!(h.sess[*si].sent[*k], Msg::Stream { .. }) => {
                            exec_order.entry(*si).or_default().push(*k)
                        }
                        Some((si, k)) => {
                            let m = format!("{:?}", h.sess[*si].sent[*k]);
                            self.add("executed_invalid", &["C09"], format!("a stream was started for {m}"))
                        }
                        None => self.add("exec_unasked", &["C01", "C03"], format!("stream {tag} was started, which nobody asked for")),
                    }
                }
                Ev::Item { tag, idx, bad } => streams.entry(*tag).or_default().produced.push((*idx, *bad, r.t, pos)),
                Ev::StreamEnd { tag } => streams.entry(*tag).or_default().end = Some(pos),
                Ev::StreamPanic { tag } => streams.entry(*tag).or_default().panicked = true,
                Ev::StreamDrop { tag } => streams.entry(*tag).or_default().dropped = Some((pos, r.t)),
                Ev::Starved { tag } => self.add("starved", &["C04", "C05"], format!("stream {tag} delivered thousands of items in one go without letting anything else run, t={}", r.t)),
                Ev::NsDrop { .. } => ns_dropped += 1,
                Ev::Down { s, how } => {
                    down.entry(*s).or_insert((pos, how.clone()));
                }
                Ev::Got { s, msg, raw_bad } => got.entry(*s).or_default().push((pos, r.t, msg, *raw_bad)),
                Ev::Note(n) if n.starts_with("RETAINED") => self.add("retained", &["C21"], format!("{n}, t={}", r.t)),
                Ev::Note(n) if n.starts_with("SOAK-LEAK") => self.add("soak_leak", &["C08", "C05", "C21"], n.clone()),
                _ => {}
            }
        }
        for (tag, n) in &execs {
            if *n > 1 {
                self.add("dup_exec", &["C01"], format!("call {tag} was executed {n} times"));
            }
        }
        for (si, ks) in &exec_order {
            if let Some(w) = ks.windows(2).find(|w| w[0] > w[1]) {
                self.add("exec_order", &["C02"], format!("session {si}: message #{} ran before message #{}", w[0], w[1]));
            }
        }
        if h.scripts_stuck {
            self.harm("stuck", &["C01", "C04"], false, false, "the run did not come to an end in bounded time".into());
        }
        if let Some((a, b, n)) = h.soak {
            let grown = b - a;
            if grown > 8192 + 32 * 2 * n as i64 {
                self.add("soak_growth", &["C21"], format!("{} further finished streams on one connection left {grown} bytes behind ({a} -> {b})", 2 * n));
            }
        }
        if let Some((a, b, n)) = h.churn {
            let grown = b - a;
            // (a few dozen bytes are the harness's own)
            if grown > 1024 + 2 * n as i64 {
                self.add("churn_growth", &["C22"], format!("{} further connections that have come and gone left {grown} bytes behind ({a} -> {b})", 2 * n));
            }
        }
        let empty = vec![];
        let budget = budget_ms(&h.plan);
        for (si, s) in h.sess.iter().enumerate() {
            let stay = s.leave == Leave::Stay;
            let lost = down.get(&si).filter(|(p, _)| *p < leaving);
            if stay {
                if let Some((p, how)) = lost {
                    let t = h.log[*p].t;
                    self.harm("conn_lost", &["C01"], true, s.probe, format!("session {si}: the server ended a healthy connection ({how}), t={t}"));
                } else if !s.up {
                    self.harm("not_served", &["C01"], true, s.probe, format!("session {si} could not connect"));
                }
            }
            let healthy = stay && lost.is_none() && s.up;
            let gots = got.get(&si).unwrap_or(&empty);
            // ---- how each stream of this session was ended by the client
            let mut running: BTreeMap<u64, u64> = BTreeMap::new();
            let mut ended: BTreeMap<u64, usize> = BTreeMap::new();
            for (k, m) in s.sent.iter().enumerate() {
                match m {
                    Msg::Stream { id, tag, .. } => {
                        if let Some(old) = running.insert(*id, *tag) {
                            ended.insert(old, k);
                        }
                    }
                    Msg::Cancel { id } => {
                        if let Some(old) = running.remove(id) {
                            ended.insert(old, k);
                        }
                    }
                    _ => {}
                }
            }
            let flaky_ids: BTreeMap<u64, u64> =
                s.sent.iter().filter(|m| is_flaky(m)).filter_map(|m| if let Msg::Stream { id, tag, .. } = m { Some((*id, *tag)) } else { None }).collect();
            let same_ids: BTreeMap<u64, (u64, u64)> = s
                .sent
                .iter()
                .filter_map(|m| match m {
                    Msg::Stream { id, tag, method, args, .. } if method == "same" => Some((*id, (*tag, args[3].as_u64().unwrap_or(0)))),
                    _ => None,
                })
                .collect();
            let fails = |m: &Msg| match m {
                Msg::Call { method, args, .. } => matches!(method.as_str(), "boom" | "dud") || (method == "brittle" && args[1] == json!(true)),
                _ => false,
            };
            let want = |m: &Msg| match m {
                Msg::Bad { id, .. } => Some(*id),
                Msg::Call { id, .. } if fails(m) => Some(Some(*id)),
                _ => None,
            };
            let mut calls_by_id: HashMap<u64, Vec<usize>> = HashMap::new();
            let mut errs_by_id: HashMap<Option<u64>, Vec<usize>> = HashMap::new();
            for (k, m) in s.sent.iter().enumerate() {
                if let Msg::Call { id, .. } = m {
                    calls_by_id.entry(*id).or_default().push(k);
                }
                if let Some(id) = want(m) {
                    errs_by_id.entry(id).or_default().push(k);
                }
            }
            // ---- replies
            let mut matched: Vec<Option<usize>> = vec![None; s.sent.len()]; // position in gots
            let mut last: Option<usize> = None;
            let mut rec: BTreeMap<u64, Vec<(u64, bool, usize)>> = BTreeMap::new(); // tag -> idx, bad, position in gots
            for (gp, (_, t, msg, raw_bad)) in gots.iter().enumerate() {
                let mut hit: Option<usize> = None;
                if *raw_bad {
                    self.add("garbage", &["C01", "C09", "C11", "C03"], format!("session {si} received something that is no reply: {}", cut(msg)));
                    continue;
                }
                if let Some(m) = msg.get("method") {
                    let id = m["id"].as_u64();
                    let data = &m["data"];
                    let by_id: &[usize] = id.and_then(|i| calls_by_id.get(&i)).map_or(&[], |v| v);
                    let free = by_id.iter().copied().find(|k| matched[*k].is_none());
                    let dtag = data[0].as_u64().filter(|_| data.is_array());
                    let foreign = dtag.and_then(|t| owner.get(&t)).filter(|(o, _)| *o != si);
                    match free {
                        None => {
                            if let Some((o, _)) = foreign {
                                self.add("foreign_reply", &["C06", "C01"], format!("session {si} received a reply that belongs to session {o}: {}", cut(msg)));
                            } else if !by_id.is_empty() {
                                self.add("dup_reply", &["C01"], format!("session {si} received more than one reply for id {id:?}: {}, t={t}", cut(msg)));
                            } else {
                                self.add("unasked_reply", &["C01"], format!("session {si} received a reply nobody asked for: {}", cut(msg)));
                            }
                        }
                        Some(k) => {
                            matched[k] = Some(gp);
                            hit = Some(k);
                            if let Msg::Call { tag, method, args, .. } = &s.sent[k] {
                                let fails = matches!(method.as_str(), "boom" | "dud") || (method == "brittle" && args[1] == json!(true));
                                if fails {
                                    self.add("failed_call_answered", &["C10"], format!("session {si}: {method}{args} was answered with a value: {}", cut(msg)));
                                } else if method == "ping" {
                                    if data.as_u64().is_none_or(|d| d > pings) {
                                        self.add("wrong_value", &["C01"], format!("session {si}: ping was answered {}", cut(msg)));
                                    }
                                } else {
                                    match results.get(tag) {
                                        Some(v) if v == data => {}
                                        Some(v) => {
                                            if let Some((o, _)) = foreign {
                                                self.add("foreign_reply", &["C06", "C01"], format!("session {si} received the reply of session {o}: {}", cut(msg)));
                                            } else {
                                                self.add("wrong_value", &["C01", "C11"], format!("session {si}: call {tag} ({method}) returned {} but was answered {}", cut(v), cut(data)));
                                            }
                                        }
                                        None => self.add("reply_without_exec", &["C01"], format!("session {si}: call {tag} ({method}) was answered without having been completed: {}", cut(msg))),
                                    }
                                }
                            }
                        }
                    }
                } else if let Some(e) = msg.get("error") {
                    let id = e["id"].as_u64();
                    if let Some(tag) = id.and_then(|i| flaky_ids.get(&i)) {
                        let v = rec.entry(*tag).or_default();
                        let idx = v.len() as u64;
                        v.push((idx, true, gp));
                    } else {
                        let k = errs_by_id.get(&id).and_then(|v| v.iter().copied().find(|k| matched[*k].is_none()));
                        match k {
                            Some(k) => {
                                matched[k] = Some(gp);
                                hit = Some(k);
                            }
                            None => {
                                let open_call = (0..s.sent.len()).find(|k| matched[*k].is_none() && matches!(&s.sent[*k], Msg::Call { id: i, .. } if Some(*i) == id));
                                let open_bad = (0..s.sent.len()).find(|k| matched[*k].is_none() && want(&s.sent[*k]).is_some());
                                if let (Some(k), Some(_)) = (open_call, id) {
                                    matched[k] = Some(gp);
                                    hit = Some(k);
                                    let d = format!("session {si}: valid call {:?} was answered by an error: {}", cut(&json!(format!("{:?}", s.sent[k]))), cut(msg));
                                    self.harm("wrong_error", &["C01", "C19"], false, s.probe, d);
                                } else if let Some(k) = open_bad {
                                    matched[k] = Some(gp);
                                    hit = Some(k);
                                    let m = format!("{:?}", s.sent[k]);
                                    let p: &[&'static str] = if fails(&s.sent[k]) { &["C10"] } else { &["C09"] };
                                    self.add("error_id", p, format!("session {si}: error reply {} does not carry the id of {m}", cut(msg)));
                                } else if id.is_some() && s.sent.iter().any(|m| matches!(m, Msg::Cancel { id: i } if Some(*i) == id)) {
                                    self.add("cancel_reply", &["C05", "C01"], format!("session {si}: a cancel was answered: {}", cut(msg)));
                                } else if id.is_some() && s.sent.iter().any(|m| matches!(m, Msg::Stream { id: i, .. } if Some(*i) == id)) {
                                    self.harm("stream_error", &["C03", "C01"], true, s.probe, format!("session {si}: a healthy stream request was answered by an error: {}", cut(msg)));
                                } else {
                                    self.add("unasked_error", &["C01", "C09"], format!("session {si} received an error nobody caused: {}, t={t}", cut(msg)));
                                }
                            }
                        }
                    }
                } else if let Some(m) = msg.get("stream") {
                    let id = m["id"].as_u64();
                    if let Some((tag, kind)) = id.and_then(|i| same_ids.get(&i)) {
                        let v = rec.entry(*tag).or_default();
                        let idx = v.len() as u64;
                        let want = plain(*kind, idx);
                        if m.get("data") != Some(&want) {
                            let n = v.len();
                            self.add("item_sequence", &["C03"], format!("session {si}: item no. {n} of stream {tag} (same) should be {want} but was {}", cut(msg)));
                        }
                        v.push((idx, false, gp));
                        continue;
                    }
                    let (tag, idx) = (m["data"][0].as_u64(), m["data"][1].as_u64());
                    match (tag.and_then(|t| owner.get(&t).map(|o| (t, *o))), idx) {
                        (Some((tag, (o, k))), Some(idx)) => {
                            if o != si {
                                self.add("foreign_item", &["C06", "C03"], format!("session {si} received an item of session {o}: {}", cut(msg)));
                            } else {
                                match &s.sent[k] {
                                    Msg::Stream { id: i, .. } if Some(*i) == id => {}
                                    m => self.add("item_id", &["C03"], format!("session {si}: item {} carries the wrong id for {m:?}", cut(msg))),
                                }
                                rec.entry(tag).or_default().push((idx, false, gp));
                            }
                        }
                        _ => self.add("unknown_item", &["C03", "C01"], format!("session {si} received an item of no stream it started: {}", cut(msg))),
                    }
                } else {
                    self.add("garbage", &["C01", "C09", "C11", "C03"], format!("session {si} received something that is no reply: {}", cut(msg)));
                }
                if let Some(k) = hit {
                    if last.is_some_and(|l| l > k) {
                        let p: &[&'static str] = if matches!(s.sent[k], Msg::Bad { .. }) || matches!(s.sent[last.unwrap()], Msg::Bad { .. }) { &["C02", "C09"] } else { &["C02"] };
                        self.add("reply_order", p, format!("session {si}: message #{k} was answered after message #{}", last.unwrap()));
                    }
                    last = Some(last.map_or(k, |l| l.max(k)));
                    if healthy && !s.stalled {
                        let took = t.saturating_sub(s.sent_at[k]);
                        // what is queued in front of a reply on a narrow link takes its time
                        let backlog = gp as u64;
                        let net = h.plan.sessions.get(si).map(|p| p.net).unwrap_or_default();
                        let drain = backlog * 130 * (2 * net.lat_max + 1) / net.window.max(1) as u64;
                        if took > budget + drain {
                            self.harm("late", &["C04"], false, s.probe, format!("session {si}: message #{k} was answered after {took} ms (bound {budget} ms)"));
                        }
                    }
                }
            }
            if healthy {
                for (k, m) in s.sent.iter().enumerate() {
                    if !m.expects_reply() || matched[k].is_some() {
                        continue;
                    }
                    let d = format!("session {si}: no reply to message #{k} {}", cut(&json!(m.text())));
                    match m {
                        Msg::Bad { .. } => self.harm("missing_error", &["C09"], false, s.probe, d),
                        Msg::Call { method, args, .. } if matches!(method.as_str(), "boom" | "dud") || (method == "brittle" && args[1] == json!(true)) => {
                            self.harm("missing_error", &["C10"], false, s.probe, d)
                        }
                        _ => self.harm("missing_reply", &["C01"], false, s.probe, d),
                    }
                }
            }
            // ---- streams
            for (k, m) in s.sent.iter().enumerate() {
                let Msg::Stream { tag, method, args, .. } = m else { continue };
                let st = streams.get(tag);
                let none = vec![];
                let r = rec.get(tag).unwrap_or(&none);
                let produced: &[(u64, bool, u64, usize)] = st.map(|s| &s.produced[..]).unwrap_or(&[]);
                let end_at = ended.get(tag).copied();
                // gap-free prefix, in order, each once
                for (i, (idx, bad, _)) in r.iter().enumerate() {
                    match produced.get(i) {
                        Some((pi, pb, ..)) if (*bad && *pb) || (!*bad && !*pb && pi == idx) => {}
                        other => {
                            let p: &[&'static str] = if is_flaky(m) { &["C03", "C10"] } else { &["C03"] };
                            let mut p = p.to_vec();
                            if h.plan.sessions.get(si).is_some_and(|x| x.net.frag > 0) || s.stalled {
                                p.push("C11");
                            }
                            self.add("item_sequence", &p, format!("session {si}: item no. {i} of stream {tag} ({method}{args}) is {} but {:?} was produced", if *bad { "an error".to_string() } else { idx.to_string() }, other.map(|o| (o.0, o.1))));
                            break;
                        }
                    }
                }
                if healthy {
                    if end_at.is_none() {
                        if st.is_none() {
                            self.harm("stream_missing", &["C03", "C01"], true, s.probe, format!("session {si}: stream {tag} ({method}) was never started"));
                            continue;
                        }
                        let st = st.unwrap();
                        let due = produced.iter().filter(|p| p.3 < leaving && p.2 + 500 <= t_leaving).count();
                        if r.len() < due {
                            self.harm("items_missing", &["C03"], true, s.probe, format!("session {si}: {} of {due} items of stream {tag} ({method}{args}) arrived", r.len()));
                        }
                        let want = match method.as_str() {
                            "count" | "subscribe" | "burst" | "flood" | "flaky" | "same" => args[1].as_u64(),
                            "bomb" => args[1].as_u64(),
                            _ => None,
                        };
                        if let Some(w) = want {
                            let starved = self.out.iter().any(|v| v.code == "starved");
                            if (produced.len() as u64) < w && !starved {
                                self.harm("stream_incomplete", &["C03"], true, s.probe, format!("session {si}: stream {tag} ({method}{args}) produced only {} items", produced.len()));
                            }
                        }
                        let natural = st.end.is_some() || st.panicked;
                        if let Some((p, t)) = st.dropped {
                            if p < leaving && !natural {
                                self.harm("stream_killed", &["C03"], true, s.probe, format!("session {si}: stream {tag} ({method}) was dropped at t={t} although nobody ended it"));
                            }
                        } else if natural && method != "bomb" {
                            self.add("finished_not_dropped", &["C08", "C21"], format!("session {si}: stream {tag} ({method}) ended but was never dropped"));
                        }
                    } else {
                        let k_end = end_at.unwrap();
                        // items after a later request was answered
                        let barrier = (k_end + 1..s.sent.len()).filter_map(|j| matched[j]).min();
                        if let Some(b) = barrier {
                            if let Some((idx, ..)) = r.iter().find(|(_, _, gp)| *gp > b) {
                                self.add("item_after_cancel", &["C05"], format!("session {si}: item {idx} of stream {tag} ({method}) arrived after a request sent after its cancel (message #{k_end}) had been answered"));
                            }
                        }
                        if matches!(&s.sent[k_end], Msg::Stream { .. }) {
                            // the stream that took over the id has already spoken
                            let new_tag = s.sent[k_end].tag();
                            if let (Some(first), Some(lastp)) = (rec.get(&new_tag).and_then(|v| v.first()), r.last()) {
                                if lastp.2 > first.2 {
                                    self.add("item_after_replace", &["C05"], format!("session {si}: stream {tag} still delivered after stream {new_tag} had taken over its id"));
                                }
                            }
                        }
                        // items produced before it was ended must not be lost (prefix is checked above)
                        let by = if s.sent.len() > 0 && k_end < s.sent.len() { h.marks["probed"] } else { leaving };
                        if let Some(st) = st {
                            if st.new > 0 && st.dropped.is_none_or(|(p, _)| p > by) {
                                self.add("cancelled_not_dropped", &["C05"], format!("session {si}: stream {tag} ({method}) was still there after it had been cancelled or replaced by message #{k_end}"));
                            }
                        }
                    }
                    // regular delivery, whatever else goes on
                    if method == "tick" && produced.len() > 1 {
                        let gap = args[1].as_u64().unwrap_or(0);
                        let mut worst = 0;
                        for w in produced.windows(2) {
                            worst = worst.max(w[1].2 - w[0].2);
                        }
                        let until = st.and_then(|s| s.dropped).map(|d| d.1).unwrap_or(t_leaving).min(t_leaving);
                        worst = worst.max(until.saturating_sub(produced.last().unwrap().2));
                        if worst > gap + 1500 {
                            self.harm("stream_held_up", &["C04"], true, s.probe, format!("session {si}: stream {tag} (every {gap} ms) paused for {worst} ms"));
                        }
                    }
                } else if s.leave != Leave::Stay {
                    if let Some(st) = st {
                        if st.new > 0 && st.dropped.is_none_or(|(p, _)| p > leaving) {
                            self.add("leak_after_disconnect", &["C08"], format!("session {si} left ({:?}) but its stream {tag} ({method}, message #{k}) was not dropped", s.leave));
                        }
                    }
                }
            }
            for tag in &dropped_bodies {
                if let Some((o, k)) = owner.get(tag) {
                    if *o == si && healthy {
                        if let Msg::Call { method, .. } = &s.sent[*k] {
                            if !matches!(method.as_str(), "boom" | "dud") {
                                self.add("body_dropped", &["C01", "C07"], format!("session {si}: call {tag} ({method}) was dropped half-way"));
                            }
                        }
                    }
                }
            }
        }
        // ---- the end
        let left = h.marks["left"];
        for (tag, st) in &streams {
            if *tag >= 1_000_000 {
                continue;
            }
            let gone_by = if h.plan.server_first { h.marks["stopped"] } else { left };
            if st.new > 0 && st.dropped.is_none_or(|(p, _)| p > gone_by) {
                let already = self.out.iter().any(|v| v.code == "leak_after_disconnect" && v.detail.contains(&format!("stream {tag} ")));
                if !already {
                    self.add("leak_at_end", &["C08"], format!("stream {tag} was not dropped although every connection is gone"));
                }
            }
        }
        if ns_dropped < 3 {
            self.add("backend_not_dropped", &["C08"], format!("all handles are gone but {} of 3 namespaces were not dropped", 3 - ns_dropped));
        }
    }
}

pub fn cut(v: &Value) -> String {
    let s = v.to_string();
    if s.len() <= 160 {
        return s;
    }
    let mut e = 160;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

/// How often the premise of each property occurred in this run (and was therefore judged).
pub fn exercised(h: &History) -> BTreeMap<&'static str, u64> {
    let mut n: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut add = |p: &'static str, k: u64| {
        if k > 0 {
            *n.entry(p).or_default() += k;
        }
    };
    let mut execs = 0;
    let mut items: HashMap<u64, u64> = HashMap::new();
    for r in &h.log {
        match &r.ev {
            Ev::ExecStart { .. } => execs += 1,
            Ev::Item { tag, .. } => *items.entry(*tag).or_default() += 1,
            _ => {}
        }
    }
    add("C01", execs);
    let mut id_owner: BTreeMap<u64, BTreeSet<usize>> = BTreeMap::new();
    for (si, s) in h.sess.iter().enumerate() {
        if s.probe {
            continue;
        }
        let mut running: BTreeSet<u64> = BTreeSet::new();
        let (mut calls, mut streams, mut fed, mut ended, mut bad, mut broken, mut noisy) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
        for m in &s.sent {
            match m {
                Msg::Call { id, method, args, .. } => {
                    calls += 1;
                    id_owner.entry(*id).or_default().insert(si);
                    if matches!(method.as_str(), "boom" | "dud") || (method == "brittle" && args[1] == json!(true)) {
                        broken += 1;
                    }
                }
                Msg::Stream { id, tag, method, .. } => {
                    streams += 1;
                    id_owner.entry(*id).or_default().insert(si);
                    fed += (items.get(tag).copied().unwrap_or(0) > 0) as u64;
                    if !running.insert(*id) {
                        ended += 1;
                    }
                    noisy += matches!(method.as_str(), "flood" | "tick" | "burst") as u64;
                    broken += matches!(method.as_str(), "flaky" | "bomb") as u64;
                }
                Msg::Cancel { id } => {
                    ended += 1;
                    running.remove(id);
                }
                Msg::Bad { .. } | Msg::Binary { .. } => bad += 1,
                Msg::Control { .. } => {}
            }
        }
        add("C02", calls.saturating_sub(1));
        add("C03", fed);
        add("C04", if noisy > 0 { calls + noisy } else { 0 });
        add("C05", ended);
        add("C07", (s.leave != Leave::Stay) as u64);
        add("C08", streams);
        add("C09", bad);
        add("C10", broken);
        let net = h.plan.sessions[si].net;
        add("C22", (s.leave != Leave::Stay) as u64 + if h.plan.churn > 0 { 3 * h.plan.churn as u64 } else { 0 });
        add("C11", (s.stalled || net.frag > 0 || net.window < 1000) as u64);
        add("C21", streams.saturating_sub(1) + if h.plan.soak > 0 { 1 } else { 0 });
    }
    add("C06", id_owner.values().filter(|o| o.len() > 1).count() as u64);
    n
}
