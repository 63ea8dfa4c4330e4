//! The client world: generated clients in simulated browser tabs, over simulated sockets, against
//! the real server or a scripted one.
use crate::backend;
use crate::backend::plain;
use crate::cplan::*;
use crate::jsh;
use crate::log::{self, Ev, Rec};
use crate::net::{self, Link, SimIo};
use crate::rt;
use crate::sworld::{axum_router, serve_conn};
use crate::ws;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::{mpsc, Notify};
use zod::rpc::Backend;

/// more connection attempts than any plan can explain
const RUNAWAY: usize = 700;
/// generation number of the scripted server's executions
pub const MODEL_GEN: u32 = 1000;

enum Cmd {
    Send(String),
    Close,
}

struct Queued {
    src: u32,
    ev: Value,
}

struct TabRt {
    id: usize,
    plan: TabPlan,
    q: Mutex<VecDeque<Queued>>,
    notify: Notify,
    socks: Mutex<HashMap<usize, mpsc::UnboundedSender<Cmd>>>,
    done: Mutex<Vec<u64>>,
    t0: u64,
    /// how often the wall clock has been set
    jumps: AtomicUsize,
}
type T = Arc<TabRt>;

struct Wld {
    refuse: bool,
    router: Option<axum::Router>,
    model: Option<ModelCfg>,
    gen: u32,
    up: bool,
    /// cut on restart
    conns: Vec<Arc<Cs>>,
    quiet: bool,
    counter: u64,
}
type W = Arc<Mutex<Wld>>;

/// one connection as seen by the wire
struct Cs {
    tab: T,
    s: usize,
    plan: ConnPlan,
    w: W,
    st: Mutex<CsSt>,
    link: Mutex<Option<Link>>,
    gone: Notify,
}
#[derive(Default)]
struct CsSt {
    ended: bool,
    dead: bool,
    up: bool,
    /// why the server closes
    code: Option<u32>,
    inn: u32,
    out: u32,
}

impl TabRt {
    fn push(&self, src: u32, ev: Value) {
        self.q.lock().unwrap().push_back(Queued { src, ev });
        self.notify.notify_one();
    }
}

impl Cs {
    fn ended(&self) -> bool {
        self.st.lock().unwrap().ended
    }
    /// the tab learns that the connection is over
    fn finish(self: &Arc<Self>, err: bool) {
        {
            let mut g = self.st.lock().unwrap();
            if g.ended {
                return;
            }
            g.ended = true;
            g.dead = true;
        }
        self.gone.notify_waiters();
        let me = self.clone();
        let (up, code) = {
            let g = self.st.lock().unwrap();
            (g.up, g.code)
        };
        let mut ev = json!({"k": "close", "s": self.s, "err": err});
        if let (Some(code), false) = (code, err) {
            ev["code"] = json!(code);
        }
        // browsers report the loss of an open connection without an error event, too
        if err && up && rt::choose("silent-loss", 4) == 3 {
            ev["silent"] = json!(true);
            rt::fault("loss-without-error-event");
        }
        // a slow closing handshake is no fault
        let fair = rt::is_fair();
        let lag = if fair { self.plan.lag.min(150) } else { self.plan.lag };
        if lag == 0 {
            self.tab.push(self.s as u32, ev);
        } else {
            rt::fault("late-close-event");
            tokio::spawn(async move {
                if fair {
                    rt::sleep_ms(lag).await;
                } else {
                    nap(lag).await;
                }
                me.tab.push(me.s as u32, ev);
            });
        }
    }
    fn reset_link(&self) {
        if let Some(l) = &*self.link.lock().unwrap() {
            l.reset();
        }
    }
    fn cut(self: &Arc<Self>, how: How) {
        if rt::is_fair() || self.ended() {
            return;
        }
        match how {
            How::Rst => {
                rt::fault("connection-reset");
                self.st.lock().unwrap().dead = true;
                self.reset_link();
                self.finish(true);
            }
            How::Vanish(ms) => {
                {
                    let mut g = self.st.lock().unwrap();
                    if g.dead {
                        return;
                    }
                    g.dead = true;
                }
                rt::fault("connection-blackholed");
                if let Some(l) = &*self.link.lock().unwrap() {
                    l.vanish();
                }
                let me = self.clone();
                tokio::spawn(async move {
                    nap(ms).await;
                    me.reset_link();
                    me.finish(true);
                });
            }
            How::Goaway => {
                rt::fault("server-closes-connection");
                self.tab.push(self.s as u32, json!({"k": "closing", "s": self.s}));
                {
                    let mut g = self.st.lock().unwrap();
                    g.dead = true;
                    g.code = Some([1000, 1001, 1005, 1011, 1012, 1013, 1008, 4000][rt::choose("close-code", 8)]);
                }
                self.finish(false);
                self.reset_link();
            }
        }
    }
    /// a text message has arrived at the tab
    fn text(self: &Arc<Self>, t: &str) {
        {
            let mut g = self.st.lock().unwrap();
            if g.dead {
                return;
            }
            g.inn += 1;
        }
        if let Some((After::In(k), how)) = self.plan.cut {
            if !rt::is_fair() && self.st.lock().unwrap().inn > k {
                return self.cut(how);
            }
        }
        self.tab.push(self.s as u32, json!({"k": "message", "s": self.s, "x": t}));
    }
    /// a message leaves the tab; false: it does not get out
    fn leaving(self: &Arc<Self>) -> bool {
        {
            let mut g = self.st.lock().unwrap();
            if g.dead {
                return false;
            }
            g.out += 1;
        }
        if let Some((After::Out(k), how)) = self.plan.cut {
            if !rt::is_fair() && self.st.lock().unwrap().out > k {
                self.cut(how);
                return false;
            }
        }
        true
    }
    fn opened(self: &Arc<Self>) {
        {
            let mut g = self.st.lock().unwrap();
            if g.dead {
                return;
            }
            g.up = true;
        }
        self.tab.push(self.s as u32, json!({"k": "open", "s": self.s}));
        if let Some((After::Ms(ms), how)) = self.plan.cut {
            let me = self.clone();
            tokio::spawn(async move {
                nap(ms).await;
                me.cut(how);
            });
        }
    }
}

/// sleeps, but no longer than until the faults stop
async fn nap(ms: u64) {
    let end = rt::now_ms() + ms;
    while rt::now_ms() < end && !rt::is_fair() {
        rt::sleep_ms((end - rt::now_ms()).min(100)).await;
    }
}

async fn connection(w: W, tab: T, s: usize, mut rx: mpsc::UnboundedReceiver<Cmd>, plan: ConnPlan) {
    let cs = Arc::new(Cs { tab: tab.clone(), s, plan, w: w.clone(), st: Mutex::default(), link: Mutex::new(None), gone: Notify::new() });
    let delay = if rt::is_fair() { 0 } else { plan.delay };
    if delay > 0 {
        rt::fault("slow-connect");
        tokio::select! {
            biased;
            _ = rx.recv() => return cs.finish(true),
            _ = nap(delay) => {}
        }
    }
    let (down, model, router) = {
        let mut g = w.lock().unwrap();
        let down = (plan.refuse && !rt::is_fair()) || g.refuse || !g.up;
        if !down {
            g.conns.push(cs.clone());
        }
        (down, g.model, g.router.clone())
    };
    if down {
        rt::fault("connection-refused");
        return cs.finish(true);
    }
    match model {
        Some(m) => model_conn(cs, rx, m).await,
        None => real_conn(cs, rx, router.unwrap()).await,
    }
}

// ----------------------------------------------------------------------------------- real server

async fn real_conn(cs: Arc<Cs>, mut rx: mpsc::UnboundedReceiver<Cmd>, router: axum::Router) {
    let (c, srv, link) = net::connect(cs.tab.plan.net);
    serve_conn(router, srv);
    *cs.link.lock().unwrap() = Some(link);
    let SimIo { mut rd, mut wr } = c;
    let _ = wr.write_all(ws::HANDSHAKE.as_bytes()).await;
    let r = cs.clone();
    let reader = tokio::spawn(async move {
        let mut parser = ws::Parser::default();
        let mut buf = vec![0u8; 16 * 1024];
        let mut out = vec![];
        let mut up = false;
        loop {
            let n = match rd.read(&mut buf).await {
                Ok(n) if n > 0 => n,
                _ => return r.finish(true),
            };
            parser.feed(&buf[..n], &mut out);
            if let Some(code) = parser.status {
                if code != 101 {
                    return r.finish(true);
                }
                if !up {
                    up = true;
                    r.opened();
                }
            }
            for m in out.drain(..) {
                match m {
                    ws::In::Text(t) => r.text(&t),
                    ws::In::Close => {
                        r.tab.push(r.s as u32, json!({"k": "closing", "s": r.s}));
                        return r.finish(false);
                    }
                    ws::In::Bad(b) => {
                        log::note(format!("bad frame {b}"));
                        return r.finish(true);
                    }
                    _ => {}
                }
            }
        }
    });
    loop {
        let gone = cs.gone.notified();
        if cs.ended() {
            break;
        }
        let cmd = tokio::select! {
            biased;
            _ = gone => break,
            c = rx.recv() => c,
        };
        match cmd {
            Some(Cmd::Send(t)) => {
                if cs.leaving() && wr.write_all(&ws::frame(ws::TEXT, true, t.as_bytes())).await.is_err() {
                    cs.finish(true);
                    break;
                }
            }
            Some(Cmd::Close) => {
                let up = cs.st.lock().unwrap().up;
                if !up {
                    // given up while opening
                    cs.reset_link();
                    cs.finish(true);
                    break;
                }
                let open = wr.write_all(&ws::frame(ws::CLOSE, true, &1000u16.to_be_bytes())).await.is_ok();
                let me = cs.clone();
                if open {
                    // the server answers with its own close frame, or the browser gives up waiting
                    tokio::spawn(async move {
                        rt::sleep_ms(3000).await;
                        me.finish(false);
                    });
                } else {
                    me.finish(true);
                }
            }
            None => break,
        }
    }
    // keep the halves until the other side has seen everything
    if !cs.ended() {
        let gone = cs.gone.notified();
        if !cs.ended() {
            let _ = tokio::time::timeout(std::time::Duration::from_millis(5000), gone).await;
        }
    }
    reader.abort();
    drop(wr);
}

// ----------------------------------------------------------------------------------- model server

async fn model_conn(cs: Arc<Cs>, mut rx: mpsc::UnboundedReceiver<Cmd>, m: ModelCfg) {
    let gen = MODEL_GEN + cs.w.lock().unwrap().gen;
    let lat = cs.tab.plan.net.lat_max;
    if lat > 0 {
        rt::sleep_ms(rt::choose("lat", lat as usize + 1) as u64).await;
    }
    cs.opened();
    let mut streams: BTreeMap<u64, tokio::task::JoinHandle<()>> = BTreeMap::new();
    loop {
        let gone = cs.gone.notified();
        if cs.ended() {
            break;
        }
        let cmd = tokio::select! {
            biased;
            _ = gone => break,
            c = rx.recv() => c,
        };
        match cmd {
            Some(Cmd::Send(t)) => {
                if !cs.leaving() {
                    continue;
                }
                if lat > 0 {
                    rt::sleep_ms(rt::choose("lat", lat as usize + 1) as u64).await;
                }
                model_request(&cs, gen, &t, m, &mut streams);
            }
            Some(Cmd::Close) => {
                cs.finish(false);
                break;
            }
            None => break,
        }
    }
    for (_, h) in streams {
        h.abort();
    }
}

struct Gone(u64);
impl Drop for Gone {
    fn drop(&mut self) {
        log::push(Ev::StreamDrop { tag: self.0 })
    }
}

/// the scripted server takes half characters as they come
pub fn whole(text: &str) -> String {
    text.replace("\\udead", HALF)
}

fn model_request(cs: &Arc<Cs>, gen: u32, text: &str, m: ModelCfg, streams: &mut BTreeMap<u64, tokio::task::JoinHandle<()>>) {
    let v: Value = serde_json::from_str(&whole(text)).unwrap_or(Value::Null);
    if let Some(id) = v["cancelStream"]["id"].as_u64() {
        if let Some(h) = streams.remove(&id) {
            h.abort();
        }
        return;
    }
    let e = &v["exec"];
    let Some(id) = e["id"].as_u64() else {
        log::note(format!("model: not a request: {text}"));
        cs.text(&json!({"error": {"id": null, "data": {"JsonError": "bad request"}}}).to_string());
        return;
    };
    let (ns, f) = (e["namespace"].as_str().unwrap_or(""), e["method"].as_str().unwrap_or(""));
    let args = &e["args"];
    let a = |i: usize| args[i].as_u64().unwrap_or(0);
    let tag = if matches!(f, "ping" | "beat") { 0 } else { a(0) };
    let stream = match f {
        "count" | "subscribe" | "same" => Some((a(1), a(2), true)),
        "beat" => Some((3, 5, true)),
        "never" => Some((0, 0, false)),
        "tick" => Some((u64::MAX, a(1).max(1), false)),
        _ => None,
    };
    let delay = |m: ModelCfg| if m.delay > 0 { rt::choose("reply-delay", m.delay as usize + 1) as u64 } else { 0 };
    if let Some((len, gap, ends)) = stream {
        log::push(Ev::StreamNew { gen, tag, kind: "model" });
        let cs = cs.clone();
        let gone = Gone(tag);
        let kind = (f == "same").then(|| a(3));
        let h = tokio::spawn(async move {
            let _g = gone;
            for idx in 0..len {
                if cs.ended() {
                    return;
                }
                log::push(Ev::Item { tag, idx, bad: false });
                let data = kind.map_or(json!([tag, idx]), |k| plain(k, idx));
                cs.text(&json!({"stream": {"id": id, "data": data}}).to_string());
                if m.stray > 0 && rt::choose("stray", 100) as u32 > 100 - m.stray {
                    rt::fault("stray-message");
                    cs.text(&json!({"stream": {"id": id + 7_000_000, "data": [tag, idx]}}).to_string());
                }
                rt::sleep_ms(gap.max(if idx % 4 == 3 { 1 } else { 0 })).await;
            }
            if ends {
                log::push(Ev::StreamEnd { tag });
            } else {
                std::future::pending::<()>().await;
            }
        });
        streams.insert(id, h);
        return;
    }
    log::push(Ev::ExecStart { gen, tag, what: "model" });
    let k = {
        let mut g = cs.w.lock().unwrap();
        g.counter += 1;
        g.counter
    };
    let fails = f == "boom" || (f == "brittle" && args[1] == json!(true));
    let val = match (ns, f) {
        (_, "silent") => Value::Null,
        (_, "echo" | "mix") | ("Odd", _) => args.clone(),
        (_, "raw") => plain(a(1), a(2)),
        (_, "ping") => json!(k + 1000),
        _ => json!([tag, k]),
    };
    log::push(Ev::ExecEnd { gen, tag, val: val.clone() });
    let msg = if fails {
        json!({"error": {"id": id, "data": {"JsonError": "no"}}})
    } else {
        json!({"method": {"id": id, "data": val}})
    }
    .to_string();
    let cs = cs.clone();
    let d1 = delay(m);
    let busy = if f == "slow" { a(2) } else { 0 };
    let dup = m.dup > 0 && rt::choose("dup", 100) as u32 > 100 - m.dup;
    let stray = m.stray > 0 && rt::choose("stray", 100) as u32 > 100 - m.stray;
    let d2 = if dup { delay(m) } else { 0 };
    tokio::spawn(async move {
        if stray {
            rt::fault("stray-message");
            let odd = [
                json!({"method": {"id": id + 5_000_000, "data": [tag, "stray"]}}),
                json!({"error": {"id": null, "data": {"JsonError": "stray"}}}),
                json!({"error": {"id": id + 5_000_000, "data": {"JsonError": "stray"}}}),
            ];
            cs.text(&odd[rt::choose("stray-kind", 3)].to_string());
        }
        if d1 > 0 {
            rt::fault("reply-delayed");
        }
        rt::sleep_ms(d1 + busy).await;
        cs.text(&msg);
        if dup {
            rt::fault("reply-duplicated");
            rt::sleep_ms(d2).await;
            cs.text(&msg);
        }
    });
}

// ------------------------------------------------------------------------------------------- tabs

fn absorb(w: &W, tab: &T, now: u64, ev: Value, fx: Value) {
    let list = fx.as_array().cloned().unwrap_or_default();
    log::push(Ev::Js(json!({"t": tab.id, "ev": ev, "fx": fx})));
    for f in &list {
        let s = f["s"].as_u64().unwrap_or(0) as usize;
        match f["e"].as_str().unwrap_or("") {
            "ws_new" => {
                let (tx, rx) = mpsc::unbounded_channel();
                tab.socks.lock().unwrap().insert(s, tx);
                let plan = tab.plan.conns.get(s).copied().unwrap_or(ConnPlan { lag: tab.plan.lag, ..HEALTHY });
                if s < RUNAWAY {
                    tokio::spawn(connection(w.clone(), tab.clone(), s, rx, plan));
                }
            }
            "ws_send" if f["st"] == json!(1) => {
                if let Some(tx) = tab.socks.lock().unwrap().get(&s) {
                    let _ = tx.send(Cmd::Send(f["x"].as_str().unwrap_or("").into()));
                }
            }
            "ws_close" | "cut" => {
                if let Some(tx) = tab.socks.lock().unwrap().get(&s) {
                    let _ = tx.send(Cmd::Close);
                }
            }
            k @ ("timer" | "sleep") => {
                let ms = f["ms"].as_u64().unwrap_or_else(|| f["ms"].as_f64().unwrap_or(0.0).ceil() as u64);
                let i = f["i"].clone();
                let tab = tab.clone();
                let late = k == "timer";
                tokio::spawn(async move {
                    let due = now + ms;
                    rt::sleep_ms(due.saturating_sub(rt::now_ms())).await;
                    if late && tab.plan.late > 0 && !rt::is_fair() && rt::choose("late", 4) == 3 {
                        rt::fault("late-timer");
                        nap(1 + rt::choose("lateness", tab.plan.late as usize) as u64).await;
                    }
                    tab.push(u32::MAX, json!({"k": "timer", "i": i, "due": due}));
                });
            }
            "threw" => rt::fault("subscriber-throws"),
            "actor" => tab.done.lock().unwrap().push(f["a"].as_u64().unwrap_or(0)),
            _ => {}
        }
    }
}

async fn tab_driver(w: W, tab: T) {
    loop {
        loop {
            if !tab.q.lock().unwrap().is_empty() {
                break;
            }
            tab.notify.notified().await;
        }
        if !rt::is_fair() {
            if tab.plan.late > 0 && rt::choose("late", 8) == 7 {
                rt::fault("late-event");
                nap(1 + rt::choose("lateness", tab.plan.late.min(50) as usize) as u64).await;
            }
            let now = rt::now_ms();
            for (at, len) in &tab.plan.freezes {
                let (from, to) = (tab.t0 + at, tab.t0 + at + len);
                if now >= from && now < to {
                    rt::fault("tab-frozen");
                    nap(to - now).await;
                }
            }
        }
        let ev = {
            let mut q = tab.q.lock().unwrap();
            // events of one source stay in order, sources overtake each other
            let mut firsts: Vec<usize> = vec![];
            let mut seen: Vec<u32> = vec![];
            for (i, e) in q.iter().enumerate() {
                if !seen.contains(&e.src) {
                    seen.push(e.src);
                    firsts.push(i);
                }
            }
            let k = firsts[rt::choose("event", firsts.len())];
            q.remove(k).unwrap().ev
        };
        step(&w, &tab, ev);
        tokio::task::yield_now().await;
    }
}

fn step(w: &W, tab: &T, ev: Value) {
    let now = rt::now_ms();
    let set: Vec<i64> = tab.plan.clock.iter().filter(|c| now >= tab.t0 + c.0).map(|c| c.1).collect();
    for _ in tab.jumps.swap(set.len(), Ordering::Relaxed)..set.len() {
        rt::fault("wall-clock-set");
    }
    let r = jsh::ask(&json!({"c": "ev", "t": tab.id, "now": now, "wall": set.iter().sum::<i64>(), "ev": ev}));
    let ev = if ev["k"] == json!("prog") { json!({"k": "prog"}) } else { ev };
    absorb(w, tab, now, ev, r["fx"].clone());
}

pub struct CHistory {
    pub plan: CPlan,
    pub log: Vec<Rec>,
    pub load_errors: Vec<String>,
    pub panics: Vec<String>,
    pub runaway: bool,
}

pub fn mark(name: &str) {
    log::push(Ev::Js(json!({"mark": name})));
}

fn horizon(p: &CPlan) -> u64 {
    let mut h = 0;
    for o in &p.outages {
        h = h.max(o.at + o.dur);
    }
    fn len(s: &[Step]) -> u64 {
        s.iter()
            .map(|s| match s {
                Step::Sleep { ms } => *ms,
                Step::Call { then, fail, args, .. } => 50 + args[2].as_u64().unwrap_or(0) + len(then) + len(fail),
                Step::All { calls } => len(calls),
                _ => 1,
            })
            .sum()
    }
    let mut work = 0;
    for t in &p.tabs {
        let a: u64 = t.actors.iter().map(|a| a.at + len(&a.steps)).max().unwrap_or(0);
        let f: u64 = t.freezes.iter().map(|f| f.1).sum();
        let c: u64 = t.conns.iter().map(|c| c.delay + c.lag + if c.refuse { 3000 } else { 300 }).sum();
        work = work.max(t.at + a + f + c + t.late * 10);
    }
    (h + work + 3000).min(120_000)
}

fn code(permute: bool) -> String {
    rt::set_permute(permute);
    let code = backend::Bench::generate::<zod::rpc::clients::WebsocketClient>();
    rt::set_permute(false);
    code
}

pub async fn run(plan: CPlan) -> CHistory {
    log::clear();
    backend::reset_live();
    rt::PANICS.with(|p| p.borrow_mut().clear());
    jsh::ask(&json!({"c": "reset"}));
    let loaded = jsh::load(&code(plan.permute), plan.permute);
    let w: W = Arc::new(Mutex::new(Wld {
        refuse: false,
        router: if plan.model.is_none() { Some(axum_router(0)) } else { None },
        model: plan.model,
        gen: 0,
        up: true,
        conns: vec![],
        quiet: false,
        counter: 0,
    }));
    let mut load_errors = loaded.errors.clone();
    if loaded.hash.is_empty() {
        load_errors.push("does not transpile".into());
        return CHistory { plan, log: log::take(), load_errors, panics: vec![], runaway: false };
    }
    let tabs: Arc<Mutex<Vec<T>>> = Default::default();
    let started = Arc::new(Mutex::new(0usize));
    let keep = plan.kept;
    for (id, p) in plan.tabs.iter().cloned().enumerate() {
        let (w, tabs, started, hash) = (w.clone(), tabs.clone(), started.clone(), loaded.hash.clone());
        tokio::spawn(async move {
            rt::sleep_ms(p.at).await;
            let actors = json!(p.actors);
            let tab = Arc::new(TabRt { id, t0: rt::now_ms(), jumps: AtomicUsize::new(0), plan: p, q: Mutex::default(), notify: Notify::new(), socks: Mutex::default(), done: Mutex::default() });
            let r = jsh::ask(&json!({"c": "tab", "t": id, "hash": hash, "seed": id + 1, "keep": keep, "uplink": tab.plan.uplink, "now": rt::now_ms()}));
            absorb(&w, &tab, tab.t0, json!({"k": "load"}), r["fx"].clone());
            tab.push(u32::MAX, json!({"k": "prog", "actors": actors}));
            if tab.plan.uplink > 0 {
                rt::fault("slow-uplink");
            }
            for (at, len, which) in tab.plan.signs.clone() {
                let tab = tab.clone();
                tokio::spawn(async move {
                    nap(at).await;
                    if rt::is_fair() {
                        return;
                    }
                    let (down, up) = if which == 0 { ("offline", "online") } else { ("hidden", "visible") };
                    rt::fault(if which == 0 { "browser-says-offline" } else { "tab-hidden" });
                    tab.push(u32::MAX - 1, json!({"k": "sign", "w": down}));
                    nap(len).await;
                    tab.push(u32::MAX - 1, json!({"k": "sign", "w": up}));
                });
            }
            tabs.lock().unwrap().push(tab.clone());
            *started.lock().unwrap() += 1;
            tab_driver(w, tab).await;
        });
    }
    for o in plan.outages.clone() {
        let w = w.clone();
        tokio::spawn(async move {
            nap(o.at).await;
            if rt::is_fair() {
                return;
            }
            match o.kind {
                Out::Refuse => {
                    rt::fault("outage-refusing");
                    w.lock().unwrap().refuse = true;
                    nap(o.dur).await;
                    w.lock().unwrap().refuse = false;
                }
                Out::Restart => {
                    rt::fault("server-restart");
                    mark("server down");
                    // nothing of the server runs while the lock is held, another task might want it
                    let (conns, router) = {
                        let mut g = w.lock().unwrap();
                        if !g.up {
                            return;
                        }
                        g.up = false;
                        (std::mem::take(&mut g.conns), g.router.take())
                    };
                    drop(router);
                    for c in conns {
                        c.cut(How::Rst);
                    }
                    nap(o.dur).await;
                    let (real, gen) = {
                        let g = w.lock().unwrap();
                        (g.model.is_none(), g.gen + 1)
                    };
                    let router = real.then(|| axum_router(gen));
                    let mut g = w.lock().unwrap();
                    g.gen = gen;
                    g.up = true;
                    g.router = router;
                    drop(g);
                    mark("server up");
                }
            }
        });
    }
    let runaway = |tabs: &Arc<Mutex<Vec<T>>>| tabs.lock().unwrap().iter().any(|t| t.socks.lock().unwrap().len() > RUNAWAY);
    let all_done = |n: usize| tabs.lock().unwrap().len() == plan.tabs.len() && tabs.lock().unwrap().iter().all(|t| t.done.lock().unwrap().len() >= n + t.plan.actors.len());
    let end = horizon(&plan);
    while rt::now_ms() < end && !all_done(0) && !runaway(&tabs) {
        rt::sleep_ms(20).await;
    }
    // let in-flight trouble hit what is left
    if !runaway(&tabs) {
        rt::sleep_ms(200).await;
    }
    // ---- faults stop here
    rt::set_fair(true);
    {
        let mut g = w.lock().unwrap();
        g.quiet = true;
        g.refuse = false;
    }
    mark("quiet");
    let mut ran_away = runaway(&tabs);
    if !ran_away {
        let t0 = rt::now_ms();
        // one full back-off, the queue of slow methods, then some
        while rt::now_ms() < t0 + 20_000 && !runaway(&tabs) {
            rt::sleep_ms(50).await;
            if rt::now_ms() > t0 + 4500 && all_done(0) {
                break;
            }
        }
        mark("settled");
        let mut list = tabs.lock().unwrap().clone();
        list.sort_by_key(|t| t.id);
        for phase in 0..3 {
            mark(["sequential", "idle", "again"][phase]);
            for t in &list {
                t.push(u32::MAX, json!({"k": "prog", "actors": epilogue(t.id as u64, phase, plan.weigh)}));
            }
            let t0 = rt::now_ms();
            while rt::now_ms() < t0 + if plan.weigh.is_some() && phase == 2 { 90_000 } else { 9000 } && !all_done(phase + 1) && !runaway(&tabs) {
                rt::sleep_ms(20).await;
            }
            if phase == 1 {
                rt::sleep_ms(6000).await;
                for t in list.iter().filter(|_| plan.kept) {
                    let r = jsh::ask(&json!({"c": "kept", "t": t.id}));
                    absorb(&w, t, rt::now_ms(), json!({"k": "kept"}), r["fx"].clone());
                }
            } else {
                rt::sleep_ms(300).await;
            }
        }
        mark("end");
        ran_away = runaway(&tabs);
    }
    let router = w.lock().unwrap().router.take();
    drop(router);
    rt::sleep_ms(500).await;
    mark("stopped");
    CHistory { plan, log: log::take(), load_errors, panics: rt::PANICS.with(|p| p.borrow().clone()), runaway: ran_away }
}
