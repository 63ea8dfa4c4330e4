//! The server world: real server stack, scripted clients, faults, then a quiet phase.
use crate::backend;
use crate::log::{self, Ev, Rec};
use crate::net::{self, Link, NetCfg, ReadHalf, SimIo, WriteHalf};
use crate::rt;
use crate::splan::*;
use crate::ws;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::{mpsc, Notify};
use zod::rpc::servers::proxy::{BackendProxy, ProxyRx, ProxyTx};
use zod::rpc::{Backend, Request, Response};

/// what a scripted client knows about its connection
pub struct Sess {
    pub sent: Vec<Msg>,
    pub sent_at: Vec<u64>,
    pub replies: usize,
    pub expected: usize,
    pub items: BTreeMap<u64, u64>,
    pub down: Option<String>,
    pub up: bool,
    pub script_done: bool,
    pub stalled: bool,
    pub stall_until: u64,
    flaky: HashSet<u64>,
    /// streams whose items do not tell their tag, by id
    same: BTreeMap<u64, u64>,
    notify: Arc<Notify>,
}

pub type S = Arc<Mutex<Sess>>;

fn new_sess() -> S {
    Arc::new(Mutex::new(Sess {
        sent: vec![],
        sent_at: vec![],
        replies: 0,
        expected: 0,
        items: BTreeMap::new(),
        down: None,
        up: false,
        script_done: false,
        stalled: false,
        stall_until: 0,
        flaky: HashSet::new(),
        same: BTreeMap::new(),
        notify: Arc::new(Notify::new()),
    }))
}

pub fn is_flaky(m: &Msg) -> bool {
    matches!(m, Msg::Stream { method, .. } if method == "flaky")
}

fn note_sent(si: usize, s: &S, m: &Msg) {
    let mut g = s.lock().unwrap();
    if is_flaky(m) {
        if let Msg::Stream { id, .. } = m {
            g.flaky.insert(*id);
        }
    }
    if let Msg::Stream { id, tag, method, .. } = m {
        if method == "same" {
            g.same.insert(*id, *tag);
        }
    }
    if m.expects_reply() {
        g.expected += 1;
    }
    g.sent.push(m.clone());
    g.sent_at.push(rt::now_ms());
    let idx = g.sent.len() - 1;
    drop(g);
    log::push(Ev::Sent { s: si, idx });
}

fn note_got(si: usize, s: &S, text: &str) {
    let (msg, raw_bad) = match serde_json::from_str::<Value>(text) {
        Ok(v) => (v, false),
        Err(_) => (json!(text), true),
    };
    {
        let mut g = s.lock().unwrap();
        if msg.get("method").is_some() {
            g.replies += 1;
        } else if let Some(e) = msg.get("error") {
            let item = e["id"].as_u64().is_some_and(|id| g.flaky.contains(&id));
            if !item {
                g.replies += 1;
            } else {
                // counted for the flaky stream in the check
            }
        } else if let Some(st) = msg.get("stream") {
            let plain = st["id"].as_u64().and_then(|id| g.same.get(&id).copied());
            if let Some(tag) = plain.or_else(|| st["data"][0].as_u64()) {
                *g.items.entry(tag).or_default() += 1;
            }
        }
        g.notify.notify_waiters();
    }
    log::push(Ev::Got { s: si, msg, raw_bad });
}

fn note_down(si: usize, s: &S, how: &str) {
    let mut g = s.lock().unwrap();
    if g.down.is_none() {
        g.down = Some(how.to_string());
        g.notify.notify_waiters();
        drop(g);
        log::push(Ev::Down { s: si, how: how.to_string() });
    }
}

/// waits out a stall of the reading side
async fn stall(s: &S) {
    loop {
        let until = s.lock().unwrap().stall_until;
        let now = rt::now_ms();
        if until <= now || rt::is_fair() {
            return;
        }
        rt::sleep_ms((until - now).min(1000)).await;
    }
}

async fn await_replies(s: &S, patience: u64) {
    let t0 = rt::now_ms();
    loop {
        let n = {
            let g = s.lock().unwrap();
            if g.replies >= g.expected || g.down.is_some() || rt::now_ms() > t0 + patience {
                return;
            }
            g.notify.clone()
        };
        // a missed wake-up only costs (virtual) time
        let _ = tokio::time::timeout(std::time::Duration::from_millis(50), n.notified()).await;
    }
}

// ------------------------------------------------------------------------------------------ raw

enum HostMsg {
    Req(usize, Result<Request, Response>, futures::channel::mpsc::UnboundedSender<Response>),
    Gone(usize),
}

/// A hand-written server in the manner of examples/raw: one backend, one SubscriberMap per client.
async fn raw_host(mut backend: backend::Bench, mut rx: mpsc::UnboundedReceiver<HostMsg>) {
    use futures::FutureExt;
    let mut maps: BTreeMap<usize, zod::rpc::SubscriberMap> = BTreeMap::new();
    let mut owner: BTreeMap<u64, usize> = BTreeMap::new();
    while let Some(m) = rx.recv().await {
        match m {
            HostMsg::Req(c, Ok(req), res) => {
                let id = match &req {
                    Request::Exec { id, .. } => Some(*id),
                    Request::CancelStream { .. } => None,
                };
                let before = backend::live_streams();
                let call = backend.handle_request(req, res.clone(), maps.entry(c).or_default());
                // the host of a raw backend answers for panics itself
                if std::panic::AssertUnwindSafe(call).catch_unwind().await.is_err() {
                    let err = <serde_json::Error as serde::de::Error>::custom("the method panicked");
                    let _ = res.unbounded_send(Response::error(id, err));
                }
                let map = &maps[&c];
                let now = backend::live_streams();
                let mut started = false;
                for t in &now {
                    if !before.contains(t) && !owner.contains_key(t) {
                        owner.insert(*t, c);
                        started = true;
                    }
                }
                // (a second worker may end streams between the bookkeeping and this look at it)
                if started && !rt::parallel() {
                    let running = now.iter().filter(|t| owner.get(t) == Some(&c)).count();
                    if map.len() > running + 1 {
                        log::note(format!("RETAINED session {c} entries {} running {running}", map.len()));
                    }
                }
            }
            HostMsg::Req(_, Err(e), res) => {
                let _ = res.unbounded_send(e);
            }
            HostMsg::Gone(c) => {
                maps.remove(&c);
            }
        }
    }
}

// --------------------------------------------------------------------------------------- server

#[derive(Clone)]
pub enum Server {
    Axum { router: axum::Router },
    Proxy { proxy: BackendProxy },
    Raw { tx: mpsc::UnboundedSender<HostMsg_> },
}
// keeps the enum above public without exposing the message type's fields
#[allow(non_camel_case_types)]
pub struct HostMsg_(HostMsg);

pub fn axum_router(gen: u32) -> axum::Router {
    let proxy = BackendProxy::new(backend::bench(gen));
    axum::Router::new()
        .route("/ws", axum::routing::get(zod::rpc::servers::axum::websocket_handler))
        .layer(axum::extract::Extension(proxy))
}

/// what hyper's acceptor does for one accepted connection
pub fn serve_conn(router: axum::Router, io: SimIo) -> tokio::task::JoinHandle<()> {
    tokio::spawn(async move {
        let mut h = hyper::server::conn::Http::new();
        h.http1_only(true);
        let _ = h.serve_connection(io, router).with_upgrades().await;
    })
}

fn start_server(mode: Mode) -> Server {
    match mode {
        Mode::Axum => Server::Axum { router: axum_router(0) },
        Mode::Proxy => Server::Proxy { proxy: BackendProxy::new(backend::bench(0)) },
        Mode::Raw => {
            let (tx, mut rx) = mpsc::unbounded_channel::<HostMsg_>();
            let (tx2, rx2) = mpsc::unbounded_channel();
            tokio::spawn(raw_host(backend::bench(0), rx2));
            tokio::spawn(async move {
                while let Some(m) = rx.recv().await {
                    if tx2.send(m.0).is_err() {
                        return;
                    }
                }
            });
            Server::Raw { tx }
        }
    }
}

enum Chan {
    Ws { wr: WriteHalf, link: Link },
    Proxy { tx: Option<ProxyTx> },
    Raw { tx: mpsc::UnboundedSender<HostMsg_>, res: Option<futures::channel::mpsc::UnboundedSender<Response>>, c: usize },
}

struct Conn {
    chan: Chan,
    reader: tokio::task::JoinHandle<()>,
}

/// what the transport does where there is none: the id of what cannot be read is known from the plan
fn to_req(text: &str, m: &Msg) -> Result<Request, Response> {
    let id = if let Msg::Bad { id, .. } = m { id.map(|id| id as usize) } else { None };
    serde_json::from_str(text).map_err(|err| Response::Error { id, data: zod::rpc::Error::from(err) })
}

impl Conn {
    /// false: the connection no longer takes messages
    async fn send(&mut self, si: usize, s: &S, m: &Msg, split: usize) -> bool {
        match &mut self.chan {
            Chan::Ws { wr, .. } => {
                let bytes = ws_bytes(m, split);
                note_sent(si, s, m);
                wr.write_all(&bytes).await.is_ok()
            }
            Chan::Proxy { tx } => {
                let Some(t) = m.text() else { return true };
                note_sent(si, s, m);
                match tx {
                    Some(tx) => tx.send(to_req(&t, m)).is_ok(),
                    None => false,
                }
            }
            Chan::Raw { tx, res, c } => {
                let Some(t) = m.text() else { return true };
                note_sent(si, s, m);
                match res {
                    Some(r) => tx.send(HostMsg_(HostMsg::Req(*c, to_req(&t, m), r.clone()))).is_ok(),
                    None => false,
                }
            }
        }
    }
    async fn burst(&mut self, si: usize, s: &S, ms: &[Msg]) -> bool {
        if let Chan::Ws { wr, .. } = &mut self.chan {
            let mut all = vec![];
            for m in ms {
                all.extend(ws_bytes(m, 0));
                note_sent(si, s, m);
            }
            return wr.write_all(&all).await.is_ok();
        }
        for m in ms {
            if !self.send(si, s, m, 0).await {
                return false;
            }
        }
        true
    }
    /// the connection ends; consumes it
    async fn leave(mut self, si: usize, how: Leave) -> Option<Link> {
        let name = match how {
            Leave::Stay => "orderly",
            Leave::Close => "client-close-frame",
            Leave::Fin => "client-fin",
            Leave::Rst => "client-reset",
            Leave::Vanish => "client-vanish",
            Leave::MidFrame(..) => "client-mid-frame",
            Leave::Handshake(..) => "client-handshake",
            Leave::Garbage => "client-garbage",
        };
        rt::fault(name);
        let _ = si;
        match self.chan {
            Chan::Ws { ref mut wr, ref link } => {
                let link = link.clone();
                match how {
                    Leave::Close => {
                        let _ = wr.write_all(&ws::frame(ws::CLOSE, true, &1000u16.to_be_bytes())).await;
                        // the reader sees the server's close; give it a moment, then drop everything
                        rt::sleep_ms(500).await;
                    }
                    Leave::Rst => link.reset(),
                    Leave::Vanish => {
                        link.vanish();
                        // keep both halves: nothing is sent, not even a reset
                        self.reader.abort();
                        std::mem::forget(self);
                        return Some(link);
                    }
                    Leave::MidFrame(n, rst) => {
                        let f = ws::frame(ws::TEXT, true, exec_text(&json!(424_242), NS_A, "add", &json!([0, 1])).as_bytes());
                        let _ = wr.write_all(&f[..n.min(f.len() - 1)]).await;
                        if rst {
                            rt::sleep_ms(2).await;
                            link.reset();
                        }
                    }
                    _ => {}
                }
                self.reader.abort();
                None
            }
            Chan::Proxy { ref mut tx } => {
                match how {
                    // receiving side first
                    Leave::Rst | Leave::Vanish => {
                        self.reader.abort();
                        tokio::task::yield_now().await;
                        drop(tx.take());
                    }
                    _ => {
                        drop(tx.take());
                        tokio::task::yield_now().await;
                        self.reader.abort();
                    }
                }
                None
            }
            Chan::Raw { ref tx, ref mut res, c } => {
                match how {
                    Leave::Rst | Leave::Vanish => {
                        self.reader.abort();
                        tokio::task::yield_now().await;
                        let _ = tx.send(HostMsg_(HostMsg::Gone(c)));
                        drop(res.take());
                    }
                    _ => {
                        let _ = tx.send(HostMsg_(HostMsg::Gone(c)));
                        drop(res.take());
                        self.reader.abort();
                    }
                }
                None
            }
        }
    }
}

fn ws_bytes(m: &Msg, split: usize) -> Vec<u8> {
    match m {
        Msg::Binary { text, .. } => ws::frame(ws::BINARY, true, text.as_bytes()),
        Msg::Control { ping, text, .. } => ws::frame(if *ping { ws::PING } else { ws::PONG }, true, &text.as_bytes()[..text.len().min(125)]),
        _ => {
            let t = m.text().unwrap();
            let b = t.as_bytes();
            if split == 0 || b.len() < 2 {
                return ws::frame(ws::TEXT, true, b);
            }
            let n = (split + 1).min(b.len());
            let step = b.len().div_ceil(n);
            let chunks: Vec<&[u8]> = b.chunks(step).collect();
            let mut out = vec![];
            for (i, c) in chunks.iter().enumerate() {
                out.extend(ws::frame(if i == 0 { ws::TEXT } else { 0 }, i + 1 == chunks.len(), c));
            }
            out
        }
    }
}

async fn ws_reader(si: usize, s: S, mut rd: ReadHalf) {
    let mut parser = ws::Parser::default();
    let mut buf = vec![0u8; 16 * 1024];
    let mut out = vec![];
    loop {
        stall(&s).await;
        let n = match rd.read(&mut buf).await {
            Ok(0) => {
                note_down(si, &s, "eof");
                return;
            }
            Ok(n) => n,
            Err(e) => {
                note_down(si, &s, &e.to_string());
                return;
            }
        };
        parser.feed(&buf[..n], &mut out);
        if let Some(code) = parser.status {
            if code != 101 {
                note_down(si, &s, &format!("http {code}"));
                return;
            }
            let mut g = s.lock().unwrap();
            if !g.up {
                g.up = true;
                g.notify.notify_waiters();
                drop(g);
                log::push(Ev::Up { s: si });
            }
        }
        for m in out.drain(..) {
            match m {
                ws::In::Text(t) => note_got(si, &s, &t),
                ws::In::Close => note_down(si, &s, "close frame"),
                ws::In::Pong | ws::In::Ping(_) => {}
                ws::In::Binary(_) => note_got(si, &s, "\u{1}binary"),
                ws::In::Bad(b) => note_got(si, &s, &format!("\u{1}{b}")),
            }
        }
    }
}

async fn proxy_reader(si: usize, s: S, mut rx: ProxyRx) {
    use futures::StreamExt;
    loop {
        stall(&s).await;
        match rx.next().await {
            Some(m) => match serde_json::to_string(&m) {
                Ok(t) => note_got(si, &s, &t),
                Err(e) => note_got(si, &s, &format!("\u{1}unserialisable {e}")),
            },
            None => {
                note_down(si, &s, "end of responses");
                return;
            }
        }
    }
}

async fn raw_reader(si: usize, s: S, mut rx: futures::channel::mpsc::UnboundedReceiver<Response>) {
    use futures::StreamExt;
    loop {
        stall(&s).await;
        match rx.next().await {
            Some(m) => match serde_json::to_string(&m) {
                Ok(t) => note_got(si, &s, &t),
                Err(e) => note_got(si, &s, &format!("\u{1}unserialisable {e}")),
            },
            None => {
                note_down(si, &s, "end of responses");
                return;
            }
        }
    }
}

/// None: the session ended during the opening handshake, as planned
async fn open(si: usize, s: &S, server: Server, netcfg: NetCfg, leave: Leave) -> Option<Conn> {
    match server {
        Server::Axum { router } => {
            let (c, srv, link) = net::connect(netcfg);
            serve_conn(router, srv);
            let SimIo { rd, mut wr } = c;
            match leave {
                Leave::Handshake(n, rst) => {
                    rt::fault("client-handshake");
                    let _ = wr.write_all(&ws::HANDSHAKE.as_bytes()[..n.min(ws::HANDSHAKE.len())]).await;
                    if n >= ws::HANDSHAKE.len() {
                        // asked for the upgrade, and gone before the answer
                        rt::fault("client-gone-before-upgrade");
                        if rst {
                            link.deaf();
                            rt::sleep_ms(3).await;
                        }
                    } else {
                        rt::sleep_ms(3).await;
                    }
                    if rst {
                        link.reset();
                    }
                    drop((rd, wr));
                    return None;
                }
                Leave::Garbage => {
                    rt::fault("client-garbage");
                    let _ = wr.write_all(b"POST /nope HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc\x00\x01\x02 garbage\r\n\r\n").await;
                    rt::sleep_ms(20).await;
                    drop((rd, wr));
                    return None;
                }
                _ => {}
            }
            let _ = wr.write_all(ws::HANDSHAKE.as_bytes()).await;
            let reader = tokio::spawn(ws_reader(si, s.clone(), rd));
            // a browser lets the page send only once the connection is open
            let t0 = rt::now_ms();
            loop {
                {
                    let g = s.lock().unwrap();
                    if g.up || g.down.is_some() || rt::now_ms() > t0 + 60_000 {
                        break;
                    }
                }
                rt::sleep_ms(1).await;
            }
            Some(Conn { chan: Chan::Ws { wr, link }, reader })
        }
        Server::Proxy { proxy } => {
            if matches!(leave, Leave::Handshake(..) | Leave::Garbage) {
                rt::fault("client-handshake");
                drop(proxy.connect());
                return None;
            }
            let (tx, rx) = proxy.connect().split();
            let reader = tokio::spawn(proxy_reader(si, s.clone(), rx));
            s.lock().unwrap().up = true;
            log::push(Ev::Up { s: si });
            Some(Conn { chan: Chan::Proxy { tx: Some(tx) }, reader })
        }
        Server::Raw { tx } => {
            if matches!(leave, Leave::Handshake(..) | Leave::Garbage) {
                return None;
            }
            let (rtx, rrx) = futures::channel::mpsc::unbounded();
            let reader = tokio::spawn(raw_reader(si, s.clone(), rrx));
            s.lock().unwrap().up = true;
            log::push(Ev::Up { s: si });
            Some(Conn { chan: Chan::Raw { tx, res: Some(rtx), c: si }, reader })
        }
    }
}

#[derive(Default)]
struct Held {
    conns: BTreeMap<usize, Conn>,
    vanished: Vec<Link>,
}

async fn session(si: usize, p: Session, s: S, server: Server, held: Arc<Mutex<Held>>, patience: u64) {
    rt::sleep_ms(p.start).await;
    let Some(mut conn) = open(si, &s, server, p.net, p.leave).await else {
        let mut g = s.lock().unwrap();
        g.script_done = true;
        return;
    };
    for op in &p.ops {
        match op {
            Op::Sleep(ms) => rt::sleep_ms(*ms).await,
            Op::Await => await_replies(&s, patience).await,
            Op::Stall(ms) => {
                rt::fault("client-stall");
                let mut g = s.lock().unwrap();
                g.stalled = true;
                g.stall_until = g.stall_until.max(rt::now_ms() + ms);
            }
            Op::Send(m) => {
                if !conn.send(si, &s, m, 0).await {
                    break;
                }
            }
            Op::SendSplit(m, n) => {
                if !conn.send(si, &s, m, *n).await {
                    break;
                }
            }
            Op::Burst(ms) => {
                if !conn.burst(si, &s, ms).await {
                    break;
                }
            }
        }
    }
    // let a stall end before the quiet phase so that "reads again" is exercised under load
    stall(&s).await;
    if p.leave == Leave::Stay {
        held.lock().unwrap().conns.insert(si, conn);
    } else {
        let l = conn.leave(si, p.leave).await;
        held.lock().unwrap().vanished.extend(l);
    }
    s.lock().unwrap().script_done = true;
}

pub struct History {
    pub plan: Plan,
    pub log: Vec<Rec>,
    pub sess: Vec<SessView>,
    pub marks: BTreeMap<&'static str, usize>,
    pub panics: Vec<String>,
    pub scripts_stuck: bool,
    pub soak: Option<(i64, i64, u32)>,
    pub churn: Option<(i64, i64, u32)>,
    pub n_scripted: usize,
}

pub struct SessView {
    pub sent: Vec<Msg>,
    pub sent_at: Vec<u64>,
    pub leave: Leave,
    pub stalled: bool,
    pub up: bool,
    pub probe: bool,
}

fn slow_ms(plan: &Plan) -> u64 {
    let mut slow = 0;
    for s in &plan.sessions {
        for o in &s.ops {
            let mut each = |m: &Msg| {
                if let Msg::Call { method, args, .. } = m {
                    slow += 5 + if method == "slow" { args[2].as_u64().unwrap_or(0) + 1 } else { 0 };
                }
            };
            match o {
                Op::Send(m) | Op::SendSplit(m, _) => each(m),
                Op::Burst(v) => v.iter().for_each(&mut each),
                _ => {}
            }
        }
    }
    slow
}

pub fn budget_ms(plan: &Plan) -> u64 {
    // what the work itself may legitimately take
    let mut slow = 0;
    let mut longest = 0;
    let mut items = 0;
    let mut msgs = 0;
    let mut bytes = 0;
    let mut each = |m: &Msg| {
        msgs += 1;
        if let Msg::Call { method, args, .. } = m {
            if method == "echo" {
                bytes += args[1].as_str().map_or(0, |s| 2 * s.len() as u64);
            }
            if method == "slow" {
                slow += args[2].as_u64().unwrap_or(0) + 1;
            }
            slow += 5;
        }
        if let Msg::Stream { method, args, .. } = m {
            let a = |i: usize| args[i].as_u64().unwrap_or(0);
            match method.as_str() {
                "count" | "subscribe" | "flaky" | "same" => {
                    longest = longest.max(a(1) * (a(2) + 1));
                    items += a(1)
                }
                "burst" => {
                    longest = longest.max((a(1) / a(2).max(1) + 1) * (a(3) + 1));
                    items += a(1)
                }
                "flood" => items += a(1),
                _ => {}
            }
        }
    };
    let mut net = 0;
    let mut narrow = 0;
    for s in &plan.sessions {
        net += s.net.lat_max * 4;
        narrow = narrow.max((2 * s.net.lat_max + 1) * 1000 / s.net.window as u64);
        for o in &s.ops {
            match o {
                Op::Send(m) | Op::SendSplit(m, _) => each(m),
                Op::Burst(v) => v.iter().for_each(&mut each),
                _ => {}
            }
        }
    }
    // each item costs a few task polls
    slow + longest + net + (items * 6 + msgs * 12) * plan.sched.poll_us / 1000 + 4 * bytes * narrow / 1000 + 4000
}

fn mark(marks: &mut BTreeMap<&'static str, usize>, name: &'static str) {
    marks.insert(name, log::with(|l| l.len()));
    log::note(format!("--- {name}"));
}

pub async fn run(plan: Plan) -> History {
    log::clear();
    backend::reset_live();
    rt::PANICS.with(|p| p.borrow_mut().clear());
    let mut marks = BTreeMap::new();
    let server = start_server(plan.mode);
    let held = Arc::new(Mutex::new(Held::default()));
    let mut sess: Vec<S> = plan.sessions.iter().map(|_| new_sess()).collect();
    let mut leaves: Vec<(Leave, bool)> = plan.sessions.iter().map(|s| (s.leave, false)).collect();
    let budget = budget_ms(&plan);
    for (i, p) in plan.sessions.iter().enumerate() {
        tokio::spawn(session(i, p.clone(), sess[i].clone(), server.clone(), held.clone(), 120_000 + budget));
    }
    let stalls: u64 = plan
        .sessions
        .iter()
        .map(|s| {
            s.start
                + s.ops
                    .iter()
                    .map(|o| match o {
                        Op::Stall(m) | Op::Sleep(m) => *m,
                        _ => 0,
                    })
                    .sum::<u64>()
        })
        .max()
        .unwrap_or(0);
    let visit = plan.visitors.map(|v| tokio::spawn(visit(v, server.clone())));
    // Await gives up after 120 s and what the work may take
    let hard = stalls + budget + (130_000 + budget) * plan.sessions.iter().map(|s| s.ops.len() as u64).max().unwrap_or(0);
    let mut scripts_stuck = false;
    loop {
        if sess.iter().all(|s| s.lock().unwrap().script_done) {
            break;
        }
        if rt::now_ms() > hard {
            scripts_stuck = true;
            break;
        }
        rt::sleep_ms(5).await;
    }
    if let Some(v) = visit {
        let _ = v.await;
    }
    // ---- faults stop here
    rt::set_fair(true);
    mark(&mut marks, "quiet");
    for l in held.lock().unwrap().vanished.drain(..) {
        l.reset();
    }
    let deadline = rt::now_ms() + budget;
    let settled = |sess: &[S]| {
        sess.iter().zip(&leaves).all(|(s, (leave, _))| {
            let g = s.lock().unwrap();
            if *leave != Leave::Stay || g.down.is_some() {
                return true;
            }
            g.replies >= g.expected
                && g.sent.iter().all(|m| match m {
                    Msg::Stream { tag, method, args, .. } => {
                        let want = match method.as_str() {
                            "count" | "subscribe" | "burst" | "flood" | "same" => args[1].as_u64().unwrap_or(0),
                            _ => 0,
                        };
                        g.items.get(tag).copied().unwrap_or(0) >= want
                    }
                    _ => true,
                })
        })
    };
    while rt::now_ms() < deadline && !settled(&sess) {
        rt::sleep_ms(25).await;
    }
    // let cancelled streams be dropped and surplus messages surface; sessions that have left may
    // still have slow calls queued in front of what must be released
    rt::sleep_ms(300 + if plan.sessions.iter().any(|s| s.leave != Leave::Stay) { slow_ms(&plan) } else { 0 }).await;
    mark(&mut marks, "settled");
    // ---- cancel half of what is still running, each followed by a call as a barrier
    let mut conns = std::mem::take(&mut held.lock().unwrap().conns);
    for (si, c) in conns.iter_mut() {
        let sent = sess[*si].lock().unwrap().sent.clone();
        let mut live: BTreeMap<u64, u64> = BTreeMap::new();
        for m in &sent {
            match m {
                Msg::Stream { id, tag, method, .. } if matches!(method.as_str(), "tick" | "never" | "flood") => {
                    live.insert(*id, *tag);
                }
                Msg::Stream { id, .. } | Msg::Cancel { id } => {
                    live.remove(id);
                }
                _ => {}
            }
        }
        let mut any = false;
        for (id, tag) in live {
            if tag % 2 == 0 {
                any = true;
                c.send(*si, &sess[*si], &Msg::Cancel { id }, 0).await;
            }
        }
        if any {
            let m = Msg::Call { id: 777_777, tag: 900_000 + *si as u64, ns: NS_A.into(), method: "echo".into(), args: json!([900_000 + *si, "barrier"]) };
            c.send(*si, &sess[*si], &m, 0).await;
        }
    }
    rt::sleep_ms(1500).await;
    mark(&mut marks, "cancelled");
    // ---- a newcomer must be served
    let pi = sess.len();
    let ps = new_sess();
    sess.push(ps.clone());
    leaves.push((Leave::Stay, true));
    let t = 950_000u64;
    let probe_ops = vec![
        Msg::Call { id: 1, tag: t, ns: NS_A.into(), method: "add".into(), args: json!([t, 0]) },
        Msg::Stream { id: 2, tag: t + 1, ns: NS_A.into(), method: "count".into(), args: json!([t + 1, 3, 1]) },
        Msg::Stream { id: 3, tag: t + 2, ns: NS_A.into(), method: "never".into(), args: json!([t + 2]) },
        Msg::Cancel { id: 3 },
        Msg::Call { id: 4, tag: t + 3, ns: "Beta".into(), method: "add".into(), args: json!([t + 3, 0]) },
        Msg::Call { id: 5, tag: t + 4, ns: NS_A.into(), method: "ping".into(), args: json!([]) },
        Msg::Bad { text: "nope".into(), id: None, tag: t + 5 },
    ];
    if let Some(mut c) = open(pi, &ps, server.clone(), NetCfg::default(), Leave::Stay).await {
        for m in &probe_ops {
            if !c.send(pi, &ps, m, 0).await {
                break;
            }
        }
        let end = rt::now_ms() + 5000;
        while rt::now_ms() < end {
            {
                let g = ps.lock().unwrap();
                if g.replies >= g.expected && g.items.get(&(t + 1)).copied().unwrap_or(0) >= 3 {
                    break;
                }
            }
            rt::sleep_ms(5).await;
        }
        rt::sleep_ms(50).await;
        conns.insert(pi, c);
    }
    mark(&mut marks, "probed");
    mark(&mut marks, "leaving");
    // ---- everybody leaves, the server goes away (in either order)
    let mut server = Some(server);
    if plan.server_first && plan.soak + plan.churn == 0 {
        server = None;
    }
    for (si, c) in conns {
        c.leave(si, Leave::Stay).await;
        rt::sleep_ms(1).await;
    }
    rt::sleep_ms(1500).await;
    mark(&mut marks, "left");
    // ---- retention over many finished streams
    let mut soak = None;
    if plan.soak > 0 {
        soak = Some(soak_phase(&plan, server.as_ref().unwrap()).await);
    }
    let mut churn = None;
    if plan.churn > 0 {
        churn = Some(churn_phase(&plan, server.as_ref().unwrap()).await);
    }
    drop(server.take());
    rt::sleep_ms(1500).await;
    mark(&mut marks, "stopped");
    let views = sess
        .iter()
        .zip(&leaves)
        .map(|(s, (leave, probe))| {
            let g = s.lock().unwrap();
            SessView { sent: g.sent.clone(), sent_at: g.sent_at.clone(), leave: *leave, stalled: g.stalled, up: g.up, probe: *probe }
        })
        .collect();
    let n_scripted = plan.sessions.len();
    History {
        plan,
        log: log::take(),
        sess: views,
        marks,
        panics: rt::PANICS.with(|p| p.borrow().clone()),
        scripts_stuck,
        soak,
        churn,
        n_scripted,
    }
}

/// Others who come and go while the sessions run.
async fn visit(v: Visitors, server: Server) {
    rt::sleep_ms(v.at).await;
    rt::fault("visitors");
    let text = match v.say {
        0 => None,
        1 => Some(json!({"cancelStream": {"id": 1}}).to_string()),
        _ => Some("nonsense".to_string()),
    };
    for k in 0..v.n as usize {
        match &server {
            Server::Axum { .. } => {
                let s = new_sess();
                let Some(mut c) = open(30_000 + k, &s, server.clone(), NetCfg::default(), Leave::Stay).await else { return };
                if let Some(t) = &text {
                    soak_send(&mut c, t).await;
                }
                c.leave(30_000 + k, if k % 2 == 0 { Leave::Close } else { Leave::Rst }).await;
            }
            Server::Proxy { proxy } => {
                let (tx, rx) = proxy.connect().split();
                if let Some(t) = &text {
                    let _ = tx.send(to_req(t, &Msg::Cancel { id: 0 }));
                }
                drop((tx, rx));
                if k % 50 == 49 {
                    tokio::task::yield_now().await;
                }
            }
            Server::Raw { .. } => return,
        }
    }
}

/// Starts and finishes `n` streams on one long-lived connection, three times, and measures the live
/// heap after the first and the last round.
async fn soak_phase(plan: &Plan, server: &Server) -> (i64, i64, u32) {
    let n = plan.soak;
    log::begin_soak();
    let s = new_sess();
    let Some(mut c) = open(9_999, &s, server.clone(), NetCfg::default(), Leave::Stay).await else {
        return (0, 0, n);
    };
    let mut at = vec![];
    let mut id = 10u64;
    for round in 0..3 {
        for k in 0..n {
            let text = match k % 3 {
                // ends by itself
                0 => exec_text(&json!(id), NS_A, "count", &json!([1_000_000 + id, 0, 0])),
                1 => exec_text(&json!(id), NS_A, "count", &json!([1_000_000 + id, 2, 0])),
                // cancelled
                _ => exec_text(&json!(id), NS_A, "never", &json!([1_000_000 + id])),
            };
            soak_send(&mut c, &text).await;
            if k % 3 == 2 {
                soak_send(&mut c, &json!({"cancelStream": {"id": id}}).to_string()).await;
            }
            id += 1;
            if k % 16 == 0 {
                rt::sleep_ms(30).await;
            }
        }
        rt::sleep_ms(400).await;
        // the next stream start is when entries of finished streams must go at the latest
        soak_send(&mut c, &exec_text(&json!(id), NS_A, "count", &json!([1_000_000 + id, 0, 0]))).await;
        id += 1;
        rt::sleep_ms(400).await;
        if round != 1 {
            // the harness's own records do not count
            log::drop_soak();
            s.lock().unwrap().items.clear();
            at.push(crate::heap::live());
        }
    }
    c.leave(9_999, Leave::Stay).await;
    rt::sleep_ms(200).await;
    let leaked: Vec<u64> = backend::live_streams().into_iter().filter(|t| *t >= 1_000_000).collect();
    log::drop_soak();
    if !leaked.is_empty() {
        log::note(format!("SOAK-LEAK {leaked:?}"));
    }
    (at[0], at[1], n)
}

/// Opens and ends `n` connections, three times, and measures the live heap after the first and the
/// last round.
async fn churn_phase(plan: &Plan, server: &Server) -> (i64, i64, u32) {
    let n = plan.churn;
    log::begin_soak();
    let mut at = vec![];
    for round in 0..3u32 {
        let mut left = 0;
        while left < n {
            let batch = 8.min(n - left);
            let all = (0..batch).map(|b| {
                let k = left + b;
                let server = server.clone();
                tokio::spawn(async move { churn_one(k as u64, k as u64 * 5 + round as u64, n % 10, server).await })
            });
            for j in all.collect::<Vec<_>>() {
                let _ = j.await;
            }
            left += batch;
        }
        rt::sleep_ms(2000).await;
        log::drop_soak();
        rt::PANICS.with(|p| p.borrow_mut().truncate(50));
        if round != 1 {
            at.push(crate::heap::live());
        }
    }
    (at[0], at[1], n)
}

async fn churn_one(k: u64, x: u64, kind: u32, server: Server) {
    // all sorts of endings in turn, or one of them only
    let kind = if kind == 0 { k % 7 } else { kind as u64 - 1 };
    let leave = match kind {
        0 | 1 => Leave::Stay,
        2 => Leave::Close,
        3 => Leave::Fin,
        4 => Leave::Rst,
        5 => Leave::MidFrame(7, k % 2 == 0),
        _ => Leave::Handshake([60, 500, 500][k as usize / 2 % 3], k % 2 == 0),
    };
    let s = new_sess();
    let Some(mut c) = open(20_000 + k as usize, &s, server, NetCfg::default(), leave).await else { return };
    let tag = 2_000_000 + k * 10;
    for (i, m) in [x % 8, x / 8 % 8, x / 64 % 8].into_iter().enumerate() {
        let id = 1 + (x + i as u64) % 3;
        let t = tag + i as u64;
        let text = match m {
            0 => continue,
            1 => exec_text(&json!(id), NS_A, "add", &json!([t, 1])),
            2 => exec_text(&json!(id), NS_A, "slow", &json!([t, 1, 2, 1])),
            3 => exec_text(&json!(id), NS_A, "count", &json!([t, 2, 1])),
            4 => exec_text(&json!(id), NS_A, "never", &json!([t])),
            5 => exec_text(&json!(id), NS_A, "tick", &json!([t, 5])),
            6 => json!({"cancelStream": {"id": id}}).to_string(),
            _ => "nonsense".into(),
        };
        soak_send(&mut c, &text).await;
        if x % 5 == 0 {
            rt::sleep_ms(x % 4).await;
        }
    }
    if x % 3 == 0 {
        rt::sleep_ms(x % 11).await;
    }
    c.leave(20_000 + k as usize, leave).await;
}

async fn soak_send(c: &mut Conn, text: &str) {
    match &mut c.chan {
        Chan::Ws { wr, .. } => {
            let _ = wr.write_all(&ws::frame(ws::TEXT, true, text.as_bytes())).await;
        }
        Chan::Proxy { tx } => {
            if let Some(tx) = tx {
                let _ = tx.send(to_req(text, &Msg::Cancel { id: 0 }));
            }
        }
        Chan::Raw { tx, res, c } => {
            if let Some(r) = res {
                let _ = tx.send(HostMsg_(HostMsg::Req(*c, to_req(text, &Msg::Cancel { id: 0 }), r.clone())));
            }
        }
    }
}
