//! Plans of the server world: what every scripted client does, and which faults hit it.
use crate::net::NetCfg;
use crate::rng::Rng;
use crate::rt::{Policy, SchedCfg};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// axum + hyper + tungstenite over simulated sockets
    Axum,
    /// BackendProxy used directly
    Proxy,
    /// Backend::handle_request with one SubscriberMap per connection, as in examples/raw
    Raw,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Msg {
    Call { id: u64, tag: u64, ns: String, method: String, args: Value },
    Stream { id: u64, tag: u64, ns: String, method: String, args: Value },
    Cancel { id: u64 },
    /// must be answered by one error reply carrying `id`
    Bad { text: String, id: Option<u64>, tag: u64 },
    /// must be ignored
    Binary { text: String, tag: u64 },
    /// a ping or pong that looks like something else
    Control { ping: bool, text: String, tag: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Sleep(u64),
    /// wait until everything sent so far has been answered
    Await,
    /// stop reading for this long (the script goes on)
    Stall(u64),
    Send(Msg),
    /// one text message in several WebSocket fragments
    SendSplit(Msg, usize),
    /// several messages in one write
    Burst(Vec<Msg>),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Leave {
    Stay,
    /// close handshake
    Close,
    Fin,
    Rst,
    /// silently gone; the network tells the server only much later
    Vanish,
    /// part of a frame, then gone
    MidFrame(usize, bool),
    /// gone after this many bytes of the opening request
    Handshake(usize, bool),
    /// not a WebSocket request at all
    Garbage,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Session {
    pub start: u64,
    pub net: NetCfg,
    pub ops: Vec<Op>,
    pub leave: Leave,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub mode: Mode,
    pub sched: SchedCfg,
    pub sessions: Vec<Session>,
    /// at the end: drop the server before the clients have left
    pub server_first: bool,
    /// run this many start/finish cycles of streams twice and compare what is retained
    pub soak: u32,
    /// the same with whole connections
    #[serde(default)]
    pub churn: u32,
    /// that many others look in for a moment while the sessions run
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub visitors: Option<Visitors>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Visitors {
    pub at: u64,
    pub n: u32,
    /// what they say: 0 nothing, 1 a cancel, 2 nonsense
    pub say: u8,
}

pub fn exec_text(id: &Value, ns: &str, method: &str, args: &Value) -> String {
    json!({"exec": {"id": id, "namespace": ns, "method": method, "args": args}}).to_string()
}

impl Msg {
    pub fn text(&self) -> Option<String> {
        match self {
            Msg::Call { id, ns, method, args, .. } | Msg::Stream { id, ns, method, args, .. } => {
                Some(exec_text(&json!(id), ns, method, args))
            }
            Msg::Cancel { id } => Some(json!({"cancelStream": {"id": id}}).to_string()),
            Msg::Bad { text, .. } => Some(text.clone()),
            _ => None,
        }
    }
    pub fn expects_reply(&self) -> bool {
        matches!(self, Msg::Call { .. } | Msg::Bad { .. })
    }
    pub fn tag(&self) -> u64 {
        match self {
            Msg::Call { tag, .. } | Msg::Stream { tag, .. } | Msg::Bad { tag, .. } | Msg::Binary { tag, .. } | Msg::Control { tag, .. } => *tag,
            _ => 0,
        }
    }
}

/// relative frequencies of what happens in a run
#[derive(Clone, Debug)]
pub struct Profile {
    pub modes: [u32; 3],
    pub sessions: (u64, u64),
    pub ops: (u64, u64),
    pub calls: u32,
    pub slow: u32,
    pub finite: u32,
    pub endless: u32,
    pub flood: u32,
    pub cancel: u32,
    pub reuse: u32,
    pub malformed: u32,
    pub brittle: u32,
    pub panics: u32,
    pub big: u32,
    pub stall: u32,
    /// percentage of sessions that leave abruptly
    pub leave: u32,
    pub frag: u32,
    pub slow_ms: u64,
    pub soak: u32,
    pub churn: u32,
    /// percentage of runs with hundreds or thousands of messages or streams at once
    pub crowd: u32,
    /// percentage of runs that last minutes to hours of simulated time
    pub long: u32,
    /// percentage of runs with dozens to hundreds of connections
    pub many: u32,
    /// per thousand runs: connections by the hundred that come and go meanwhile
    pub visitors: u32,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            modes: [5, 3, 2],
            sessions: (1, 4),
            ops: (2, 14),
            calls: 30,
            slow: 8,
            finite: 10,
            endless: 5,
            flood: 0,
            cancel: 6,
            reuse: 2,
            malformed: 4,
            brittle: 2,
            panics: 1,
            big: 1,
            stall: 1,
            leave: 25,
            frag: 40,
            slow_ms: 40,
            soak: 0,
            churn: 0,
            visitors: 3,
            crowd: 2,
            long: 2,
            many: 1,
        }
    }
}

pub fn profile(id: &str) -> Profile {
    let d = Profile::default();
    match id {
        "C01" => Profile { calls: 50, slow: 12, leave: 35, panics: 1, crowd: 4, long: 4, ..d },
        "C02" => Profile { calls: 40, slow: 30, leave: 15, sessions: (1, 5), panics: 0, long: 3, ..d },
        "C03" => Profile { finite: 40, endless: 12, brittle: 0, panics: 0, leave: 25, crowd: 4, long: 4, ..d },
        "C04" => Profile { flood: 14, endless: 16, slow: 14, slow_ms: 3000, leave: 10, panics: 0, ..d },
        "C05" => Profile { finite: 16, endless: 26, cancel: 34, reuse: 14, leave: 8, flood: 1, panics: 0, ..d },
        "C06" => Profile { visitors: 20, many: 2, sessions: (2, 5), finite: 16, endless: 22, cancel: 30, reuse: 8, leave: 10, panics: 0, malformed: 6, modes: [5, 5, 0], ..d },
        "C07" => Profile { visitors: 20, many: 2, sessions: (3, 6), leave: 65, slow: 16, endless: 14, stall: 2, panics: 0, modes: [6, 3, 1], ..d },
        "C08" => Profile { crowd: 3, many: 2, sessions: (1, 5), leave: 60, endless: 34, finite: 14, slow: 14, slow_ms: 200, panics: 0, ..d },
        "C09" => Profile { crowd: 6, malformed: 50, finite: 14, endless: 8, leave: 8, panics: 0, ..d },
        "C10" => Profile { crowd: 6, brittle: 30, panics: 24, finite: 12, endless: 8, leave: 8, ..d },
        "C11" => Profile { flood: 3, sessions: (2, 4), stall: 14, big: 14, frag: 75, finite: 20, endless: 8, leave: 5, panics: 0, modes: [8, 1, 0], ..d },
        "C21" => Profile { sessions: (1, 2), finite: 40, endless: 8, cancel: 16, reuse: 8, leave: 5, modes: [2, 3, 5], brittle: 4, panics: 1, ops: (6, 30), soak: 25, ..d },
        "C22" => Profile { visitors: 20, sessions: (1, 3), ops: (2, 8), leave: 50, panics: 1, modes: [4, 5, 0], churn: 60, crowd: 0, long: 0, many: 1, ..d },
        _ => d,
    }
}

pub const NS_A: &str = "Alpha";

struct Gen<'a> {
    r: &'a mut Rng,
    p: &'a Profile,
    tag: u64,
    /// waiting times are this much longer
    slower: u64,
    huge: bool,
}

/// a name that resembles another one
fn near(r: &mut Rng, name: &str) -> String {
    let mut c: Vec<char> = name.chars().collect();
    match r.below(9) {
        0 => return format!(" {name}"),
        1 => return format!("{name} "),
        2 => return format!("{name}\n"),
        3 => return format!("{name}\u{0}"),
        4 => return format!("x{name}"),
        5 => return format!("{name}{}", c[c.len() - 1]),
        6 => {
            c.pop();
        }
        7 => {
            c.remove(0);
        }
        _ => {
            let i = r.below(c.len());
            c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
        }
    }
    c.into_iter().collect()
}

impl Gen<'_> {
    fn tag(&mut self) -> u64 {
        self.tag += 1;
        self.tag
    }
    fn text(&mut self, n: usize) -> String {
        const C: &[&str] = &["a", "Z", "0", " ", "\"", "\\", "\n", "é", "漢", "🦀", "\u{0}", "</x>", "{", "]", "\u{2028}"];
        let mut s = String::new();
        while s.len() < n {
            s.push_str(C[self.r.below(C.len())]);
        }
        s
    }
    fn call(&mut self, id: u64, big: bool) -> Msg {
        let tag = self.tag();
        let n = self.r.range(0, 20) as i64 - 5;
        let (ns, method, args) = if big {
            let k = if self.huge { 1_300_000 } else { *self.r.pick(&[200usize, 3000, 66_000, 140_000]) };
            (NS_A, "echo", json!([tag, self.text(k)]))
        } else {
            match self.r.below(12) {
                0 | 1 => (NS_A, "add", json!([tag, n])),
                2 => ("Beta", "add", json!([tag, n])),
                3 => ("Gam_ma", "add", json!([tag, n])),
                4 => (NS_A, "echo", {
                    let k = self.r.below(30);
                    json!([tag, self.text(k)])
                }),
                5 => (NS_A, "ping", json!([])),
                6 => (NS_A, "silent", json!([tag])),
                7 => (
                    NS_A,
                    "mix",
                    json!([
                        tag,
                        {"x": n, "label": self.text(4), "inner": {"on": self.r.pct(50), "parts": [null, 7]}},
                        ["Dot", {"Circle": {"radius": 3}}, {"Line": [1, 2]}],
                        if self.r.pct(50) { Value::Null } else { json!("o") }
                    ]),
                ),
                8 => ("Odd", "move", json!([tag, self.text(3), n])),
                9 => {
                    let (a, b) = (self.r.pct(50).then_some(n + 9), self.r.pct(50).then(|| self.text(2)));
                    ("Odd", "opt", json!([tag, a, n, b]))
                }
                10 => (NS_A, "raw", json!([tag, self.r.below(6), self.r.below(12)])),
                _ => ("Gam_ma", "only_here", json!([tag])),
            }
        };
        Msg::Call { id, tag, ns: ns.into(), method: method.into(), args }
    }
    fn slow(&mut self, id: u64) -> Msg {
        let tag = self.tag();
        let ms = if self.r.pct(30) { 0 } else { self.r.range(1, self.p.slow_ms) * self.slower.min(400_000 / self.p.slow_ms) };
        let ns = if self.r.pct(75) { NS_A } else { "Beta" };
        let y = self.r.range(0, 4);
        Msg::Call { id, tag, ns: ns.into(), method: "slow".into(), args: json!([tag, self.r.range(0, 9), ms, y]) }
    }
    fn stream(&mut self, id: u64, kind: usize) -> Msg {
        let tag = self.tag();
        let (ns, method, args) = match kind {
            0 => {
                let ns = *self.r.pick(&[NS_A, NS_A, "Beta", "Gam_ma", "Odd"]);
                (ns, if ns == "Odd" { "subscribe" } else { "count" }, json!([tag, self.r.range(0, 12), self.r.range(0, 15) * self.slower]))
            }
            1 => (NS_A, "burst", json!([tag, self.r.range(1, 60), self.r.range(1, 20), self.r.range(0, 20) * self.slower])),
            2 => (NS_A, "tick", json!([tag, self.r.range(20, 90) * self.slower])),
            3 => (NS_A, "never", json!([tag])),
            4 => (NS_A, "flood", json!([tag, *self.r.pick(&[300u64, 1500, 6000])])),
            // items that tell nothing about their stream
            7 => (NS_A, "same", json!([tag, self.r.range(0, 14), self.r.range(0, 9) * self.slower, self.r.below(6)])),
            5 => (NS_A, "flaky", json!([tag, self.r.range(1, 10), self.r.range(0, 8), self.r.range(1, 4)])),
            _ => (NS_A, "bomb", json!([tag, self.r.range(0, 4), self.r.range(0, 8)])),
        };
        Msg::Stream { id, tag, ns: ns.into(), method: method.into(), args }
    }
    fn bad(&mut self, id: u64) -> Msg {
        let tag = self.tag();
        let none = |s: &str| (s.to_string(), None);
        let ex = |v: Value| (json!({ "exec": v }).to_string(), Some(id));
        let exn = |v: Value| (json!({ "exec": v }).to_string(), None);
        let ok = json!([tag, 1]);
        let (text, eid) = match self.r.below(72) {
            0 => none(""),
            1 => none("{"),
            2 => none(*self.r.pick(&["hello", "ping", "PING", "pong", "2", "keepalive", "heartbeat", "quit", "bye", "close", "undefined", "NaN", "{\"type\":\"ping\"}", "{\"ping\":{}}", "{\"exec\":null}", "true", "-1", "\"\""])),
            3 => none("{\"exec\":"),
            4 => none("nul"),
            5 => none("[]"),
            6 => none("42"),
            7 => none("\"exec\""),
            8 => none("{}"),
            9 => none("null"),
            10 => none("{\"foo\":{}}"),
            11 => none("{\"exec\":5}"),
            12 => none("{\"exec\":[1]}"),
            13 => none("{\"exec\":{}}"),
            14 => none("{\"cancelStream\":{}}"),
            15 => none(&json!({"cancelStream": {"id": id.to_string()}}).to_string()),
            16 => none("{\"cancelStream\":{\"id\":-1}}"),
            17 => none(&json!({ "cancelStream": id }).to_string()),
            18 => none("{\"Exec\":{\"id\":1}}"),
            19 => none("{\"method\":{\"id\":1,\"data\":2}}"),
            20 => exn(json!({"id": "1", "namespace": NS_A, "method": "add", "args": ok})),
            21 => exn(json!({"id": -1, "namespace": NS_A, "method": "add", "args": ok})),
            22 => exn(json!({"id": 1.5, "namespace": NS_A, "method": "add", "args": ok})),
            23 => exn(json!({"id": null, "namespace": NS_A, "method": "add", "args": ok})),
            24 => exn(json!({"namespace": NS_A, "method": "add", "args": ok})),
            25 => exn(json!({"id": {"a": 1}, "namespace": NS_A, "method": "add", "args": ok})),
            26 => ex(json!({"id": id, "namespace": "Nope", "method": "add", "args": ok})),
            27 => ex(json!({"id": id, "method": "add", "args": ok})),
            28 => ex(json!({"id": id, "namespace": 5, "method": "add", "args": ok})),
            29 => ex(json!({"id": id, "namespace": NS_A, "method": "nope", "args": ok})),
            30 => ex(json!({"id": id, "namespace": NS_A, "args": ok})),
            31 => ex(json!({"id": id, "namespace": NS_A, "method": ["add"], "args": ok})),
            32 => ex(json!({"id": id, "namespace": NS_A, "method": "add"})),
            33 => ex(json!({"id": id, "namespace": NS_A, "method": "add", "args": null})),
            34 => ex(json!({"id": id, "namespace": NS_A, "method": "add", "args": [tag]})),
            35 => ex(json!({"id": id, "namespace": NS_A, "method": "add", "args": [tag, 1, 2]})),
            36 => ex(json!({"id": id, "namespace": NS_A, "method": "add", "args": [tag, "1"]})),
            37 => ex(json!({"id": id, "namespace": NS_A, "method": "add", "args": {"tag": tag, "n": 1}})),
            38 => ex(json!({"id": id, "namespace": NS_A, "method": "ping", "args": [1]})),
            39 => ex(json!({"id": id, "namespace": "Beta", "method": "only_here", "args": [tag]})),
            40 => ex(json!({"id": id, "namespace": "alpha", "method": "add", "args": ok})),
            41 => ex(json!({"id": id, "namespace": NS_A, "method": "count", "args": [tag, 3]})),
            42 => ex(json!({"id": id, "namespace": NS_A, "method": "tick", "args": [tag, -5]})),
            43 => ex(json!({"id": id, "namespace": NS_A, "method": "add", "args": [tag, 99999999999u64]})),
            44 => ex(json!({"id": id, "namespace": "Delta", "method": "zap", "args": []})),
            45 => exn(json!({"id": true, "namespace": NS_A, "method": "add", "args": ok})),
            46 => exn(json!({"id": [id], "namespace": NS_A, "method": "add", "args": ok})),
            47 => none(&exec_text(&json!(id), NS_A, "add", &ok).replace(&format!("\"id\":{id}"), "\"id\":18446744073709551616")),
            48 => none(&(json!({"cancelStream": {"id": id}}).to_string() + " x")),
            49 => none(&(json!({"cancelStream": {"id": id}}).to_string() + &json!({"cancelStream": {"id": id}}).to_string())),
            50 => none(&json!({"cancelStream": {"id": id}, "exec": {"id": id, "namespace": NS_A, "method": "add", "args": ok}}).to_string()),
            51 => none(&json!({"cancelstream": {"id": id}}).to_string()),
            52 => ex(json!({"id": id, "namespace": NS_A, "method": "never", "args": []})),
            // well-formed, but with something in it that the server cannot represent
            53 => (exec_text(&json!(id), NS_A, "echo", &json!([tag, "@@"])).replace("@@", "\\ud83e"), Some(id)),
            54 => (exec_text(&json!(id), NS_A, "add", &json!([tag, "@@"])).replace("\"@@\"", "1e999"), Some(id)),
            55 => {
                let deep = self.r.range(130, 400) as usize;
                (exec_text(&json!(id), NS_A, "add", &json!([tag, "@@"])).replace("\"@@\"", &("[".repeat(deep) + &"]".repeat(deep))), Some(id))
            }
            56 => (exec_text(&json!(id), NS_A, "echo", &json!([tag, "@@"])).replace("@@", "\\ud83e").replace("}}", "}"), None),
            // almost a name
            58 | 59 => {
                let n = near(self.r, NS_A);
                ex(json!({"id": id, "namespace": n, "method": "add", "args": ok}))
            }
            60 | 61 => {
                let n = near(self.r, "add");
                ex(json!({"id": id, "namespace": NS_A, "method": n, "args": ok}))
            }
            // not by its name but by that of its type, or by number
            62 => ex(match self.r.below(3) {
                0 => json!({"id": id, "namespace": "Gamma", "method": "add", "args": ok}),
                1 => json!({"id": id, "namespace": "Gamma", "method": "count", "args": [tag, 3, 0]}),
                _ => json!({"id": id, "namespace": self.r.below(4), "method": "add", "args": ok}),
            }),
            63 => ex(json!({"id": id, "namespace": NS_A, "method": self.r.below(20), "args": ok})),
            57 => (format!("{{\"cancelStream\":{{\"id\":{id}}},\"exec\":{{\"id\":{id},\"why\":1e999}}}}"), None),
            // a proper request with something around it
            65 | 66 => {
                let m = exec_text(&json!(id), NS_A, "add", &ok);
                none(&match self.r.below(11) {
                    0 => format!("\u{feff}{m}"),
                    1 => format!("\u{a0}{m}"),
                    2 => format!("{m}\u{0}"),
                    3 => format!("{m};"),
                    4 => format!("{m},"),
                    5 => format!("data: {m}"),
                    6 => format!("42{m}"),
                    7 => format!("// {m}\n{m}"),
                    8 => format!("({m})"),
                    9 => format!("{m}\n{m}"),
                    _ => format!(",{m}"),
                })
            }
            67 => {
                let m = json!({"exec": {"id": id, "namespace": NS_A, "method": "add", "args": ok}});
                none(&match self.r.below(6) {
                    0 => json!([m]),
                    1 => json!([m, m]),
                    2 => json!(m.to_string()),
                    3 => json!({ "data": m }),
                    4 => m["exec"].clone(),
                    _ => json!(["exec", m["exec"]]),
                }
                .to_string())
            }
            // almost JSON
            68 => {
                let m = exec_text(&json!(id), NS_A, "add", &ok);
                none(&match self.r.below(6) {
                    0 => m.replace("}}", ",}}"),
                    1 => m.replace("}}", "},}"),
                    2 => m.replace('"', "'"),
                    3 => m.replace("\"exec\"", "exec"),
                    4 => m.replace("}}", "/**/}}"),
                    _ => m.replace("\"id\":", "\"id\":0"),
                })
            }
            // almost a cancel
            69 | 70 => none(&match self.r.below(11) {
                0 => json!({ "cancel": {"id": id} }),
                1 => json!({ "cancel_stream": {"id": id} }),
                2 => json!({ "CancelStream": {"id": id} }),
                3 => json!({ "cancelStream": {"stream": id} }),
                4 => json!({ "cancelStream": {"id": [id]} }),
                5 => json!({ "cancelStream": {"id": id as f64} }),
                6 => json!({ "cancelStream": {"id": null} }),
                7 => json!([{ "cancelStream": {"id": id} }]),
                8 => json!(["cancelStream", {"id": id}]),
                9 => json!({ "cancelStream": {"id": {"id": id}} }),
                _ => json!({ "unsubscribe": {"id": id} }),
            }
            .to_string()),
            71 => exn(json!({"id": if self.r.pct(70) { id as f64 } else { -0.0 }, "namespace": NS_A, "method": "add", "args": ok})),
            _ => (exec_text(&json!(id), NS_A, "add", &ok).replace("}}", "}"), None),
        };
        Msg::Bad { text, id: eid, tag }
    }
}

pub fn gen_sched(r: &mut Rng, flood: bool) -> SchedCfg {
    SchedCfg {
        policy: match r.below(10) {
            0..=3 => Policy::Random,
            4..=6 => Policy::Pct(*r.pick(&[5, 30, 120])),
            7 => Policy::Lifo,
            _ => Policy::Fifo,
        },
        poll_us: if flood { *r.pick(&[50, 200]) } else { *r.pick(&[1, 5, 20, 100]) },
        event_interval: *r.pick(&[1, 3, 13, 61]),
        par: if r.pct(25) { *r.pick(&[1, 3, 8, 30]) } else { 0 },
    }
}

pub fn gen_net(r: &mut Rng, frag: u32) -> NetCfg {
    let lat_min = *r.pick(&[0u64, 0, 1, 5, 30]);
    NetCfg {
        lat_min,
        lat_max: lat_min + *r.pick(&[0u64, 0, 1, 4, 25]),
        frag: if r.pct(frag) { 1 + r.below(2) as u8 } else { 0 },
        window: *r.pick(&[1usize << 20, 1 << 16, 4096, 300]),
    }
}

pub fn generate(p: &Profile, seed: u64) -> Plan {
    let mut rng = Rng::new(seed, 2);
    let r = &mut rng;
    // swarm: each run switches a random half of the optional behaviour off
    let mut q = p.clone();
    for f in [
        &mut q.slow, &mut q.finite, &mut q.endless, &mut q.flood, &mut q.cancel, &mut q.reuse, &mut q.malformed,
        &mut q.brittle, &mut q.panics, &mut q.big, &mut q.stall,
    ] {
        // behaviour the profile is about is kept more often
        let keep = if *f >= 14 { 85 } else { 55 };
        if !r.pct(keep) {
            *f = 0;
        }
    }
    let mode = [Mode::Axum, Mode::Proxy, Mode::Raw][r.weighted(&q.modes)];
    let mut sched = gen_sched(r, q.flood > 0);
    let n = r.range(q.sessions.0, q.sessions.1) as usize;
    let leavers = r.below(3); // 0: nobody, otherwise by percentage
    let mut sessions = Vec::new();
    let horizon = *r.pick(&[0u64, 5, 50, 400]);
    // some runs are out of proportion in one respect
    let special = r.below(100) as u32;
    let crowd = special < q.crowd;
    let long = !crowd && special < q.crowd + q.long;
    let many = !crowd && !long && special < q.crowd + q.long + q.many;
    let slower = if long { *r.pick(&[1000u64, 4000, 10_000]) } else { 1 };
    let n = if many { *r.pick(&[20usize, 40, 90, 160]) } else { n };
    if many {
        q.ops = (1, 3);
        q.flood = 0;
        q.stall = 0;
        q.big = 0;
        sched.poll_us = 1;
    }
    if crowd {
        q.flood = 0;
        sched.poll_us = *r.pick(&[1, 5]);
    }
    if long {
        q.flood = 0;
        q.soak = 0;
    }
    let huge = q.big > 0 && r.pct(4);
    let crowd_at = r.below(n);
    let mut tag = 0u64;
    for si in 0..n {
        let net = gen_net(r, q.frag);
        let mut g = Gen { r, p: &q, tag, slower, huge };
        let n_ops = g.r.range(q.ops.0, q.ops.1);
        let mut ops: Vec<Op> = Vec::new();
        let mut next_id = g.r.range(0, 2);
        if g.r.pct(4) {
            next_id = *g.r.pick(&[u64::MAX - 4000, (1 << 53) - 2, (1 << 32) - 3]);
        }
        let mut known: Vec<u64> = vec![]; // ids of streams started on this session
        let mut calls: Vec<u64> = vec![];
        let mut same: Vec<u64> = vec![]; // never used for another stream
        for _ in 0..n_ops {
            let w = [
                q.calls, q.slow, q.finite, q.endless, q.flood, q.cancel, q.reuse, q.malformed, q.brittle, q.panics,
                q.big, q.stall, 14, 10, 3,
            ];
            let fresh = |next_id: &mut u64, r: &mut Rng| {
                let id = *next_id;
                *next_id += if r.pct(85) { 1 } else { 1 + r.range(0, 3) };
                id
            };
            let msg = match g.r.weighted(&w) {
                0 => {
                    // calls and streams do not mind sharing an id
                    let id = match g.r.below(60) {
                        0 if !known.is_empty() => *g.r.pick(&known),
                        1 if !calls.is_empty() => *g.r.pick(&calls),
                        2 if !same.is_empty() => *g.r.pick(&same),
                        _ => fresh(&mut next_id, g.r),
                    };
                    calls.push(id);
                    Some(g.call(id, false))
                }
                1 => {
                    let id = fresh(&mut next_id, g.r);
                    calls.push(id);
                    Some(g.slow(id))
                }
                2 => {
                    let id = fresh(&mut next_id, g.r);
                    if g.r.pct(20) {
                        same.push(id);
                        Some(g.stream(id, 7))
                    } else {
                        known.push(id);
                        let k = g.r.below(2);
                        Some(g.stream(id, k))
                    }
                }
                3 => {
                    let id = fresh(&mut next_id, g.r);
                    known.push(id);
                    let k = 2 + g.r.below(2);
                    Some(g.stream(id, k))
                }
                4 => {
                    let id = fresh(&mut next_id, g.r);
                    known.push(id);
                    Some(g.stream(id, 4))
                }
                5 => {
                    let id = match g.r.below(10) {
                        0 => 999_999,
                        1 if !calls.is_empty() => *g.r.pick(&calls),
                        2 | 3 if !same.is_empty() => *g.r.pick(&same),
                        _ if !known.is_empty() => *g.r.pick(&known),
                        _ => g.r.range(0, 6),
                    };
                    Some(Msg::Cancel { id })
                }
                6 if !known.is_empty() => {
                    let id = *g.r.pick(&known);
                    let k = g.r.below(4);
                    Some(g.stream(id, k))
                }
                7 => {
                    // also with the id of a stream or call that goes on
                    let id = match g.r.below(10) {
                        0..=2 if !known.is_empty() => *g.r.pick(&known),
                        3 if !same.is_empty() => *g.r.pick(&same),
                        4 if !calls.is_empty() => *g.r.pick(&calls),
                        _ => fresh(&mut next_id, g.r),
                    };
                    if g.r.pct(85) {
                        Some(g.bad(id))
                    } else {
                        let tag = g.tag();
                        let text = match g.r.below(6) {
                            0 => "".into(),
                            1 => "\u{0}\u{1}".into(),
                            2 => json!({"cancelStream": {"id": id}}).to_string(),
                            3 => exec_text(&json!(id), NS_A, "tick", &json!([tag, 50])),
                            _ => exec_text(&json!(id), NS_A, "add", &json!([tag, 1])),
                        };
                        Some(if g.r.pct(60) { Msg::Binary { text, tag } } else { Msg::Control { ping: g.r.pct(60), text, tag } })
                    }
                }
                8 => {
                    let id = fresh(&mut next_id, g.r);
                    Some(if g.r.pct(50) {
                        g.stream(id, 5)
                    } else {
                        let tag = g.tag();
                        Msg::Call { id, tag, ns: NS_A.into(), method: "brittle".into(), args: json!([tag, g.r.pct(70)]) }
                    })
                }
                9 => {
                    let id = fresh(&mut next_id, g.r);
                    Some(if g.r.pct(40) {
                        g.stream(id, 6)
                    } else {
                        let tag = g.tag();
                        if g.r.pct(15) { Msg::Call { id, tag, ns: NS_A.into(), method: "dud".into(), args: json!([tag]) } } else { Msg::Call { id, tag, ns: NS_A.into(), method: "boom".into(), args: json!([tag, g.r.below(6)]) } }
                    })
                }
                10 if net.frag < 2 && net.window > if huge { 60_000 } else { 1000 } => {
                    let id = fresh(&mut next_id, g.r);
                    calls.push(id);
                    Some(g.call(id, true))
                }
                11 => {
                    let ms = *g.r.pick(&[50u64, 1000, 90_000]);
                    ops.push(Op::Stall(ms));
                    None
                }
                12 => {
                    let k = *g.r.pick(&[1u64, 3, 10, 40, 150]);
                    ops.push(Op::Sleep(g.r.range(0, k) * slower));
                    None
                }
                13 => {
                    ops.push(Op::Await);
                    None
                }
                _ => {
                    let k = g.r.range(2, 6);
                    let mut v = vec![];
                    for _ in 0..k {
                        let id = fresh(&mut next_id, g.r);
                        calls.push(id);
                        v.push(if g.r.pct(70) { g.call(id, false) } else { g.slow(id) });
                    }
                    if q.endless > 0 && g.r.pct(50) {
                        let id = fresh(&mut next_id, g.r);
                        known.push(id);
                        let kind = g.r.below(4);
                        v.push(g.stream(id, kind));
                        if q.cancel > 0 && g.r.pct(50) {
                            v.push(Msg::Cancel { id });
                        }
                    }
                    ops.push(Op::Burst(v));
                    None
                }
            };
            if let Some(m) = msg {
                ops.push(if g.r.pct(6) && m.text().is_some() { Op::SendSplit(m, 1 + g.r.below(4)) } else { Op::Send(m) });
            }
        }
        if crowd && si == crowd_at {
            let small = net.frag > 1 || net.window < 1000;
            let k = if small { *g.r.pick(&[40usize, 130]) } else { *g.r.pick(&[40usize, 70, 130, 300, 1100, 2600]) };
            // 6, 7: nonsense, of one kind or another; 8, 9: failures
            let kinds: Vec<usize> = (0..6)
                .chain((q.malformed > 20).then_some([6, 7, 6, 7, 6, 7]).into_iter().flatten())
                .chain((q.brittle > 20 && q.panics > 10).then_some([8, 9, 8, 9, 8, 9]).into_iter().flatten())
                .collect();
            let kind = *g.r.pick(&kinds);
            let one = g.r.below(1000) as u64;
            let mut v = vec![];
            let mut ids = vec![];
            for _ in 0..k {
                let id = next_id;
                next_id += 1;
                let w = match kind {
                    0 => 0,
                    1 => g.r.below(2),
                    2 => 2,
                    3 => 3,
                    4 => 1 + g.r.below(2),
                    6 => 6,
                    7 => [0, 6, 6, 6][g.r.below(4)],
                    8 => [8, 9, 10, 11][one as usize % 4],
                    9 => [0, 8, 9, 10, 11][g.r.below(5)],
                    _ => g.r.below(4),
                };
                v.push(match w {
                    6 => g.bad(id),
                    8 => {
                        let tag = g.tag();
                        Msg::Call { id, tag, ns: NS_A.into(), method: "brittle".into(), args: json!([tag, g.r.pct(70)]) }
                    }
                    9 => {
                        let tag = g.tag();
                        if g.r.pct(15) { Msg::Call { id, tag, ns: NS_A.into(), method: "dud".into(), args: json!([tag]) } } else { Msg::Call { id, tag, ns: NS_A.into(), method: "boom".into(), args: json!([tag, g.r.below(6)]) } }
                    }
                    10 => g.stream(id, 5),
                    11 => g.stream(id, 6),
                    0 => g.call(id, false),
                    1 => {
                        // one item each
                        let tag = g.tag();
                        Msg::Stream { id, tag, ns: NS_A.into(), method: "count".into(), args: json!([tag, 2, 1]) }
                    }
                    2 => {
                        ids.push(id);
                        g.stream(id, 3)
                    }
                    _ => {
                        ids.push(id);
                        let tag = g.tag();
                        Msg::Stream { id, tag, ns: NS_A.into(), method: "tick".into(), args: json!([tag, 2000]) }
                    }
                });
            }
            let at = g.r.below(ops.len() + 1);
            ops.insert(at, Op::Burst(v));
            if !ids.is_empty() && g.r.pct(60) {
                let at = at + 1 + g.r.below(ops.len() - at);
                ops.insert(at, Op::Burst(ids.into_iter().map(|id| Msg::Cancel { id }).collect()));
            }
        }
        tag = g.tag;
        let leave = if leavers > 0 && r.pct(q.leave) {
            match r.below(16) {
                0..=2 => Leave::Close,
                3..=5 => Leave::Fin,
                6..=8 => Leave::Rst,
                9..=11 => Leave::Vanish,
                12 | 13 => Leave::MidFrame(r.range(1, 40) as usize, r.pct(50)),
                14 => Leave::Handshake(r.range(0, 180) as usize, r.pct(50)),
                _ => Leave::Garbage,
            }
        } else {
            Leave::Stay
        };
        let start = if si == 0 { 0 } else { r.range(0, horizon) };
        sessions.push(Session { start, net, ops, leave });
    }
    let soak = if r.pct(q.soak) { *r.pick(&[100u32, 100, 200, 200, 101, 103, 104, 105, 106, 107, 107]) } else { 0 };
    let churn = if soak == 0 && mode != Mode::Raw && r.pct(q.churn) { *r.pick(&[100u32, 100, 200, 200, 101, 103, 104, 105, 106, 107, 107]) } else { 0 };
    if soak + churn > 0 {
        // its steps are not meant to be held up
        sched.par = 0;
    }
    let visitors = (mode != Mode::Raw && (r.below(1000) as u32) < q.visitors).then(|| Visitors {
        at: *r.pick(&[0u64, 5, 20, 100]),
        n: if mode == Mode::Axum { *r.pick(&[20u32, 120, 300]) } else { *r.pick(&[20u32, 300, 1000, 1000, 3000, 70_000]) },
        say: r.below(3) as u8,
    });
    if visitors.is_some() {
        // someone has to be there before them and after them
        sched.par = 0;
        let n = sessions.len();
        for s in sessions.iter_mut().skip(1 + n / 3) {
            s.start += 100 + r.range(0, 100);
        }
    }
    Plan { mode, sched, sessions, server_first: r.pct(20), soak, churn, visitors }
}

/// Smaller variants of a plan, boldest first.
pub fn shrink(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        out.push(q);
    };
    if p.sessions.len() > 1 {
        for i in 0..p.sessions.len() {
            push(&|q| {
                q.sessions.remove(i);
            });
        }
    }
    for (i, s) in p.sessions.iter().enumerate() {
        let n = s.ops.len();
        let mut len = n;
        while len >= 1 {
            let mut at = 0;
            while at + len <= n {
                push(&|q| {
                    q.sessions[i].ops.drain(at..at + len);
                });
                at += len;
            }
            len /= 2;
        }
        for (k, o) in s.ops.iter().enumerate() {
            if let Op::Burst(v) = o {
                let mut len = v.len() / 2;
                while len >= 1 && v.len() / len < 40 {
                    for b in (0..v.len()).step_by(len) {
                        push(&|q| {
                            if let Op::Burst(v) = &mut q.sessions[i].ops[k] {
                                v.drain(b..(b + len).min(v.len()));
                            }
                        });
                    }
                    len /= 2;
                }
            }
            if let Op::SendSplit(m, _) = o {
                push(&|q| q.sessions[i].ops[k] = Op::Send(m.clone()));
            }
        }
    }
    if p.churn > 0 {
        push(&|q| q.churn = 0);
    }
    if let Some(v) = p.visitors {
        push(&|q| q.visitors = None);
        for n in [v.n / 4, v.n / 2, v.n * 3 / 4, v.n * 9 / 10] {
            if n > 0 && n < v.n {
                push(&|q| q.visitors = Some(Visitors { n, ..v }));
            }
        }
    }
    if p.soak > 0 {
        push(&|q| q.soak = 0);
    }
    for i in 0..p.sessions.len() {
        if p.sessions[i].leave != Leave::Stay {
            push(&|q| q.sessions[i].leave = Leave::Stay);
            if p.sessions[i].leave != Leave::Fin {
                push(&|q| q.sessions[i].leave = Leave::Fin);
            }
        }
        if p.sessions[i].net != NetCfg::default() {
            push(&|q| q.sessions[i].net = NetCfg::default());
        }
        if p.sessions[i].start > 0 {
            push(&|q| q.sessions[i].start = 0);
        }
    }
    if p.mode == Mode::Axum {
        push(&|q| q.mode = Mode::Proxy);
    }
    if p.server_first {
        push(&|q| q.server_first = false);
    }
    if p.sched.par > 0 {
        push(&|q| q.sched.par = 0);
    }
    let plain = SchedCfg { policy: Policy::Fifo, poll_us: 1, event_interval: 61, par: p.sched.par };
    if p.sched != plain {
        push(&|q| q.sched = plain.clone());
    }
    out
}
