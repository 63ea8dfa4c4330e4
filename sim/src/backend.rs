//! The "user code" served in the simulations: namespaces built with zod's own macros whose bodies
//! record what happens to them.
use crate::log::{self, Ev};
use crate::rt;
use futures::Stream;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::pin::Pin;
use std::task::{Context, Poll};
use zod::{rpc, Namespace, Zod};

/// Items produced by one stream within a single scheduler step before it counts as starvation.
pub const STARVE_LIMIT: u64 = 4000;

#[derive(Debug, Clone, Default, Serialize, Deserialize, Zod, PartialEq)]
#[zod(namespace = "Alpha")]
pub struct Point {
    pub x: i32,
    pub label: String,
    pub inner: Inner,
}

#[derive(Debug, Clone, Default, Serialize, Deserialize, Zod, PartialEq)]
#[zod(namespace = "Beta")]
pub struct Inner {
    pub on: bool,
    pub parts: Vec<Option<u16>>,
}

#[derive(Debug, Clone, Serialize, Deserialize, Zod, PartialEq)]
#[zod(namespace = "Alpha")]
pub enum Shape {
    Dot,
    Circle { radius: usize },
    Line(usize, usize),
}

/// Serialisation fails when `fail` is set.
#[derive(Debug, Clone)]
pub struct Brittle {
    pub tag: u64,
    pub idx: u64,
    pub fail: bool,
    /// panics instead
    pub explode: bool,
}
impl Serialize for Brittle {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        rt::point();
        if self.explode {
            panic!("sim: item of stream {} panics", self.tag);
        }
        if self.fail {
            return Err(serde::ser::Error::custom("brittle value"));
        }
        (self.tag, self.idx).serialize(s)
    }
}
impl zod::ZodType for Brittle {
    fn schema() -> String {
        <(u64, u64)>::schema()
    }
    fn type_def() -> zod::TsTypeDef {
        <(u64, u64)>::type_def()
    }
}

/// A value that says nothing about where it comes from: item `idx` of a stream of this `kind`.
pub fn plain(kind: u64, idx: u64) -> serde_json::Value {
    match kind % 6 {
        0 => json!(7),
        1 => json!(null),
        2 => json!(idx / 3),
        3 => json!(if idx / 2 % 2 == 0 { "on" } else { "off" }),
        4 => [json!([]), json!({}), json!([[]]), json!({"id": 0, "data": []})][(idx / 2 % 4) as usize].clone(),
        _ => [json!(null), json!(false), json!(0), json!(""), json!(-1.5), json!(true)][(idx % 6) as usize].clone(),
    }
}

pub struct Plain(pub serde_json::Value);
impl Serialize for Plain {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        rt::point();
        self.0.serialize(s)
    }
}
impl zod::ZodType for Plain {
    fn schema() -> String {
        "z.any()".into()
    }
    fn type_def() -> zod::TsTypeDef {
        zod::TsTypeDef::Type("any".into())
    }
}

thread_local! {
    /// streams alive per owner session, for the bounded-retention check
    static LIVE: RefCell<BTreeMap<u64, u32>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn live_streams() -> Vec<u64> {
    LIVE.with(|l| l.borrow().keys().copied().collect())
}
pub fn reset_live() {
    LIVE.with(|l| l.borrow_mut().clear())
}

struct NsGuard {
    gen: u32,
    ns: &'static str,
}
impl Drop for NsGuard {
    fn drop(&mut self) {
        log::push(Ev::NsDrop { gen: self.gen, ns: self.ns })
    }
}

/// Logs start and end of a method body; a body that is dropped half-way shows up as such.
struct Body {
    gen: u32,
    tag: u64,
    done: bool,
}
impl Body {
    fn new(gen: u32, tag: u64, what: &'static str) -> Self {
        log::push(Ev::ExecStart { gen, tag, what });
        rt::point();
        Body { gen, tag, done: false }
    }
    fn end(mut self, val: serde_json::Value) {
        rt::point();
        self.done = true;
        log::push(Ev::ExecEnd { gen: self.gen, tag: self.tag, val });
    }
}
impl Drop for Body {
    fn drop(&mut self) {
        if !self.done {
            log::push(Ev::ExecDropped { gen: self.gen, tag: self.tag })
        }
    }
}

struct StreamGuard {
    tag: u64,
}
impl StreamGuard {
    fn new(gen: u32, tag: u64, kind: &'static str) -> Self {
        log::push(Ev::StreamNew { gen, tag, kind });
        LIVE.with(|l| *l.borrow_mut().entry(tag).or_default() += 1);
        StreamGuard { tag }
    }
}
impl Drop for StreamGuard {
    fn drop(&mut self) {
        rt::point();
        log::push(Ev::StreamDrop { tag: self.tag });
        let _ = LIVE.try_with(|l| {
            let mut l = l.borrow_mut();
            if let Some(n) = l.get_mut(&self.tag) {
                *n -= 1;
                if *n == 0 {
                    l.remove(&self.tag);
                }
            }
        });
    }
}

#[derive(Clone, Copy)]
enum Pace {
    /// next item after this many ms (0: immediately ready)
    Every(u64),
    /// `n` ready items, then a pause
    Burst(u64, u64),
}

/// The one stream implementation behind all stream functions.
pub struct Src {
    guard: StreamGuard,
    next: u64,
    len: u64,
    /// after `len` items: end (true) or stay silent for ever (false)
    ends: bool,
    pace: Pace,
    bad_every: u64,
    panic_at: u64,
    sleep: Option<Pin<Box<tokio::time::Sleep>>>,
    step: u64,
    in_step: u64,
    over: bool,
}

impl Src {
    fn new(gen: u32, tag: u64, kind: &'static str, len: u64, ends: bool, pace: Pace) -> Self {
        Src {
            guard: StreamGuard::new(gen, tag, kind),
            next: 0,
            len,
            ends,
            pace,
            bad_every: 0,
            panic_at: u64::MAX,
            sleep: None,
            step: 0,
            in_step: 0,
            over: false,
        }
    }
}

impl Stream for Src {
    type Item = Brittle;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Brittle>> {
        if self.over {
            return Poll::Ready(None);
        }
        rt::point();
        if let Some(s) = &mut self.sleep {
            std::task::ready!(std::future::Future::poll(s.as_mut(), cx));
            self.sleep = None;
        }
        if self.next >= self.len {
            if self.ends {
                self.over = true;
                log::push(Ev::StreamEnd { tag: self.guard.tag });
                return Poll::Ready(None);
            }
            return Poll::Pending;
        }
        let step = dst_seam::polls();
        if step == self.step {
            self.in_step += 1;
            if self.in_step == STARVE_LIMIT {
                log::push(Ev::Starved { tag: self.guard.tag });
                self.over = true;
                return Poll::Ready(None);
            }
        } else {
            self.step = step;
            self.in_step = 0;
        }
        let idx = self.next;
        self.next += 1;
        let pause = match self.pace {
            Pace::Every(ms) => ms,
            Pace::Burst(n, ms) => {
                if self.next % n.max(1) == 0 {
                    ms
                } else {
                    0
                }
            }
        };
        if pause > 0 {
            self.sleep = Some(Box::pin(tokio::time::sleep(std::time::Duration::from_millis(pause))));
        }
        if idx == self.panic_at {
            self.over = true;
            log::push(Ev::StreamPanic { tag: self.guard.tag });
            match self.guard.tag % 4 {
                1 => std::panic::panic_any(self.guard.tag),
                // while it is serialised
                2 => return Poll::Ready(Some(Brittle { tag: self.guard.tag, idx, fail: false, explode: true })),
                _ => {}
            }
            panic!("sim: stream {} panics", self.guard.tag);
        }
        let bad = self.bad_every > 0 && idx % self.bad_every == self.bad_every - 1;
        log::push(Ev::Item { tag: self.guard.tag, idx, bad });
        rt::point();
        Poll::Ready(Some(Brittle { tag: self.guard.tag, idx, fail: bad, explode: false }))
    }
}

#[derive(Namespace)]
pub struct Alpha {
    gen: u32,
    sum: i64,
    pings: u64,
    _g: NsGuard,
}

#[derive(Namespace)]
pub struct Beta {
    gen: u32,
    sum: i64,
    _g: NsGuard,
}

#[derive(Namespace)]
#[namespace(name = "Gam_ma")]
pub struct Gamma {
    gen: u32,
    n: u64,
    _g: NsGuard,
}

/// 0 is "no tag": zero-argument methods
#[rpc::namespace]
impl Alpha {
    /// adds at once
    pub async fn add(&mut self, tag: u64, n: i32) -> (u64, i64) {
        let b = Body::new(self.gen, tag, "add");
        self.sum += n as i64;
        let r = (tag, self.sum);
        b.end(json!(r));
        r
    }
    /// reads, waits, writes back: loses updates if anything overlaps
    pub async fn slow(&mut self, tag: u64, n: i32, ms: u32, yields: u32) -> (u64, i64) {
        let b = Body::new(self.gen, tag, "slow");
        let old = self.sum;
        for _ in 0..yields {
            tokio::task::yield_now().await;
        }
        if ms > 0 {
            rt::sleep_ms(ms as u64).await;
        }
        self.sum = old + n as i64;
        let r = (tag, self.sum);
        b.end(json!(r));
        r
    }
    pub async fn echo(&mut self, tag: u64, text: String) -> (u64, String) {
        let b = Body::new(self.gen, tag, "echo");
        let r = (tag, text);
        b.end(json!(r));
        r
    }
    pub async fn ping(&mut self) -> u64 {
        self.pings += 1;
        let b = Body::new(self.gen, 0, "Alpha.ping");
        let r = self.pings;
        b.end(json!(r));
        r
    }
    pub async fn mix(&mut self, tag: u64, p: Point, s: Vec<Shape>, o: Option<String>) -> (u64, Point, Vec<Shape>, Option<String>) {
        let b = Body::new(self.gen, tag, "mix");
        let r = (tag, p, s, o);
        b.end(json!(r));
        r
    }
    pub async fn silent(&mut self, tag: u64) {
        let b = Body::new(self.gen, tag, "silent");
        b.end(json!(null));
    }
    /// a result that tells nothing about the call
    pub async fn raw(&mut self, tag: u64, kind: u32, idx: u32) -> Plain {
        let b = Body::new(self.gen, tag, "raw");
        let r = plain(kind as u64, idx as u64);
        b.end(r.clone());
        Plain(r)
    }
    /// result cannot be serialised
    pub async fn brittle(&mut self, tag: u64, fail: bool) -> Brittle {
        let b = Body::new(self.gen, tag, "brittle");
        b.end(json!((tag, 0)));
        Brittle { tag, idx: 0, fail, explode: false }
    }
    /// mode 0: panics at once, 1: after waiting, 2: after having changed the state, 3, 4: with
    /// something that is no text, 5: when its result is serialised
    pub async fn boom(&mut self, tag: u64, mode: u8) -> Brittle {
        let _b = Body::new(self.gen, tag, "boom");
        if mode == 1 {
            rt::sleep_ms(3).await;
        }
        match mode {
            3 => std::panic::panic_any(tag),
            4 => std::panic::panic_any(Box::<dyn std::error::Error + Send + Sync>::from("sim: an error")),
            5 => return Brittle { tag, idx: 0, fail: false, explode: true },
            _ => panic!("sim: method {tag} panics"),
        }
    }
    /// a stream that cannot be had: panics when it is asked for
    pub fn dud(&mut self, tag: u64) -> impl Stream<Item = Brittle> {
        let _b = Body::new(self.gen, tag, "dud");
        if tag != u64::MAX {
            panic!("sim: stream {tag} cannot be had");
        }
        Src::new(self.gen, tag, "dud", 0, true, Pace::Every(0))
    }
    /// `len` items, `gap` ms apart, then end
    pub fn count(&mut self, tag: u64, len: u32, gap: u32) -> impl Stream<Item = Brittle> {
        Src::new(self.gen, tag, "count", len as u64, true, Pace::Every(gap as u64))
    }
    /// endless regular stream
    pub fn tick(&mut self, tag: u64, gap: u32) -> impl Stream<Item = Brittle> {
        Src::new(self.gen, tag, "tick", u64::MAX, false, Pace::Every(gap.max(1) as u64))
    }
    /// items that repeat themselves
    pub fn same(&mut self, tag: u64, len: u32, gap: u32, kind: u32) -> impl Stream<Item = Plain> {
        let s = Src::new(self.gen, tag, "same", len as u64, true, Pace::Every(gap as u64));
        futures::StreamExt::map(s, move |b| Plain(plain(kind as u64, b.idx)))
    }
    /// bursts of ready items
    pub fn burst(&mut self, tag: u64, len: u32, n: u32, gap: u32) -> Pin<Box<dyn Stream<Item = Brittle> + Send>> {
        Box::pin(Src::new(self.gen, tag, "burst", len as u64, true, Pace::Burst(n as u64, gap as u64)))
    }
    /// never yields anything and never ends
    pub fn never(&mut self, tag: u64) -> impl Stream<Item = Brittle> {
        Src::new(self.gen, tag, "never", 0, false, Pace::Every(0))
    }
    /// `len` items, always ready, then silent
    pub fn flood(&mut self, tag: u64, len: u32) -> impl Stream<Item = Brittle> {
        Src::new(self.gen, tag, "flood", len as u64, false, Pace::Every(0))
    }
    /// every `bad`-th item cannot be serialised
    pub fn flaky(&mut self, tag: u64, len: u32, gap: u32, bad: u32) -> impl Stream<Item = Brittle> {
        let mut s = Src::new(self.gen, tag, "flaky", len as u64, true, Pace::Every(gap as u64));
        s.bad_every = bad as u64;
        s
    }
    /// panics instead of producing item `at`
    pub fn bomb(&mut self, tag: u64, at: u32, gap: u32) -> impl Stream<Item = Brittle> {
        let mut s = Src::new(self.gen, tag, "bomb", u64::MAX, false, Pace::Every(gap as u64));
        s.panic_at = at as u64;
        s
    }
}

#[rpc::namespace]
impl Beta {
    pub async fn add(&mut self, tag: u64, n: i32) -> (u64, i64) {
        let b = Body::new(self.gen, tag, "Beta.add");
        self.sum += n as i64;
        let r = (tag, self.sum);
        b.end(json!(r));
        r
    }
    pub async fn slow(&mut self, tag: u64, n: i32, ms: u32, yields: u32) -> (u64, i64) {
        let b = Body::new(self.gen, tag, "Beta.slow");
        let old = self.sum;
        if ms > 0 {
            rt::sleep_ms(ms as u64).await;
        }
        for _ in 0..yields {
            tokio::task::yield_now().await;
        }
        self.sum = old + n as i64;
        let r = (tag, self.sum);
        b.end(json!(r));
        r
    }
    pub async fn ping(&mut self) -> String {
        let b = Body::new(self.gen, 0, "Beta.ping");
        let r = format!("beta {}", self.sum);
        b.end(json!(r));
        r
    }
    pub fn count(&mut self, tag: u64, len: u32, gap: u32) -> Pin<Box<dyn Stream<Item = Brittle> + Send>> {
        Box::pin(Src::new(self.gen, tag, "Beta.count", len as u64, true, Pace::Every(gap as u64)))
    }
    pub fn beat(&mut self) -> impl Stream<Item = Brittle> {
        Src::new(self.gen, 0, "Beta.beat", 3, true, Pace::Every(5))
    }
}

#[rpc::namespace]
impl Gamma {
    pub async fn add(&mut self, tag: u64, n: i32) -> (u64, i64) {
        let b = Body::new(self.gen, tag, "Gamma.add");
        self.n += 1;
        let r = (tag, 1_000_000 + n as i64);
        b.end(json!(r));
        r
    }
    pub async fn only_here(&mut self, tag: u64) -> (u64, String) {
        let b = Body::new(self.gen, tag, "Gamma.only_here");
        self.n += 1;
        let r = (tag, "gamma".to_string());
        b.end(json!(r));
        r
    }
    pub fn count(&mut self, tag: u64, len: u32, gap: u32) -> impl Stream<Item = Brittle> {
        Src::new(self.gen, tag, "Gamma.count", len as u64, true, Pace::Every(gap as u64))
    }
}

/// Members and arguments with names that mean something in the generated client or in TypeScript.
#[derive(Namespace)]
pub struct Odd {
    gen: u32,
    _g: NsGuard,
}

#[rpc::namespace]
impl Odd {
    pub async fn request(&mut self, tag: u64, request: u32, z: i32) -> (u64, u32, i32) {
        let b = Body::new(self.gen, tag, "Odd.request");
        let r = (tag, request, z);
        b.end(json!(r));
        r
    }
    pub async fn r#move(&mut self, new: u64, r#type: String, arguments: i32) -> (u64, String, i32) {
        let b = Body::new(self.gen, new, "Odd.move");
        let r = (new, r#type, arguments);
        b.end(json!(r));
        r
    }
    /// `None` is undefined in TypeScript, here in front of other arguments and at the end
    pub async fn opt(&mut self, tag: u64, default: Option<u32>, default_: i32, mut class: Option<String>) -> (u64, Option<u32>, i32, Option<String>) {
        let b = Body::new(self.gen, tag, "Odd.opt");
        let r = (tag, default, default_, class.take());
        b.end(json!(r));
        r
    }
    /// names the generated client might have used for itself
    pub async fn __request(&mut self, tag: u64, ___request: u32, ____subscribe: i32) -> (u64, u32, i32) {
        let b = Body::new(self.gen, tag, "Odd.__request");
        let r = (tag, ___request, ____subscribe);
        b.end(json!(r));
        r
    }
    pub async fn __subscribe(&mut self, tag: u64, ___subscribe: u32, __request: i32) -> (u64, u32, i32) {
        let b = Body::new(self.gen, tag, "Odd.__subscribe");
        let r = (tag, ___subscribe, __request);
        b.end(json!(r));
        r
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn wordsa(&mut self, tag: u64, r#await: u64, r#continue: u64, r#enum: u64, finally: u64, r#in: u64, package: u64, r#static: u64, r#try: u64, with: u64) -> Vec<u64> {
        let b = Body::new(self.gen, tag, "Odd.wordsa");
        let r = vec![tag, r#await, r#continue, r#enum, finally, r#in, package, r#static, r#try, with];
        b.end(json!(r));
        r
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn wordsb(&mut self, tag: u64, r#break: u64, debugger: u64, eval: u64, r#for: u64, instanceof: u64, private: u64, switch: u64, r#typeof: u64, r#yield: u64) -> Vec<u64> {
        let b = Body::new(self.gen, tag, "Odd.wordsb");
        let r = vec![tag, r#break, debugger, eval, r#for, instanceof, private, switch, r#typeof, r#yield];
        b.end(json!(r));
        r
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn wordsc(&mut self, tag: u64, case: u64, delete: u64, export: u64, r#if: u64, interface: u64, protected: u64, this: u64, var: u64, __request: u64) -> Vec<u64> {
        let b = Body::new(self.gen, tag, "Odd.wordsc");
        let r = vec![tag, case, delete, export, r#if, interface, protected, this, var, __request];
        b.end(json!(r));
        r
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn wordsd(&mut self, tag: u64, catch: u64, r#do: u64, extends: u64, implements: u64, r#let: u64, public: u64, throw: u64, void: u64, __subscribe: u64) -> Vec<u64> {
        let b = Body::new(self.gen, tag, "Odd.wordsd");
        let r = vec![tag, catch, r#do, extends, implements, r#let, public, throw, void, __subscribe];
        b.end(json!(r));
        r
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn wordse(&mut self, tag: u64, r#const: u64, r#else: u64, r#false: u64, import: u64, null: u64, r#return: u64, r#true: u64, r#while: u64, undefined: u64) -> Vec<u64> {
        let b = Body::new(self.gen, tag, "Odd.wordse");
        let r = vec![tag, r#const, r#else, r#false, import, null, r#return, r#true, r#while, undefined];
        b.end(json!(r));
        r
    }
    pub fn subscribe(&mut self, tag: u64, subscribe: u32, function: u32) -> impl Stream<Item = Brittle> {
        Src::new(self.gen, tag, "Odd.subscribe", subscribe as u64, true, Pace::Every(function as u64))
    }
}

#[derive(rpc::Backend)]
pub struct Bench(pub Alpha, pub Beta, pub Gamma, pub Odd);

pub fn bench(gen: u32) -> Bench {
    Bench(
        Alpha { gen, sum: 0, pings: 0, _g: NsGuard { gen, ns: "Alpha" } },
        Beta { gen, sum: 0, _g: NsGuard { gen, ns: "Beta" } },
        Gamma { gen, n: 0, _g: NsGuard { gen, ns: "Gamma" } },
        Odd { gen, _g: NsGuard { gen, ns: "Odd" } },
    )
}

/// A second backend in the same program: its members must not leak into `Bench`'s client.
pub mod other {
    use super::*;
    #[derive(Namespace)]
    pub struct Delta(pub u32);
    #[derive(Debug, Clone, Serialize, Deserialize, Zod)]
    #[zod(namespace = "Delta")]
    pub struct Foreign {
        pub v: usize,
    }
    #[rpc::namespace]
    impl Delta {
        pub async fn add(&mut self, f: Foreign) -> Foreign {
            self.0 += 1;
            f
        }
        pub async fn zap(&mut self) -> usize {
            self.0 as usize
        }
    }
    /// names that begin like, contain or differ by case only from those of `Bench`
    #[derive(Namespace)]
    pub struct Alph(pub u32);
    #[rpc::namespace]
    impl Alph {
        pub async fn add(&mut self, v: u32) -> u32 {
            v
        }
    }
    #[derive(Namespace)]
    pub struct AlphaBeta(pub u32);
    #[derive(Debug, Clone, Serialize, Deserialize, Zod)]
    #[zod(namespace = "AlphaBeta")]
    pub struct Point {
        pub v: usize,
    }
    #[rpc::namespace]
    impl AlphaBeta {
        pub async fn add(&mut self, p: Point) -> Point {
            p
        }
    }
    #[derive(Namespace)]
    #[namespace(name = "alpha")]
    pub struct Lower(pub u32);
    #[rpc::namespace]
    impl Lower {
        pub async fn add(&mut self, v: u32) -> u32 {
            v
        }
    }
    #[derive(rpc::Backend)]
    pub struct Near {
        pub a: Alph,
        pub b: AlphaBeta,
        pub c: Lower,
    }
    #[derive(rpc::Backend)]
    pub struct Other {
        pub delta: Delta,
        pub beta: Beta,
    }
}
