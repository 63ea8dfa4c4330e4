//! The recorded history of one run.
use crate::rt;
use serde_json::Value;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Ev {
    ExecStart { gen: u32, tag: u64, what: &'static str },
    /// state effect of a method on its namespace's counter
    ExecEnd { gen: u32, tag: u64, val: Value },
    /// a method body was dropped before it finished
    ExecDropped { gen: u32, tag: u64 },
    StreamNew { gen: u32, tag: u64, kind: &'static str },
    /// `bad`: the item cannot be serialised
    Item { tag: u64, idx: u64, bad: bool },
    StreamEnd { tag: u64 },
    StreamDrop { tag: u64 },
    StreamPanic { tag: u64 },
    /// produced a great many items without giving way to anything else
    Starved { tag: u64 },
    NsDrop { gen: u32, ns: &'static str },
    /// client side
    Up { s: usize },
    Sent { s: usize, idx: usize },
    Got { s: usize, msg: Value, raw_bad: bool },
    Down { s: usize, how: String },
    Note(String),
    Js(Value),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub t: u64,
    pub ev: Ev,
}

thread_local! {
    static LOG: RefCell<Vec<Rec>> = const { RefCell::new(Vec::new()) };
}

pub fn clear() {
    LOG.with(|l| l.borrow_mut().clear())
}
pub fn push(ev: Ev) {
    // guards are also dropped while the runtime is torn down; that is no longer part of the run
    let t = rt::now_ms();
    let _ = LOG.try_with(|l| l.borrow_mut().push(Rec { t, ev }));
}
pub fn note(s: impl Into<String>) {
    push(Ev::Note(s.into()))
}
pub fn take() -> Vec<Rec> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn with<R>(f: impl FnOnce(&[Rec]) -> R) -> R {
    LOG.with(|l| f(&l.borrow()))
}

thread_local! {
    static SOAK_AT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// forget what was recorded since the soak began, so that records do not count as retained memory
pub fn begin_soak() {
    SOAK_AT.with(|a| a.set(LOG.with(|l| l.borrow().len())));
}
pub fn drop_soak() {
    let n = SOAK_AT.with(|a| a.get());
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.truncate(n);
        l.shrink_to_fit();
    });
}
