//! The one seam through which every source of nondeterminism is decided.
//!
//! Patched copies of tokio, futures-util and inventory (see /verif/patches) ask here; while no
//! simulator is installed on the calling thread they behave exactly as shipped.
use std::cell::{Cell, RefCell};

pub trait Chooser {
    /// pick one of `n` alternatives
    fn choose(&mut self, kind: &'static str, n: usize) -> usize;
    /// pick which of the runnable tasks (given by their ids, oldest first) is polled next
    fn pick_task(&mut self, ids: &[u64]) -> usize;
    /// the order in which the static registry `key` holds its `n` items
    fn permutation(&mut self, key: usize, n: usize) -> Vec<usize>;
}

thread_local! {
    static CHOOSER: RefCell<Option<Box<dyn Chooser>>> = const { RefCell::new(None) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static POLLS: Cell<u64> = const { Cell::new(0) };
    static CURRENT: Cell<u64> = const { Cell::new(0) };
    static POINT: Cell<Option<fn(&'static str)>> = const { Cell::new(None) };
}

pub fn install(c: Box<dyn Chooser>) {
    CHOOSER.with(|x| *x.borrow_mut() = Some(c));
    ACTIVE.with(|a| a.set(true));
    POLLS.with(|p| p.set(0));
    CURRENT.with(|p| p.set(0));
}

pub fn uninstall() -> Option<Box<dyn Chooser>> {
    let _ = ACTIVE.try_with(|a| a.set(false));
    let _ = POINT.try_with(|p| p.set(None));
    CHOOSER.try_with(|x| x.borrow_mut().take()).ok().flatten()
}

pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

/// 0 is always the "default" alternative.
pub fn choose(kind: &'static str, n: usize) -> usize {
    if n <= 1 || !active() {
        return 0;
    }
    CHOOSER
        .try_with(|x| match x.try_borrow_mut() {
            Ok(mut c) => c.as_mut().map(|c| c.choose(kind, n)).unwrap_or(0),
            Err(_) => 0,
        })
        .unwrap_or(0)
        .min(n - 1)
}

pub fn pick_task(ids: &[u64]) -> usize {
    if !active() {
        return 0;
    }
    let n = POLLS
        .try_with(|p| {
            p.set(p.get() + 1);
            p.get()
        })
        .unwrap_or(0);
    let _ = CURRENT.try_with(|c| c.set(n));
    CHOOSER
        .try_with(|x| match x.try_borrow_mut() {
            Ok(mut c) => c.as_mut().map(|c| c.pick_task(ids)).unwrap_or(0),
            Err(_) => 0,
        })
        .unwrap_or(0)
        .min(ids.len().saturating_sub(1))
}

pub fn permutation(key: usize, n: usize) -> Vec<usize> {
    let plain = || (0..n).collect::<Vec<_>>();
    if n <= 1 || !active() {
        return plain();
    }
    CHOOSER
        .try_with(|x| match x.try_borrow_mut() {
            Ok(mut c) => c.as_mut().map(|c| c.permutation(key, n)).unwrap_or_else(plain),
            Err(_) => plain(),
        })
        .unwrap_or_else(|_| plain())
}

/// the task poll that is under way, as a number
pub fn polls() -> u64 {
    CURRENT.try_with(|p| p.get()).unwrap_or(0)
}

/// what to do at every `point`
pub fn on_point(f: Option<fn(&'static str)>) {
    let _ = POINT.try_with(|p| p.set(f));
}

/// An operation that other threads can see is about to happen or has just happened: with more than
/// one worker thread, other tasks may run here, in the middle of a poll.
pub fn point(kind: &'static str) {
    let Some(f) = POINT.try_with(|p| p.get()).ok().flatten() else { return };
    if !active() || std::thread::panicking() {
        return;
    }
    let current = polls();
    f(kind);
    let _ = CURRENT.try_with(|c| c.set(current));
}
