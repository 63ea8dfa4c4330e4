//! One simulated execution: a fresh thread, tokio's current-thread runtime on a virtual clock, and
//! a chooser that decides every scheduling step, network delay and registry order.
use crate::rng::{fnv, Rng, FNV0};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::rc::Rc;
use std::time::Duration;
use tokio::time::Instant;

/// How the run queue is drained.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    Fifo,
    Random,
    Lifo,
    /// random priority per task, `n` permille chance per step to demote the running task
    Pct(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedCfg {
    pub policy: Policy,
    /// virtual cost of one task poll, in microseconds
    pub poll_us: u64,
    pub event_interval: u32,
    /// 0: one worker thread. Otherwise there is a second one: at one in `par` of the points where a
    /// poll touches something shared, other tasks are polled before it goes on.
    #[serde(default)]
    pub par: u32,
}

#[derive(Clone, Debug)]
pub enum Source {
    Seed(u64),
    Recorded(Rc<Vec<u32>>),
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct RunStats {
    pub polls: u64,
    pub choices: u64,
    pub sched_hash: u64,
    pub virtual_ms: u64,
    pub faults: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
}

pub struct Shared {
    pub fair: Cell<bool>,
    /// whether the registry order is a decision of this run
    pub permute: Cell<bool>,
    pub orders: Cell<u64>,
    pub par: Cell<u32>,
    /// polls under way inside one another
    pub nested: Cell<u32>,
    pub rec: RefCell<Vec<u32>>,
    pub pos: Cell<usize>,
    pub stats: RefCell<RunStats>,
}

struct SimChooser {
    src: Source,
    rng: Rng,
    cfg: SchedCfg,
    sh: Rc<Shared>,
    dense: HashMap<u64, u32>,
    prio: Vec<u32>,
    cost: u64,
    /// registry, generation, order
    perms: Vec<(usize, u64, Vec<usize>)>,
}

impl SimChooser {
    fn raw(&mut self, n: usize, f: impl FnOnce(&mut Self) -> usize) -> usize {
        let v = match &self.src {
            Source::Recorded(v) => v.get(self.sh.pos.get()).copied().unwrap_or(0) as usize % n,
            Source::Seed(_) => f(self),
        };
        self.sh.pos.set(self.sh.pos.get() + 1);
        self.sh.rec.borrow_mut().push(v as u32);
        v
    }
}

impl dst_seam::Chooser for SimChooser {
    fn choose(&mut self, kind: &'static str, n: usize) -> usize {
        let _ = kind;
        if self.sh.fair.get() {
            return 0;
        }
        self.raw(n, |s| s.rng.below(n))
    }

    fn permutation(&mut self, key: usize, n: usize) -> Vec<usize> {
        let plain: Vec<usize> = (0..n).collect();
        if !self.sh.permute.get() {
            return plain;
        }
        if let Some(v) = self.perms.iter().find(|(k, g, v)| *k == key && *g == self.sh.orders.get() && v.len() == n) {
            return v.2.clone();
        }
        let mut left = plain;
        let mut out = vec![];
        while !left.is_empty() {
            let m = left.len();
            let i = if m == 1 { 0 } else { self.raw(m, |s| s.rng.below(m)) };
            out.push(left.remove(i));
        }
        self.perms.push((key, self.sh.orders.get(), out.clone()));
        out
    }

    fn pick_task(&mut self, ids: &[u64]) -> usize {
        // every poll takes some virtual time, so an always-ready task cannot stop the clock
        // (what the other worker does meanwhile takes none of its own)
        if self.sh.nested.get() == 0 {
            self.cost += self.cfg.poll_us;
        }
        if self.cost >= 1000 {
            let ms = self.cost / 1000;
            self.cost %= 1000;
            tokio::time::dst_advance(Duration::from_millis(ms));
        }
        if self.sh.fair.get() {
            self.sh.stats.borrow_mut().polls += 1;
            return 0;
        }
        for id in ids {
            if !self.dense.contains_key(id) {
                let k = self.dense.len() as u32;
                self.dense.insert(*id, k);
                let p = self.rng.next() as u32;
                self.prio.push(p);
            }
        }
        let i = if ids.len() == 1 {
            0
        } else {
            self.raw(ids.len(), |s| match s.cfg.policy {
                Policy::Fifo => 0,
                Policy::Random => s.rng.below(ids.len()),
                Policy::Lifo => {
                    if s.rng.pct(20) {
                        s.rng.below(ids.len())
                    } else {
                        ids.len() - 1
                    }
                }
                Policy::Pct(demote) => {
                    if s.rng.pct(6) {
                        s.rng.below(ids.len())
                    } else {
                        let (i, k) = ids
                            .iter()
                            .enumerate()
                            .map(|(i, id)| (i, s.dense[id]))
                            .max_by_key(|(_, k)| s.prio[*k as usize])
                            .unwrap();
                        if s.rng.below(1000) < demote as usize {
                            s.prio[k as usize] = s.rng.next() as u32 >> 4;
                        }
                        i
                    }
                }
            })
        };
        let mut st = self.sh.stats.borrow_mut();
        st.polls += 1;
        st.sched_hash = fnv(st.sched_hash, self.dense[&ids[i]] as u64);
        i
    }
}

/// The other worker: while a poll is between two of its steps, other tasks are polled.
fn other_worker(_kind: &'static str) {
    let Some(sh) = SH.try_with(|s| s.borrow().clone()).ok().flatten() else { return };
    let par = sh.par.get() as usize;
    if par == 0 || sh.fair.get() || sh.nested.get() >= 2 {
        return;
    }
    // 0 is the default: go on
    if dst_seam::choose("par", par + 1) < par {
        return;
    }
    let n = 1 + dst_seam::choose("par-n", 4);
    sh.nested.set(sh.nested.get() + 1);
    for _ in 0..n {
        if !tokio::runtime::dst_step() {
            break;
        }
        *sh.stats.borrow_mut().faults.entry("mid-poll-switch".into()).or_default() += 1;
    }
    sh.nested.set(sh.nested.get() - 1);
}
/// whether a second worker takes part
pub fn parallel() -> bool {
    let sh = shared();
    sh.par.get() > 0 && !sh.fair.get()
}
/// a point of the harness's own code at which the other worker may run
pub fn point() {
    dst_seam::point("user")
}

thread_local! {
    static SH: RefCell<Option<Rc<Shared>>> = const { RefCell::new(None) };
    static T0: Cell<Option<Instant>> = const { Cell::new(None) };
    static ENTROPY: RefCell<Option<Rng>> = const { RefCell::new(None) };
    pub static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

pub fn shared() -> Rc<Shared> {
    SH.with(|s| s.borrow().clone().expect("no simulation on this thread"))
}
/// from now on: first-come first-served scheduling, no network faults
pub fn set_fair(v: bool) {
    shared().fair.set(v)
}
/// from now on, every static registry holds its items in a new order, the simulator's choice
pub fn set_permute(v: bool) {
    let sh = shared();
    sh.orders.set(sh.orders.get() + 1);
    sh.permute.set(v)
}
pub fn is_fair() -> bool {
    SH.with(|s| s.borrow().as_ref().map(|s| s.fair.get()).unwrap_or(true))
}
pub fn fault(kind: &str) {
    SH.with(|s| {
        if let Some(s) = &*s.borrow() {
            *s.stats.borrow_mut().faults.entry(kind.to_string()).or_default() += 1;
        }
    })
}
pub fn count(kind: &str, n: u64) {
    SH.with(|s| {
        if let Some(s) = &*s.borrow() {
            *s.stats.borrow_mut().counts.entry(kind.to_string()).or_default() += n;
        }
    })
}
pub fn choose(kind: &'static str, n: usize) -> usize {
    dst_seam::choose(kind, n)
}
/// virtual milliseconds since the start of the run
pub fn now_ms() -> u64 {
    T0.with(|t| match t.get() {
        Some(t0) => (Instant::now() - t0).as_millis() as u64,
        None => 0,
    })
}
pub async fn sleep_ms(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

/// Interposed for the whole process: std's hash map keys and every crate's entropy come from the
/// run's seed while a simulation is active on the calling thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let done = ENTROPY
        .try_with(|e| match e.try_borrow_mut() {
            Ok(mut e) => match e.as_mut() {
                Some(r) => {
                    let s = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
                    for b in s {
                        *b = r.next() as u8;
                    }
                    true
                }
                None => false,
            },
            Err(_) => false,
        })
        .unwrap_or(false);
    if done {
        return len as libc::ssize_t;
    }
    unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t }
}

pub struct Outcome<T> {
    pub value: T,
    pub stats: RunStats,
    pub choices: Vec<u32>,
}

/// Runs `f` to completion on the calling (fresh) thread.
fn run_here<T, F, Fut>(entropy_seed: u64, cfg: SchedCfg, src: Source, f: F) -> Outcome<T>
where
    F: FnOnce() -> Fut,
    Fut: Future<Output = T>,
{
    ENTROPY.with(|e| *e.borrow_mut() = Some(Rng::new(entropy_seed, 77)));
    let sh = Rc::new(Shared {
        fair: Cell::new(false),
        permute: Cell::new(false),
        orders: Cell::new(0),
        par: Cell::new(cfg.par),
        nested: Cell::new(0),
        rec: RefCell::new(Vec::new()),
        pos: Cell::new(0),
        stats: RefCell::new(RunStats { sched_hash: FNV0, ..Default::default() }),
    });
    let seed = match &src {
        Source::Seed(s) => *s,
        _ => 0,
    };
    SH.with(|s| *s.borrow_mut() = Some(sh.clone()));
    dst_seam::install(Box::new(SimChooser {
        src,
        rng: Rng::new(seed, 1),
        cfg: cfg.clone(),
        sh: sh.clone(),
        dense: HashMap::new(),
        prio: Vec::new(),
        cost: 0,
        perms: vec![],
    }));
    dst_seam::on_point(if cfg.par > 0 { Some(other_worker) } else { None });
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .event_interval(cfg.event_interval.max(1))
        .build()
        .expect("runtime");
    let value = rt.block_on(async {
        T0.with(|t| t.set(Some(Instant::now())));
        let v = f().await;
        sh.stats.borrow_mut().virtual_ms = now_ms();
        v
    });
    drop(rt);
    dst_seam::uninstall();
    SH.with(|s| *s.borrow_mut() = None);
    ENTROPY.with(|e| *e.borrow_mut() = None);
    let choices = std::mem::take(&mut *sh.rec.borrow_mut());
    let mut stats = sh.stats.borrow().clone();
    stats.choices = choices.len() as u64;
    Outcome { value, stats, choices }
}

/// Runs one simulation on its own thread (fresh thread-locals, hence identical hash map keys).
pub fn run_sim<T, F, Fut>(entropy_seed: u64, cfg: SchedCfg, src: Option<Vec<u32>>, seed: u64, f: F) -> Outcome<T>
where
    T: Send + 'static,
    F: FnOnce() -> Fut + Send + 'static,
    Fut: Future<Output = T>,
{
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let src = match src {
                Some(v) => Source::Recorded(Rc::new(v)),
                None => Source::Seed(seed),
            };
            let o = run_here(entropy_seed, cfg, src, f);
            // Outcome holds only Send data
            o
        })
        .expect("thread")
        .join()
        .expect("simulation thread panicked")
}

/// Panics of simulated user code are part of the experiment; keep them off stderr but remember them.
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if dst_seam::active() {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let full = format!("{msg} @ {loc}");
            let _ = PANICS.try_with(|p| {
                if let Ok(mut p) = p.try_borrow_mut() {
                    p.push(full)
                }
            });
            if std::env::var_os("SIM_PANICS").is_some() {
                default(info);
            }
        } else {
            default(info)
        }
    }));
}
