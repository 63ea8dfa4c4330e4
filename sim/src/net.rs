//! In-memory byte streams with the failure modes of TCP connections.
use crate::rt;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::{Instant, Sleep};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetCfg {
    pub lat_min: u64,
    pub lat_max: u64,
    /// 0 none, 1 occasional short reads/writes, 2 mostly tiny pieces
    pub frag: u8,
    /// bytes in flight before a writer blocks
    pub window: usize,
}

impl Default for NetCfg {
    fn default() -> Self {
        NetCfg { lat_min: 0, lat_max: 0, frag: 0, window: 1 << 16 }
    }
}

struct Seg {
    at: Instant,
    data: Vec<u8>,
    off: usize,
}

struct Pipe {
    cfg: NetCfg,
    segs: VecDeque<Seg>,
    in_flight: usize,
    last_at: Option<Instant>,
    /// writer closed its side: EOF after the data, not before this time
    fin: Option<Instant>,
    /// connection reset, visible to the reader from this time
    rst: Option<Instant>,
    /// reader's end is gone: writes fail from this time
    reader_gone: Option<Instant>,
    /// everything written from now on is lost silently
    blackhole: bool,
    rwaker: Option<Waker>,
    wwaker: Option<Waker>,
}

impl Pipe {
    fn wake_r(&mut self) {
        if let Some(w) = self.rwaker.take() {
            w.wake()
        }
    }
    fn wake_w(&mut self) {
        if let Some(w) = self.wwaker.take() {
            w.wake()
        }
    }
    fn latency(&self) -> Duration {
        let span = (self.cfg.lat_max - self.cfg.lat_min) as usize;
        if rt::is_fair() {
            // faults have stopped: the network is fast from now on
            return Duration::from_millis(self.cfg.lat_min.min(1));
        }
        let extra = if span == 0 { 0 } else { rt::choose("lat", span + 1) as u64 };
        Duration::from_millis(self.cfg.lat_min + extra)
    }
}

type P = Arc<Mutex<Pipe>>;

pub struct ReadHalf {
    p: P,
    sleep: Option<Pin<Box<Sleep>>>,
}
pub struct WriteHalf {
    p: P,
    sleep: Option<Pin<Box<Sleep>>>,
    closed: bool,
}

/// Controls both directions of a connection from outside.
#[derive(Clone)]
pub struct Link {
    a2b: P,
    b2a: P,
}

impl Link {
    /// both ends see a reset as soon as it has travelled; undelivered data is lost
    pub fn reset(&self) {
        let now = Instant::now();
        for p in [&self.a2b, &self.b2a] {
            let mut p = p.lock().unwrap();
            let at = now + p.latency();
            p.rst.get_or_insert(at);
            p.wake_r();
            p.wake_w();
        }
    }
    /// what the first end has written still arrives, but the other end cannot write any more
    pub fn deaf(&self) {
        let mut p = self.b2a.lock().unwrap();
        p.reader_gone = Some(Instant::now());
        p.wake_w();
    }
    /// from now on nothing gets through in either direction and nobody is told
    pub fn vanish(&self) {
        for p in [&self.a2b, &self.b2a] {
            let mut p = p.lock().unwrap();
            p.blackhole = true;
            p.segs.clear();
        }
    }
}

pub struct SimIo {
    pub rd: ReadHalf,
    pub wr: WriteHalf,
}

fn pipe(cfg: NetCfg) -> (WriteHalf, ReadHalf, P) {
    let p = Arc::new(Mutex::new(Pipe {
        cfg,
        segs: VecDeque::new(),
        in_flight: 0,
        last_at: None,
        fin: None,
        rst: None,
        reader_gone: None,
        blackhole: false,
        rwaker: None,
        wwaker: None,
    }));
    (WriteHalf { p: p.clone(), sleep: None, closed: false }, ReadHalf { p: p.clone(), sleep: None }, p)
}

/// a connected pair (client end, server end)
pub fn connect(cfg: NetCfg) -> (SimIo, SimIo, Link) {
    let (w1, r1, a2b) = pipe(cfg);
    let (w2, r2, b2a) = pipe(cfg);
    (SimIo { rd: r2, wr: w1 }, SimIo { rd: r1, wr: w2 }, Link { a2b, b2a })
}

fn arm(sleep: &mut Option<Pin<Box<Sleep>>>, at: Instant, cx: &mut Context<'_>) -> bool {
    let mut s = Box::pin(tokio::time::sleep_until(at));
    let ready = s.as_mut().poll(cx).is_ready();
    *sleep = Some(s);
    ready
}

impl ReadHalf {
    fn poll_rd(&mut self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        rt::point();
        let coop = std::task::ready!(tokio::task::coop::poll_proceed(cx));
        loop {
            let now = Instant::now();
            let mut p = self.p.lock().unwrap();
            let mut next: Option<Instant> = None;
            if let Some(r) = p.rst {
                if r <= now {
                    coop.made_progress();
                    return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "sim: reset")));
                }
                next = Some(r);
            }
            let mut copied = 0;
            loop {
                let room = buf.remaining();
                if room == 0 {
                    break;
                }
                let frag = p.cfg.frag;
                let Some(s) = p.segs.front_mut() else { break };
                if s.at > now {
                    next = Some(next.map_or(s.at, |n| n.min(s.at)));
                    break;
                }
                let avail = s.data.len() - s.off;
                let mut n = avail.min(room);
                let mut stop = false;
                if frag > 0 && n > 1 && !rt::is_fair() {
                    n = short(frag, n, "short-read", &mut stop);
                }
                let s = p.segs.front_mut().unwrap();
                buf.put_slice(&s.data[s.off..s.off + n]);
                s.off += n;
                copied += n;
                if s.off == s.data.len() {
                    p.segs.pop_front();
                }
                if stop {
                    break;
                }
            }
            if copied > 0 {
                p.in_flight -= copied;
                p.wake_w();
                coop.made_progress();
                return Poll::Ready(Ok(()));
            }
            if p.segs.is_empty() {
                if let Some(f) = p.fin {
                    if f <= now {
                        coop.made_progress();
                        return Poll::Ready(Ok(()));
                    }
                    next = Some(next.map_or(f, |n| n.min(f)));
                }
            }
            p.rwaker = Some(cx.waker().clone());
            drop(p);
            match next {
                Some(at) => {
                    if arm(&mut self.sleep, at, cx) {
                        continue;
                    }
                }
                None => self.sleep = None,
            }
            return Poll::Pending;
        }
    }
}

fn short(frag: u8, n: usize, what: &'static str, stop: &mut bool) -> usize {
    let k = match frag {
        1 => match rt::choose("frag", 4) {
            3 => 1 + rt::choose("fragn", n),
            _ => n,
        },
        _ => match rt::choose("frag", 4) {
            0 => n,
            1 => 1 + rt::choose("fragn", n),
            2 => 1 + rt::choose("fragn", n.min(8)),
            _ => 1,
        },
    };
    let k = k.clamp(1, n);
    if k < n {
        rt::fault(what);
        *stop = true;
    }
    k
}

impl WriteHalf {
    fn poll_wr(&mut self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        rt::point();
        let coop = std::task::ready!(tokio::task::coop::poll_proceed(cx));
        if self.closed {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "sim: closed")));
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let now = Instant::now();
        let mut p = self.p.lock().unwrap();
        if p.rst.is_some_and(|t| t <= now) {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "sim: reset")));
        }
        if p.reader_gone.is_some_and(|t| t <= now) {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "sim: peer gone")));
        }
        let window = if rt::is_fair() { p.cfg.window.max(1 << 16) } else { p.cfg.window };
        let room = window.saturating_sub(p.in_flight);
        if room == 0 {
            p.wwaker = Some(cx.waker().clone());
            let at = p.rst.or(p.reader_gone);
            drop(p);
            rt::fault("window-full");
            if let Some(at) = at {
                if arm(&mut self.sleep, at, cx) {
                    cx.waker().wake_by_ref();
                }
            }
            return Poll::Pending;
        }
        let mut n = data.len().min(room);
        let mut stop = false;
        if p.cfg.frag > 0 && n > 1 && !rt::is_fair() {
            n = short(p.cfg.frag, n, "short-write", &mut stop);
        }
        p.in_flight += n;
        if !p.blackhole {
            let mut at = now + p.latency();
            if let Some(l) = p.last_at {
                at = at.max(l);
            }
            p.last_at = Some(at);
            p.segs.push_back(Seg { at, data: data[..n].to_vec(), off: 0 });
            p.wake_r();
        }
        coop.made_progress();
        Poll::Ready(Ok(n))
    }
    fn fin(&mut self) {
        if self.closed {
            return;
        }
        self.closed = true;
        let mut p = self.p.lock().unwrap();
        if p.blackhole {
            return;
        }
        let mut at = Instant::now() + p.latency();
        if let Some(l) = p.last_at {
            at = at.max(l);
        }
        p.fin = Some(at);
        p.wake_r();
    }
}

impl Drop for WriteHalf {
    fn drop(&mut self) {
        if dst_seam::active() {
            self.fin()
        }
    }
}
impl Drop for ReadHalf {
    fn drop(&mut self) {
        if !dst_seam::active() {
            return;
        }
        let mut p = self.p.lock().unwrap();
        if p.blackhole {
            return;
        }
        let at = Instant::now() + p.latency();
        p.reader_gone = Some(at);
        p.wake_w();
    }
}

impl AsyncRead for ReadHalf {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.poll_rd(cx, buf)
    }
}
impl AsyncWrite for WriteHalf {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        self.poll_wr(cx, data)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.fin();
        Poll::Ready(Ok(()))
    }
}
impl AsyncRead for SimIo {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.rd.poll_rd(cx, buf)
    }
}
impl AsyncWrite for SimIo {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        self.wr.poll_wr(cx, data)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.wr.fin();
        Poll::Ready(Ok(()))
    }
}
