//! Minimal WebSocket client framing, so that the simulator controls every byte a client sends.
use std::collections::VecDeque;

pub const HANDSHAKE: &str = "GET /ws HTTP/1.1\r\nHost: localhost:8000\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";

pub const TEXT: u8 = 1;
pub const BINARY: u8 = 2;
pub const CLOSE: u8 = 8;
pub const PING: u8 = 9;
pub const PONG: u8 = 10;

/// client-to-server frame (masked, as required)
pub fn frame(op: u8, fin: bool, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(if fin { 0x80 } else { 0 }) | op];
    let n = payload.len();
    if n < 126 {
        v.push(0x80 | n as u8);
    } else if n < 65536 {
        v.push(0x80 | 126);
        v.extend_from_slice(&(n as u16).to_be_bytes());
    } else {
        v.push(0x80 | 127);
        v.extend_from_slice(&(n as u64).to_be_bytes());
    }
    let mask = [0x11u8, 0x22, 0x33, 0x44];
    v.extend_from_slice(&mask);
    v.extend(payload.iter().enumerate().map(|(i, b)| b ^ mask[i & 3]));
    v
}

#[derive(Debug)]
pub enum In {
    Text(String),
    Binary(Vec<u8>),
    Close,
    Ping(Vec<u8>),
    Pong,
    Bad(String),
}

/// incremental parser of the server's byte stream
#[derive(Default)]
pub struct Parser {
    buf: VecDeque<u8>,
    http_done: bool,
    pub status: Option<u16>,
    partial: Option<(u8, Vec<u8>)>,
}

impl Parser {
    pub fn feed(&mut self, data: &[u8], out: &mut Vec<In>) {
        self.buf.extend(data);
        if !self.http_done {
            let v = self.buf.make_contiguous();
            match v.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(p) => {
                    let head = String::from_utf8_lossy(&v[..p]).to_string();
                    self.status = head.split(' ').nth(1).and_then(|s| s.parse().ok());
                    self.buf.drain(..p + 4);
                    self.http_done = true;
                    if self.status != Some(101) {
                        return;
                    }
                }
                None => return,
            }
        }
        if self.status != Some(101) {
            return;
        }
        loop {
            let v = self.buf.make_contiguous();
            if v.len() < 2 {
                return;
            }
            let (fin, op) = (v[0] & 0x80 != 0, v[0] & 15);
            if v[0] & 0x70 != 0 || v[1] & 0x80 != 0 {
                out.push(In::Bad(format!("bad frame header {:02x} {:02x}", v[0], v[1])));
                self.buf.clear();
                return;
            }
            let (hdr, n) = match v[1] & 127 {
                126 => {
                    if v.len() < 4 {
                        return;
                    }
                    (4, u16::from_be_bytes([v[2], v[3]]) as usize)
                }
                127 => {
                    if v.len() < 10 {
                        return;
                    }
                    (10, u64::from_be_bytes(v[2..10].try_into().unwrap()) as usize)
                }
                n => (2, n as usize),
            };
            if v.len() < hdr + n {
                return;
            }
            let payload = v[hdr..hdr + n].to_vec();
            self.buf.drain(..hdr + n);
            match op {
                CLOSE => out.push(In::Close),
                PING => out.push(In::Ping(payload)),
                PONG => out.push(In::Pong),
                0 | TEXT | BINARY => {
                    let (kind, mut acc) = if op == 0 {
                        match self.partial.take() {
                            Some(p) => p,
                            None => {
                                out.push(In::Bad("continuation without start".into()));
                                continue;
                            }
                        }
                    } else {
                        (op, Vec::new())
                    };
                    acc.extend_from_slice(&payload);
                    if !fin {
                        self.partial = Some((kind, acc));
                    } else if kind == TEXT {
                        match String::from_utf8(acc) {
                            Ok(s) => out.push(In::Text(s)),
                            Err(_) => out.push(In::Bad("text is not utf-8".into())),
                        }
                    } else {
                        out.push(In::Binary(acc));
                    }
                }
                _ => out.push(In::Bad(format!("opcode {op}"))),
            }
        }
    }
}
