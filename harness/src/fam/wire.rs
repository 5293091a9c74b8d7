//! C20: messages over simulated connections that deliver in pieces, late, interrupted, cut, or damaged.
//!
//! Both ends run the real framing and codecs. The connection between them is simulated: what the sender
//! wrote is what the receiver reads, in chunks the plan decides, unless the plan injects a fault.
use super::guard;
use crate::{
    orch::{Outcome, fnv},
    rng::Rng,
    sim::Sim,
};
use axmosdb::tcp::{MAX_MESSAGE_SIZE, Request, Response, TcpError, read_message, recv_request, recv_response, send_request, send_response, write_message};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::io::{self, Error, ErrorKind, Read, Write};

/// A message: which, and the seed and size of its contents.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Msg {
    kind: u8,
    fill: u64,
    a: usize,
    b: usize,
}

/// How a connection treats bytes: seeds of the chunks and of interruptions.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Net {
    seed: u64,
    /// The largest piece.
    chunk: usize,
    /// Interrupted calls, per thousand.
    intr: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A conversation: requests in one direction and responses in the other.
    Talk { reqs: Vec<Msg>, resps: Vec<Msg>, net: Net },
    /// A response whose encoding has `MAX_MESSAGE_SIZE + over` bytes, followed by another message.
    Maximal { rows: bool, over: i64, net: Net },
    /// The connection dies after some bytes (parts per million of what was sent).
    Cut { msgs: Vec<Msg>, req: bool, at: u32, how: u8, net: Net },
    /// A frame damaged on the way, with a good one behind it.
    Damage { msg: Msg, req: bool, how: Vec<(u8, u64, u64)>, net: Net },
    /// A well-framed payload of random bytes.
    Garbage { req: bool, fill: u64, len: usize, head: u8, net: Net },
    /// A frame that declares this length and delivers fewer bytes.
    Length { req: bool, len: u32, have: usize, net: Net },
    /// A result set that claims more than is there.
    Claim { cols: u32, rows: u32, have: usize, fill: u64, net: Net },
    /// The sender cannot write everything.
    BadWriter { msg: Msg, after: usize, how: u8 },
}

fn msg(r: &mut Rng) -> Msg {
    let size = |r: &mut Rng| match r.weighted(&[10, 30, 30, 10, 4, 1]) {
        0 => 0,
        1 => r.usize(4),
        2 => r.usize(40),
        3 => r.usize(400),
        4 => r.usize(5000),
        _ => r.usize(100_000),
    };
    let mut m = Msg { kind: r.below(64) as u8, fill: r.next() >> 1, a: size(r), b: size(r) };
    if m.a * m.b > 200_000 {
        m.b = 200_000 / m.a;
    }
    m
}

fn net(r: &mut Rng) -> Net {
    Net { seed: r.next() >> 1, chunk: *r.pick(&[1usize, 2, 3, 5, 16, 100, 1500, 65536, 1 << 30]), intr: *r.pick(&[0u64, 0, 50, 300]) }
}

pub fn generate(rng: &mut Rng, i: u64, thorough: bool) -> Value {
    let n = 6 + rng.usize(if thorough { 60 } else { 30 });
    let mut ops = Vec::new();
    for _ in 0..n {
        let w = [30u32, if i % 8 == 0 { 2 } else { 0 }, 15, 40, 30, 8, 12, 6];
        ops.push(match rng.weighted(&w) {
            0 => {
                let k = 1 + rng.usize(12);
                Op::Talk { reqs: (0..k).map(|_| msg(rng)).collect(), resps: (0..k).map(|_| msg(rng)).collect(), net: net(rng) }
            }
            1 => {
                let mut n = net(rng);
                n.chunk = n.chunk.max(1500);
                Op::Maximal { rows: rng.chance(500), over: *rng.pick(&[-1i64, 0, 0, 1, 2, 4, 1000]), net: n }
            }
            2 => Op::Cut { msgs: (0..1 + rng.usize(4)).map(|_| msg(rng)).collect(), req: rng.chance(500), at: rng.below(1_000_001) as u32, how: rng.below(4) as u8, net: net(rng) },
            3 => Op::Damage {
                msg: msg(rng),
                req: rng.chance(400),
                how: (0..1 + rng.usize(3)).map(|_| (rng.below(8) as u8, rng.next() >> 1, rng.next() >> 1)).collect(),
                net: net(rng),
            },
            4 => Op::Garbage {
                req: rng.chance(500),
                fill: rng.next() >> 1,
                len: match rng.below(4) {
                    0 => rng.usize(6),
                    1 => rng.usize(40),
                    2 => rng.usize(600),
                    _ => rng.usize(20000),
                },
                head: rng.below(4) as u8,
                net: net(rng),
            },
            5 => {
                let max = MAX_MESSAGE_SIZE as u32;
                let len = match rng.below(7) {
                    0 => max + 1,
                    1 => u32::MAX,
                    2 => max + 1 + rng.below((u32::MAX - max - 1) as u64) as u32,
                    3 => max,
                    4 => 1 << 31,
                    5 => rng.below(100) as u32,
                    _ => rng.below(max as u64) as u32,
                };
                Op::Length { req: rng.chance(500), len, have: rng.usize(60), net: net(rng) }
            }
            6 => {
                let count = |r: &mut Rng| match r.below(7) {
                    0 => 0,
                    1 => u32::MAX,
                    2 => 1 << 31,
                    3 => r.below(10) as u32,
                    4 => r.below(100_000) as u32,
                    5 => 1 << r.below(32),
                    _ => r.next() as u32,
                };
                Op::Claim { cols: count(rng), rows: count(rng), have: rng.usize(10), fill: rng.next() >> 1, net: net(rng) }
            }
            _ => Op::BadWriter { msg: msg(rng), after: rng.usize(60), how: rng.below(3) as u8 },
        });
    }
    json!({"sched": {"seed": rng.next() >> 1, "preempt": 0, "script": null, "max_steps": 60_000_000u64}, "ops": ops})
}

const CHARS: &[char] = &['a', 'Z', '0', ' ', '\n', '\0', '\'', '"', ',', ';', '|', '\t', 'é', 'ß', '日', '本', '𝄞', '🦀', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\u{feff}', '\u{fffd}'];

/// A string of about this many bytes.
fn text(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let ascii = r.chance(400);
    while s.len() < n {
        s.push(if ascii { (32 + r.below(95) as u8) as char } else { *r.pick(CHARS) });
    }
    s
}

fn number(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => i64::MAX as u64,
        3 => 1 << r.below(64),
        4 => r.below(1000),
        _ => r.next(),
    }
}

fn request(m: &Msg) -> Request {
    let mut r = Rng::new(m.fill);
    let r = &mut r;
    match m.kind % 12 {
        0 => Request::Create(text(r, m.a)),
        1 => Request::Open(text(r, m.a)),
        2 => Request::Sql(text(r, m.a)),
        3 => Request::Explain(text(r, m.a)),
        4 => Request::Begin,
        5 => Request::Rollback,
        6 => Request::Commit,
        7 => Request::Analyze {
            sample_rate: match r.below(6) {
                0 => 0.1,
                1 => f64::NAN,
                2 => f64::NEG_INFINITY,
                3 => -0.0,
                4 => f64::MIN_POSITIVE / 2.0,
                _ => f64::from_bits(r.next()),
            },
            max_sample_rows: number(r) as usize,
        },
        8 => Request::Vacuum,
        9 => Request::Close,
        10 => Request::Ping,
        _ => Request::Shutdown,
    }
}

fn response(m: &Msg) -> Response {
    let mut r = Rng::new(m.fill);
    let r = &mut r;
    match m.kind % 16 {
        0 => Response::Ok(text(r, m.a)),
        1 => Response::Error(text(r, m.a)),
        2 => Response::SessionStarted,
        3 => Response::SessionEnd,
        4 => Response::RowsAffected(number(r)),
        5 => Response::Ddl(text(r, m.a)),
        6 => Response::Explain(text(r, m.a)),
        7 => Response::VacuumComplete { tables_vacuumed: number(r) as usize, bytes_freed: number(r) as usize, transactions_cleaned: number(r) as usize },
        8 => Response::Pong,
        9 => Response::Goodbye,
        10 => Response::ShuttingDown,
        // Result sets: many columns, many rows, neither.
        k => {
            let (cols, rows) = match k {
                11 => (0, 0),
                12 => (m.a, m.b.min(3)),
                13 => (1 + m.a.min(8), m.b),
                _ => (1 + m.a.min(40), m.b.min(60)),
            };
            let n = if cols == 0 { 0 } else { rows };
            let w = *r.pick(&[0usize, 1, 8, 60]);
            Response::Rows {
                columns: (0..cols).map(|_| { let k = r.usize(w + 4); text(r, k) }).collect(),
                data: (0..n).map(|_| (0..cols).map(|_| { let k = r.usize(w + 1); text(r, k) }).collect()).collect(),
            }
        }
    }
}

fn same_request(a: &Request, b: &Request) -> bool {
    match (a, b) {
        (Request::Analyze { sample_rate: x, max_sample_rows: n }, Request::Analyze { sample_rate: y, max_sample_rows: m }) => x.to_bits() == y.to_bits() && n == m,
        _ => a == b,
    }
}

fn same_response(a: &Response, b: &Response) -> bool {
    use Response::*;
    match (a, b) {
        (Ok(x), Ok(y)) | (Error(x), Error(y)) | (Ddl(x), Ddl(y)) | (Explain(x), Explain(y)) => x == y,
        (Rows { columns: c, data: d }, Rows { columns: e, data: f }) => c == e && d == f,
        (RowsAffected(x), RowsAffected(y)) => x == y,
        (
            VacuumComplete { tables_vacuumed: a, bytes_freed: b, transactions_cleaned: c },
            VacuumComplete { tables_vacuumed: d, bytes_freed: e, transactions_cleaned: f },
        ) => (a, b, c) == (d, e, f),
        (SessionStarted, SessionStarted) | (SessionEnd, SessionEnd) | (Pong, Pong) | (Goodbye, Goodbye) | (ShuttingDown, ShuttingDown) => true,
        _ => false,
    }
}

/// Either kind of message, for what is the same for both.
enum M {
    Q(Request),
    P(Response),
}

impl M {
    fn of(m: &Msg, req: bool) -> M {
        if req { M::Q(request(m)) } else { M::P(response(m)) }
    }
    fn send(&self, w: &mut impl Write) -> Result<(), TcpError> {
        match self {
            M::Q(q) => send_request(w, q),
            M::P(p) => send_response(w, p),
        }
    }
    fn recv(req: bool, r: &mut impl Read) -> Result<M, TcpError> {
        if req { recv_request(r).map(M::Q) } else { recv_response(r).map(M::P) }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            M::Q(q) => q.to_bytes(),
            M::P(p) => p.to_bytes(),
        }
    }
    fn same(&self, o: &M) -> bool {
        match (self, o) {
            (M::Q(a), M::Q(b)) => same_request(a, b),
            (M::P(a), M::P(b)) => same_response(a, b),
            _ => false,
        }
    }
    fn show(&self) -> String {
        let s = match self {
            M::Q(q) => format!("{q:?}"),
            M::P(p) => format!("{p:?}"),
        };
        if s.len() > 160 { format!("{}... ({} bytes)", s.chars().take(120).collect::<String>(), s.len()) } else { s }
    }
}

/// The writing end: takes pieces, and is interrupted now and then.
struct Tx {
    buf: Vec<u8>,
    r: Rng,
    net: Net,
    /// Fails after this many bytes.
    fail: Option<(usize, ErrorKind)>,
    flushed: usize,
}

impl Tx {
    fn new(net: Net) -> Tx {
        Tx { buf: Vec::new(), r: Rng::new(net.seed), net, fail: None, flushed: 0 }
    }
}

impl Write for Tx {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.r.chance(self.net.intr) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = b.len().min(1 + self.r.usize(self.net.chunk));
        if let Some((at, kind)) = self.fail {
            if self.buf.len() >= at {
                return if kind == ErrorKind::WriteZero { Ok(0) } else { Err(Error::from(kind)) };
            }
            n = n.min(at - self.buf.len());
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed = self.buf.len();
        Ok(())
    }
}

/// The reading end: what arrived, then the end or an error.
struct Rx {
    data: Vec<u8>,
    pos: usize,
    r: Rng,
    net: Net,
    end: Option<ErrorKind>,
    /// Calls since the last byte: a reader that spins would never finish.
    idle: usize,
    clock: u64,
}

impl Rx {
    fn new(data: Vec<u8>, net: Net) -> Rx {
        Rx { data, pos: 0, r: Rng::new(net.seed ^ 0x5eed), net, end: None, idle: 0, clock: 0 }
    }
}

impl Read for Rx {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.r.chance(self.net.intr) {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.pos == self.data.len() {
            self.idle += 1;
            if self.idle > 1000 {
                panic!("the receiver keeps reading a connection that has ended");
            }
            return match self.end {
                None => Ok(0),
                Some(k) => Err(Error::from(k)),
            };
        }
        let n = b.len().min(self.data.len() - self.pos).min(1 + self.r.usize(self.net.chunk));
        self.clock += self.r.below(1000);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Runs with the address space limited to what there is plus `extra` bytes: an allocation beyond ends the process.
fn limited<T>(extra: u64, f: impl FnOnce() -> T) -> T {
    let page = 4096u64;
    let now: u64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').next().and_then(|n| n.parse::<u64>().ok())).unwrap_or(0) * page;
    let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::getrlimit(libc::RLIMIT_AS, &mut old) };
    let new = libc::rlimit { rlim_cur: now + extra, rlim_max: old.rlim_max };
    if now > 0 {
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &new) };
    }
    let v = f();
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &old) };
    v
}

/// How much memory may be used for a frame: a multiple of what arrived, besides the largest buffer.
fn budget(frame: usize) -> u64 {
    (96u64 << 20) + 40 * frame as u64
}

struct W<'a> {
    sim: &'static Sim,
    out: &'a mut Outcome,
}

type Got = Result<M, TcpError>;

impl W<'_> {
    fn bad(&mut self, class: &str, d: String) -> bool {
        self.out.fail(class, d);
        false
    }

    fn recv(&mut self, req: bool, rx: &mut Rx) -> Result<Got, bool> {
        self.out.checks += 1;
        let extra = budget(rx.data.len() - rx.pos);
        match guard(self.sim, || limited(extra, || M::recv(req, rx))) {
            Ok(g) => {
                let s = match &g {
                    Ok(m) => m.show(),
                    Err(e) => format!("error {e}"),
                };
                self.out.see(s.as_bytes());
                Ok(g)
            }
            Err(p) => Err(self.bad("panic", format!("receiving a {} panicked: {p}", if req { "request" } else { "response" }))),
        }
    }

    fn send(&mut self, m: &M, tx: &mut Tx) -> Result<Result<(), TcpError>, bool> {
        match guard(self.sim, || m.send(tx)) {
            Ok(r) => Ok(r),
            Err(p) => Err(self.bad("panic", format!("sending {} panicked: {p}", m.show()))),
        }
    }

    /// Every message sent arrives, in order, and nothing else.
    fn deliver(&mut self, msgs: &[M], req: bool, net: Net) -> bool {
        let mut tx = Tx::new(net);
        for m in msgs {
            match self.send(m, &mut tx) {
                Err(b) => return b,
                Ok(Err(e)) => return self.bad("not-sent", format!("{} could not be sent: {e}", m.show())),
                Ok(Ok(())) => {}
            }
            if tx.flushed != tx.buf.len() {
                return self.bad("not-flushed", format!("{} stays in the buffer of the sender", m.show()));
            }
        }
        let mut rx = Rx::new(tx.buf, net);
        for m in msgs {
            match self.recv(req, &mut rx) {
                Err(b) => return b,
                Ok(Err(e)) => return self.bad("not-received", format!("{} was sent, the receiver got the error {e}", m.show())),
                Ok(Ok(g)) => {
                    if !g.same(m) {
                        return self.bad("differs", format!("{} was sent, {} was received", m.show(), g.show()));
                    }
                }
            }
        }
        let clock = rx.clock;
        self.sim.advance_clock(clock as i64);
        match self.recv(req, &mut rx) {
            Err(b) => b,
            Ok(Ok(g)) => self.bad("made-up", format!("{} was received, but never sent", g.show())),
            Ok(Err(_)) => true,
        }
    }

    fn step(&mut self, op: &Op) -> bool {
        match op {
            Op::Talk { reqs, resps, net } => {
                let q: Vec<M> = reqs.iter().map(|m| M::of(m, true)).collect();
                let p: Vec<M> = resps.iter().map(|m| M::of(m, false)).collect();
                self.out.nontrivial = true;
                self.out.probe_n("messages delivered", (q.len() + p.len()) as u64);
                if net.chunk < 100 {
                    self.out.probe("fault: delivered in small pieces");
                }
                if net.intr > 0 {
                    self.out.probe("fault: interrupted calls");
                }
                self.deliver(&q, true, *net) && self.deliver(&p, false, *net)
            }
            Op::Maximal { rows, over, net } => {
                let want = (MAX_MESSAGE_SIZE as i64 + over) as usize;
                let mut m = if *rows {
                    Response::Rows { columns: vec!["é".into(), String::new()], data: vec![vec![String::new(), "x".repeat(1 << 20)]; 14] }
                } else {
                    Response::Ok(String::new())
                };
                let fill = want - m.to_bytes().len();
                match &mut m {
                    Response::Rows { data, .. } => data[3][0] = "y".repeat(fill),
                    Response::Ok(s) => *s = "z".repeat(fill),
                    _ => {}
                }
                let m = M::P(m);
                self.out.probe("messages of about the maximal size");
                if *over <= 0 {
                    return self.deliver(&[m, M::P(Response::Pong)], false, *net);
                }
                // It cannot be sent, and what follows can.
                let mut tx = Tx::new(*net);
                match self.send(&m, &mut tx) {
                    Err(b) => return b,
                    Ok(Ok(())) => return self.bad("too-large-sent", format!("a message of {want} bytes was sent")),
                    Ok(Err(_)) => {}
                }
                if !tx.buf.is_empty() {
                    return self.bad("too-large-sent", format!("{} bytes of a message that is too large were sent", tx.buf.len()));
                }
                true
            }
            Op::Cut { msgs, req, at, how, net } => {
                let msgs: Vec<M> = msgs.iter().map(|m| M::of(m, *req)).collect();
                let mut tx = Tx::new(*net);
                let mut ends = vec![];
                for m in &msgs {
                    match self.send(m, &mut tx) {
                        Err(b) => return b,
                        Ok(Err(e)) => return self.bad("not-sent", format!("{} could not be sent: {e}", m.show())),
                        Ok(Ok(())) => ends.push(tx.buf.len()),
                    }
                }
                let at = (tx.buf.len() as u64 * *at as u64 / 1_000_000) as usize;
                tx.buf.truncate(at);
                let mut rx = Rx::new(tx.buf, *net);
                rx.end = [None, Some(ErrorKind::ConnectionReset), Some(ErrorKind::TimedOut), Some(ErrorKind::WouldBlock)][*how as usize % 4];
                self.out.probe(["fault: connection closed", "fault: connection reset", "fault: read timed out", "fault: read would block"][*how as usize % 4]);
                for (m, end) in msgs.iter().zip(&ends) {
                    match (self.recv(*req, &mut rx), *end <= at) {
                        (Err(b), _) => return b,
                        (Ok(Err(e)), true) => return self.bad("not-received", format!("{} arrived in full, the receiver got the error {e}", m.show())),
                        (Ok(Ok(g)), true) if !g.same(m) => return self.bad("differs", format!("{} was sent, {} was received", m.show(), g.show())),
                        (Ok(Ok(g)), false) => return self.bad("made-up", format!("{} was received, although the connection broke within {}", g.show(), m.show())),
                        (Ok(Err(_)), false) => return true,
                        _ => {}
                    }
                }
                true
            }
            Op::Damage { msg, req, how, net } => {
                let m = M::of(msg, *req);
                let mut b = m.bytes();
                for (k, x, y) in how {
                    let n = b.len().max(1) as u64;
                    let i = (*x % n) as usize;
                    // Headers are where most of the structure is.
                    let i = if y % 3 == 0 { i % 14 } else { i };
                    match k {
                        0 if i < b.len() => b[i] ^= 1 << (y % 8),
                        1 if i < b.len() => b[i] = *y as u8,
                        2 => b.truncate(i),
                        3 => b.extend((0..1 + y % 9).map(|j| (x >> j) as u8)),
                        4 if i < b.len() => {
                            b.remove(i);
                        }
                        5 => b.insert(i.min(b.len()), *y as u8),
                        6 if i + 4 <= b.len() => b[i..i + 4].copy_from_slice(&(*y as u32).to_le_bytes()),
                        7 => {
                            let copy = b[i.min(b.len())..].to_vec();
                            b.extend(copy.iter().take(64));
                        }
                        _ => {}
                    }
                }
                self.out.probe("fault: damaged frame");
                self.frame(*req, b, *net)
            }
            Op::Garbage { req, fill, len, head, net } => {
                let mut r = Rng::new(*fill);
                let mut b: Vec<u8> = (0..*len).map(|_| if r.chance(500) { r.below(12) as u8 } else { r.next() as u8 }).collect();
                // Behind a good version and command more is reached.
                if *head > 0 && b.len() > 1 {
                    b[0] = 1;
                    b[1] = r.below(14) as u8;
                    if *head > 1 && b.len() > 6 {
                        let n = if *head == 2 { (b.len() - 6) as u32 } else { r.below(b.len() as u64) as u32 };
                        b[2..6].copy_from_slice(&n.to_le_bytes());
                    }
                }
                self.out.probe("fault: garbage frame");
                self.frame(*req, b, *net)
            }
            Op::Length { req, len, have, net } => {
                let mut b = len.to_le_bytes().to_vec();
                b.extend(std::iter::repeat_n(1u8, *have));
                let mut rx = Rx::new(b, *net);
                self.out.probe("fault: wrong length");
                match self.recv(*req, &mut rx) {
                    Err(b) => b,
                    Ok(Ok(g)) if *len as usize > *have => self.bad("made-up", format!("{} was received from a frame of {len} bytes of which {have} arrived", g.show())),
                    Ok(Ok(_)) => true,
                    Ok(Err(e)) => {
                        if *len as usize > MAX_MESSAGE_SIZE && !matches!(e, TcpError::MessageTooLarge(_)) {
                            return self.bad("wrong-error", format!("a frame of {len} bytes was answered with {e}"));
                        }
                        true
                    }
                }
            }
            Op::Claim { cols, rows, have, fill, net } => {
                let mut r = Rng::new(*fill);
                let mut b = vec![1u8, 2];
                b.extend(cols.to_le_bytes());
                let strings = |r: &mut Rng, b: &mut Vec<u8>, n: usize| {
                    for _ in 0..n {
                        let k = r.usize(5);
                        let s = text(r, k);
                        b.extend((s.len() as u32).to_le_bytes());
                        b.extend(s.as_bytes());
                    }
                };
                let c = (*cols as usize).min(12);
                strings(&mut r, &mut b, c);
                if c == *cols as usize {
                    b.extend(rows.to_le_bytes());
                    let v = (c * *rows as usize).min(*have);
                    strings(&mut r, &mut b, v);
                }
                self.out.probe("fault: false counts");
                self.frame(false, b, *net)
            }
            Op::BadWriter { msg, after, how } => {
                let m = M::of(msg, msg.fill % 2 == 0);
                let mut tx = Tx::new(Net { seed: msg.fill, chunk: 7, intr: 100 });
                let total = m.bytes().len() + 4;
                tx.fail = Some((*after, [ErrorKind::BrokenPipe, ErrorKind::WriteZero, ErrorKind::TimedOut][*how as usize % 3]));
                self.out.probe("fault: write failed");
                match self.send(&m, &mut tx) {
                    Err(b) => b,
                    Ok(Ok(())) if *after < total => self.bad("not-sent", format!("sending {} succeeded, although only {after} of {total} bytes could be written", m.show())),
                    Ok(Err(e)) if *after >= total => self.bad("not-sent", format!("{} could not be sent: {e}", m.show())),
                    _ => true,
                }
            }
        }
    }

    /// A frame with arbitrary contents is taken only if it is the encoding of what was understood,
    /// and the next frame is not affected.
    fn frame(&mut self, req: bool, b: Vec<u8>, net: Net) -> bool {
        if b.len() > MAX_MESSAGE_SIZE {
            return true;
        }
        let mut tx = Tx::new(net);
        if let Err(e) = write_message(&mut tx, &b) {
            return self.bad("not-sent", format!("a frame of {} bytes could not be sent: {e}", b.len()));
        }
        let next = M::of(&Msg { kind: net.seed as u8, fill: net.seed, a: 9, b: 2 }, req);
        match self.send(&next, &mut tx) {
            Err(b) => return b,
            Ok(Err(e)) => return self.bad("not-sent", format!("{} could not be sent: {e}", next.show())),
            Ok(Ok(())) => {}
        }
        // The frame itself comes through whatever is in it.
        self.out.checks += 1;
        match guard(self.sim, || read_message(&mut Rx::new(tx.buf.clone(), net))) {
            Ok(Ok(g)) if g == b => {}
            Ok(Ok(_)) => return self.bad("differs", format!("a frame of {} bytes arrived changed", b.len())),
            Ok(Err(e)) => return self.bad("not-received", format!("a frame of {} bytes was answered with {e}", b.len())),
            Err(p) => return self.bad("panic", p),
        }
        let mut rx = Rx::new(tx.buf, net);
        let shown: Vec<String> = b.iter().take(60).map(|x| format!("{x:02x}")).collect();
        match self.recv(req, &mut rx) {
            Err(b) => return b,
            Ok(Err(_)) => self.out.probe("frames rejected"),
            Ok(Ok(g)) => {
                if g.bytes() != b {
                    return self.bad("garbage-accepted", format!("a frame of {} bytes ({}) was taken for {}", b.len(), shown.join(" "), g.show()));
                }
                self.out.probe("frames accepted");
            }
        }
        match self.recv(req, &mut rx) {
            Err(b) => b,
            Ok(Ok(g)) if g.same(&next) => true,
            Ok(Ok(g)) => self.bad("differs", format!("{} was sent after a bad frame, {} was received", next.show(), g.show())),
            Ok(Err(e)) => self.bad("not-received", format!("{} was sent after a bad frame ({}), the receiver got the error {e}", next.show(), shown.join(" "))),
        }
    }
}

pub fn run(sim: &'static Sim, plan: &Value, out: &mut Outcome) {
    let ops: Vec<Op> = serde_json::from_value(plan["ops"].clone()).unwrap();
    let mut w = W { sim, out };
    for op in &ops {
        let h = fnv(0xcbf29ce484222325, format!("{op:?}").as_bytes());
        w.out.state(h);
        if !w.step(op) {
            return;
        }
    }
}
