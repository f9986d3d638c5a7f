//! Simulated devices: the reader and writer handed to the code under test.
use crate::alloc;
use crate::env;
use crate::rng::mix2;
use crate::sched;
use crate::spec::Pos;
use crate::stats::{self, C};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, BufReader, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Debug, Default, Serialize, Deserialize)]
pub enum Chunk {
    #[default]
    All,
    One,
    Fixed(u32),
    Hash { seed: u64, max: u32 },
}

impl Chunk {
    pub fn take(self, off: u64, want: usize) -> usize {
        let n = match self {
            Chunk::All => want,
            Chunk::One => 1,
            Chunk::Fixed(k) => (k as usize).max(1),
            Chunk::Hash { seed, max } => 1 + (mix2(seed, off) % (max.max(1) as u64)) as usize,
        };
        n.min(want)
    }
}

pub const KINDS: [ErrorKind; 14] = [
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::NotConnected,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
];

pub fn kind(i: u8) -> ErrorKind {
    KINDS[i as usize % KINDS.len()]
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct RFault {
    pub at: Pos,
    pub kind: u8,
    pub times: u32,
}

#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct ReadPlan {
    pub chunk: Chunk,
    /// Interrupted calls: chance per mille at each offset, and how many in a row at most.
    pub eintr_pm: u32,
    pub eintr_max: u32,
    pub seed: u64,
    /// Put the standard library's BufReader of this capacity on top.
    pub buf: Option<u32>,
    pub faults: Vec<RFault>,
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct WFault {
    /// Offset in the output.
    pub at: u64,
    /// Index into KINDS, or 255: accepts nothing.
    pub kind: u8,
    pub times: u32,
}

#[derive(Clone, PartialEq, Debug, Default, Serialize, Deserialize)]
pub struct WritePlan {
    pub chunk: Chunk,
    pub eintr_pm: u32,
    pub eintr_max: u32,
    pub seed: u64,
    pub faults: Vec<WFault>,
    /// Disk is full from this offset on.
    pub cap: Option<u64>,
}

/// Arrival of bytes over time: (bytes available from then on, simulated microseconds).
pub struct Gate {
    pub points: Vec<(u64, u64)>,
    pub next: usize,
    pub avail: u64,
    pub now: u64,
    pub blocking: bool,
    /// Called when the reader has to wait: (position, available).
    pub waits: Vec<u64>,
}

impl Gate {
    pub fn advance(&mut self) -> bool {
        if self.next < self.points.len() {
            let (a, t) = self.points[self.next];
            self.next += 1;
            self.avail = self.avail.max(a);
            env::pass(t.saturating_sub(self.now));
            self.now = self.now.max(t);
            true
        } else {
            false
        }
    }
}

pub struct RState {
    pub tag: u64,
    pub data: Arc<Vec<u8>>,
    /// Offset in the log of data[0].
    pub pos: u64,
    pub end: u64,
    pub chunk: Chunk,
    pub eintr_pm: u32,
    pub eintr_max: u32,
    pub seed: u64,
    pub eintr_at: u64,
    pub eintr_n: u32,
    pub faults: Vec<(u64, u8, u32, C)>,
    pub fired: Vec<(u64, u8)>,
    /// Bytes that only become readable after end-of-file was reported once.
    pub late: bool,
    pub eof_seen: bool,
    pub limit_before_late: u64,
    pub gate: Option<Arc<Mutex<Gate>>>,
    /// What the caller is doing while this read call is in progress (other parsers' steps).
    pub hook: Option<Box<dyn FnMut(u64) + Send>>,
    pub calls: u64,
}

#[derive(Clone)]
pub struct SimReader {
    pub st: Arc<Mutex<RState>>,
}

/// How positions inside a log map to kinds of place, for counting.
pub fn place(bytes_len: u64, frames: &BTreeMap<u64, u64>, abs: u64) -> C {
    if abs >= bytes_len {
        C::ReadErrAtEnd
    } else if abs < 16 {
        C::ReadErrInFileHeader
    } else {
        match frames.range(..=abs).next_back() {
            Some((s, _)) if abs - s < 3 => C::ReadErrInFrameHeader,
            _ => C::ReadErrInBody,
        }
    }
}

impl SimReader {
    pub fn new(tag: u64, data: Arc<Vec<u8>>, plan: &ReadPlan, abs: impl Fn(Pos) -> Option<u64>, frames: &BTreeMap<u64, u64>) -> SimReader {
        let end = data.len() as u64;
        let mut faults: Vec<(u64, u8, u32, C)> = plan
            .faults
            .iter()
            .filter_map(|f| {
                let a = abs(f.at)?.min(end);
                Some((a, f.kind, f.times, place(end, frames, a)))
            })
            .collect();
        faults.sort_by_key(|f| f.0);
        SimReader {
            st: Arc::new(Mutex::new(RState {
                tag,
                data,
                pos: 0,
                end,
                chunk: plan.chunk,
                eintr_pm: plan.eintr_pm,
                eintr_max: plan.eintr_max,
                seed: plan.seed,
                eintr_at: u64::MAX,
                eintr_n: 0,
                faults,
                fired: Vec::with_capacity(8),
                late: false,
                eof_seen: false,
                limit_before_late: end,
                gate: None,
                hook: None,
                calls: 0,
            })),
        }
    }
    pub fn simple(data: Arc<Vec<u8>>, chunk: Chunk) -> SimReader {
        SimReader::new(0, data, &ReadPlan { chunk, ..Default::default() }, |_| None, &BTreeMap::new())
    }
    pub fn boxed(self, buf: Option<u32>) -> Dev {
        match buf {
            None => Dev::Raw(self),
            Some(n) => Dev::Buf(BufReader::with_capacity((n as usize).max(1), self)),
        }
    }
}

/// Message carried by an injected error, so that it can be recognised.
pub fn fault_text(pos: u64) -> String {
    format!("simulated fault at {pos}")
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        alloc::leave(|| {
            sched::point();
            let hook = { self.st.lock().unwrap().hook.take() };
            if let Some(mut h) = hook {
                let n = { self.st.lock().unwrap().calls };
                h(n);
                self.st.lock().unwrap().hook = Some(h);
            }
            let r = self.read_inner(buf);
            let code = match &r {
                Ok(n) => *n as u64,
                Err(e) => 1 << 40 | e.kind() as u64,
            };
            let st = self.st.lock().unwrap();
            stats::event(st.tag.wrapping_mul(0x9e37) ^ (st.pos << 16) ^ code);
            r
        })
    }
}

impl SimReader {
    fn read_inner(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut g = self.st.lock().unwrap();
        let s = &mut *g;
        s.calls += 1;
        stats::count(C::ReadCall);
        env::call(20);
        if buf.is_empty() {
            return Ok(0);
        }
        // A transient interruption, a bounded number of times in a row at any one offset.
        if s.eintr_pm > 0 {
            if s.eintr_at != s.pos {
                s.eintr_at = s.pos;
                let h = mix2(s.seed ^ 0xe1, s.pos);
                s.eintr_n = if h % 1000 < s.eintr_pm as u64 { 1 + (h >> 20) as u32 % s.eintr_max.max(1) } else { 0 };
            }
            if s.eintr_n > 0 {
                s.eintr_n -= 1;
                stats::count(C::ReadIntr);
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
        }
        let mut limit = s.end;
        for f in s.faults.iter_mut() {
            if f.2 == 0 || f.0 < s.pos {
                continue;
            }
            if f.0 == s.pos {
                f.2 -= 1;
                let k = f.1;
                stats::count(C::ReadErr);
                stats::count(f.3);
                if kind(k) == ErrorKind::UnexpectedEof {
                    stats::count(C::ReadErrEofKind);
                }
                s.fired.push((s.pos, k));
                return Err(io::Error::new(kind(k), fault_text(s.pos)));
            }
            limit = limit.min(f.0);
            break;
        }
        if s.late && !s.eof_seen {
            limit = limit.min(s.limit_before_late);
        }
        if let Some(gate) = &s.gate {
            let mut g = gate.lock().unwrap();
            while s.pos >= g.avail && s.pos < s.end {
                if !g.blocking {
                    stats::count(C::WouldBlock);
                    return Err(io::Error::new(ErrorKind::WouldBlock, fault_text(s.pos)));
                }
                stats::count(C::BlockedWait);
                let a = g.avail;
                g.waits.push(a);
                if !g.advance() {
                    g.avail = s.end;
                }
            }
            limit = limit.min(g.avail);
        }
        if s.pos >= limit {
            if s.late && !s.eof_seen && s.pos >= s.limit_before_late {
                s.eof_seen = true;
                stats::count(C::Late);
            }
            return Ok(0);
        }
        let room = (limit - s.pos) as usize;
        let want = buf.len().min(room);
        let n = s.chunk.take(s.pos, want);
        if n < want {
            stats::count(C::ShortRead);
        }
        let p = s.pos as usize;
        buf[..n].copy_from_slice(&s.data[p..p + n]);
        s.pos += n as u64;
        stats::add(C::BytesRead, n as u64);
        Ok(n)
    }
}

/// The reader as the code under test gets it.
pub enum Dev {
    Raw(SimReader),
    Buf(BufReader<SimReader>),
}

impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self {
            Dev::Raw(r) => r.read(buf),
            Dev::Buf(r) => alloc::leave(|| r.read(buf)),
        }
    }
}

pub struct WState {
    pub tag: u64,
    pub out: Vec<u8>,
    pub plan: WritePlan,
    pub eintr_at: u64,
    pub eintr_n: u32,
    pub fired: u32,
    pub calls: u64,
    /// The process dies when this many bytes have been accepted.
    pub die_at: Option<u64>,
    pub dead: bool,
}

#[derive(Clone)]
pub struct SimWriter {
    pub st: Arc<Mutex<WState>>,
}

impl SimWriter {
    pub fn new(tag: u64, plan: &WritePlan) -> SimWriter {
        SimWriter {
            st: Arc::new(Mutex::new(WState {
                tag,
                out: Vec::new(),
                plan: plan.clone(),
                eintr_at: u64::MAX,
                eintr_n: 0,
                fired: 0,
                calls: 0,
                die_at: None,
                dead: false,
            })),
        }
    }
    pub fn out(&self) -> Vec<u8> {
        self.st.lock().unwrap().out.clone()
    }
    pub fn len(&self) -> usize {
        self.st.lock().unwrap().out.len()
    }
    pub fn fired(&self) -> u32 {
        self.st.lock().unwrap().fired
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        alloc::leave(|| {
            sched::point();
            let r = self.write_inner(buf);
            let code = match &r {
                Ok(n) => *n as u64,
                Err(e) => 1 << 40 | e.kind() as u64,
            };
            let st = self.st.lock().unwrap();
            stats::event(st.tag.wrapping_mul(0x7f4a) ^ ((st.out.len() as u64) << 16) ^ code ^ 0x3333);
            r
        })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl SimWriter {
    fn write_inner(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut g = self.st.lock().unwrap();
        let s = &mut *g;
        s.calls += 1;
        stats::count(C::WriteCall);
        env::call(30);
        if buf.is_empty() {
            return Ok(0);
        }
        if s.dead {
            return Err(io::Error::new(ErrorKind::Other, "process is gone"));
        }
        let pos = s.out.len() as u64;
        if s.plan.eintr_pm > 0 {
            if s.eintr_at != pos {
                s.eintr_at = pos;
                let h = mix2(s.plan.seed ^ 0xe2, pos);
                s.eintr_n =
                    if h % 1000 < s.plan.eintr_pm as u64 { 1 + (h >> 20) as u32 % s.plan.eintr_max.max(1) } else { 0 };
            }
            if s.eintr_n > 0 {
                s.eintr_n -= 1;
                stats::count(C::WriteIntr);
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
        }
        let mut limit = u64::MAX;
        for f in s.plan.faults.iter_mut() {
            if f.times == 0 || f.at < pos {
                continue;
            }
            if f.at == pos {
                f.times -= 1;
                s.fired += 1;
                if f.kind == 255 {
                    stats::count(C::WriteZero);
                    return Ok(0);
                }
                stats::count(C::WriteErr);
                return Err(io::Error::new(kind(f.kind), fault_text(pos)));
            }
            limit = limit.min(f.at);
        }
        if let Some(cap) = s.plan.cap {
            if pos >= cap {
                s.fired += 1;
                stats::count(C::DiskFull);
                return Err(io::Error::new(ErrorKind::StorageFull, fault_text(pos)));
            }
            limit = limit.min(cap);
        }
        if let Some(d) = s.die_at {
            if pos >= d {
                s.dead = true;
                return Err(io::Error::new(ErrorKind::Other, "process is gone"));
            }
            limit = limit.min(d);
        }
        let want = (buf.len() as u64).min(limit - pos) as usize;
        let n = s.plan.chunk.take(pos, want);
        if n < buf.len() {
            stats::count(C::ShortWrite);
        }
        s.out.extend_from_slice(&buf[..n]);
        stats::add(C::BytesWritten, n as u64);
        Ok(n)
    }
}
