//! The simulated world in front of the decoder: an `io::Read` whose every call
//! is decided by a plan (how many bytes, which fault, how long it takes), and a
//! `ReadBytes` with the same kind of faults at exact byte positions.

use crate::alloc;
use crate::steps;
use crate::cx::{bump, hash_bytes, Log};
use crate::rng::{Rng, Src};
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, ErrorKind, Read};
use std::sync::{Arc, Mutex};

/// Panic payload: the decoder made more read calls than its budget.
pub struct SimHang;
/// Panic payload: the simulated reader panicked as planned.
pub struct SimPanic;

#[derive(Debug)]
pub struct SimErr(pub u64);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "simulated error {}", self.0) }
}
impl std::error::Error for SimErr {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ErrSpec { Payload(ErrorKind, u64), Os(i32), Kind(ErrorKind) }

impl ErrSpec {
    pub fn make(&self) -> io::Error {
        match *self {
            ErrSpec::Payload(k, id) => io::Error::new(k, SimErr(id)),
            ErrSpec::Os(c) => io::Error::from_raw_os_error(c),
            ErrSpec::Kind(k) => io::Error::from(k),
        }
    }
    pub fn matches(&self, e: &io::Error) -> bool {
        match *self {
            ErrSpec::Payload(k, id) => e.kind() == k
                && e.get_ref().and_then(|r| r.downcast_ref::<SimErr>()).map_or(false, |s| s.0 == id),
            ErrSpec::Os(c) => e.raw_os_error() == Some(c),
            ErrSpec::Kind(k) => e.kind() == k && e.raw_os_error().is_none() && e.get_ref().is_none(),
        }
    }
}

pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::TimedOut, ErrorKind::WouldBlock, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe,
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::PermissionDenied,
    ErrorKind::NotFound, ErrorKind::WriteZero, ErrorKind::InvalidInput, ErrorKind::ConnectionAborted,
];
/// EIO, EAGAIN, EBADF, ETIMEDOUT, ESTALE, ENOMEM, EISDIR, ECONNRESET.
pub const OS: [i32; 8] = [5, 11, 9, 110, 116, 12, 21, 104];

pub fn gen_err(src: &mut Src) -> ErrSpec {
    match src.weighted(&[3, 2, 1]) {
        0 => { let k = src.pick(&KINDS); let id = src.draw(1 << 20); ErrSpec::Payload(k, id) }
        1 => ErrSpec::Os(src.pick(&OS)),
        _ => ErrSpec::Kind(src.pick(&KINDS)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Intr,
    Err(ErrSpec),
    Zero,
    Stall(u64),
    Panic,
    /// Claims this many bytes, whatever the size of the buffer.
    LieOver(usize),
    /// Claims to have filled part of the buffer, having written nothing.
    LieNoWrite(usize),
    /// Writes garbage into the buffer, then fails.
    Scribble(ErrSpec),
    /// Writes garbage into the buffer, then claims the end.
    ScribbleZero,
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::Intr => "interrupted", FaultKind::Err(_) => "io_error", FaultKind::Zero => "zero_read",
            FaultKind::Stall(_) => "stall", FaultKind::Panic => "reader_panic", FaultKind::LieOver(_) => "claims_too_much",
            FaultKind::LieNoWrite(_) => "claims_unwritten", FaultKind::Scribble(_) => "scribble_and_fail",
            FaultKind::ScribbleZero => "scribble_and_end",
        }
    }
}

/// Fires at the calls made when exactly `at` bytes have been delivered.
#[derive(Clone, Copy, Debug)]
pub struct Fault { pub at: u64, pub kind: FaultKind, pub count: u64 }

pub const FOREVER: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub enum Chunks {
    Full,
    One,
    Fixed(usize),
    Random(usize, Rng),
    /// Delivery stops at each of these offsets.
    Bounds(Vec<usize>),
    /// Random mixture of one byte, few bytes and everything.
    Mixed(Rng),
}

impl std::fmt::Debug for Rng {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "rng") }
}

pub fn gen_chunks(src: &mut Src, bounds: &[usize]) -> Chunks {
    match src.weighted(&[3, 3, 3, 3, 4, 3]) {
        0 => Chunks::Full,
        1 => Chunks::One,
        2 => Chunks::Fixed(match src.weighted(&[3, 2, 2]) {
            0 => src.usize(2, 9),
            1 => src.pick(&[2047usize, 2048, 2049, 1024, 4096, 511]),
            _ => src.usize(10, 3000),
        }),
        3 => { let m = src.pick(&[3usize, 10, 100, 2048, 5000]); Chunks::Random(m, src.sub()) }
        4 => {
            let jit = src.weighted(&[3, 1, 1, 2]);
            let mut r = src.sub();
            let mut v: Vec<usize> = bounds.iter().map(|&b| match jit {
                0 => b, 1 => b + 1, 2 => b.saturating_sub(1), _ => (b + r.below(7) as usize).saturating_sub(3),
            }).collect();
            v.sort();
            Chunks::Bounds(v)
        }
        _ => Chunks::Mixed(src.sub()),
    }
}

#[derive(Clone)]
pub enum Data {
    Bytes(Arc<Vec<u8>>),
    /// Prefix, a run of one byte value, suffix: long inputs without the memory.
    Run { prefix: Arc<Vec<u8>>, byte: u8, len: u64, suffix: Arc<Vec<u8>> },
    /// Prefix, then one piece repeated `times`, suffix.
    Cycle { prefix: Arc<Vec<u8>>, unit: Arc<Vec<u8>>, times: u64, suffix: Arc<Vec<u8>> },
}

impl Data {
    pub fn len(&self) -> u64 {
        match self {
            Data::Bytes(b) => b.len() as u64,
            Data::Run { prefix, len, suffix, .. } => prefix.len() as u64 + len + suffix.len() as u64,
            Data::Cycle { prefix, unit, times, suffix } => prefix.len() as u64 + unit.len() as u64 * times + suffix.len() as u64,
        }
    }
    fn copy(&self, pos: u64, out: &mut [u8]) {
        match self {
            Data::Cycle { prefix, unit, times, suffix } => {
                let (a, b) = (prefix.len() as u64, prefix.len() as u64 + unit.len() as u64 * times);
                let mut i = 0;
                while i < out.len() {
                    let p = pos + i as u64;
                    let from: &[u8] = if p < a { &prefix[p as usize..] } else if p < b { &unit[((p - a) % unit.len() as u64) as usize..] } else { &suffix[(p - b) as usize..] };
                    let n = from.len().min(out.len() - i);
                    out[i..i + n].copy_from_slice(&from[..n]);
                    i += n;
                }
            }
            Data::Bytes(b) => out.copy_from_slice(&b[pos as usize..pos as usize + out.len()]),
            Data::Run { prefix, byte, len, suffix } => {
                let (a, b) = (prefix.len() as u64, prefix.len() as u64 + len);
                if pos >= a && pos + out.len() as u64 <= b {
                    for o in out.iter_mut() { *o = *byte }
                    return;
                }
                for (i, o) in out.iter_mut().enumerate() {
                    let p = pos + i as u64;
                    *o = if p < a { prefix[p as usize] } else if p < b { *byte } else { suffix[(p - b) as usize] };
                }
            }
        }
    }
}

#[derive(Default, Debug)]
pub struct Obs {
    pub calls: u64,
    pub delivered: u64,
    pub faults: u64,
    /// Bytes delivered before the most recent call.
    pub last_call_pos: Option<u64>,
    pub clock: u64,
    pub by_kind: BTreeMap<String, u64>,
    /// Hash of the contents of all buffers handed to the reader.
    pub buf_hash: u64,
    pub watched: u64,
    pub budget: u64,
    pub empty_buf_calls: u64,
}

pub type Shared = Arc<Mutex<Obs>>;

pub fn lock(s: &Shared) -> std::sync::MutexGuard<'_, Obs> { s.lock().unwrap_or_else(|e| e.into_inner()) }

pub struct SimReader {
    pub data: Data,
    pos: u64,
    pub chunks: Chunks,
    pub faults: VecDeque<Fault>,
    /// (offset, time): the bytes below the offset have arrived at the time.
    pub arrivals: Vec<(u64, u64)>,
    pub obs: Shared,
    log: Log,
    pub name: u64,
    /// Hash the buffers handed in (they must be initialised).
    pub watch_bufs: bool,
    pub hook: Option<Box<dyn FnMut() + Send>>,
}

impl SimReader {
    pub fn new(data: Data, chunks: Chunks, mut faults: Vec<Fault>, log: &Log) -> SimReader {
        faults.sort_by_key(|f| f.at);
        let budget = data.len() + 1000
            + faults.iter().map(|f| if f.count == FOREVER { 5000 } else { f.count }).sum::<u64>();
        SimReader {
            data, pos: 0, chunks, faults: faults.into(), arrivals: vec![],
            obs: Arc::new(Mutex::new(Obs { budget: budget * 2, ..Obs::default() })),
            log: log.clone(), name: 0, watch_bufs: false, hook: None,
        }
    }
    pub fn bytes(b: &[u8], chunks: Chunks, faults: Vec<Fault>, log: &Log) -> SimReader {
        SimReader::new(Data::Bytes(Arc::new(b.to_vec())), chunks, faults, log)
    }

    /// Reads past the four bytes of the stream header.
    pub fn skip_magic(&mut self) -> io::Result<()> { self.read_exact(&mut [0; 4]) }

    fn step(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(h) = self.hook.as_mut() { h() }
        let obs = self.obs.clone();
        let mut o = lock(&obs);
        o.calls += 1;
        o.clock += 1_000;
        o.last_call_pos = Some(self.pos);
        if self.watch_bufs {
            // A large buffer that is filled by many calls is only looked at in full a few times.
            let full = buf.len() <= 1 << 12 || o.watched < 1 << 20;
            let part = if full { &buf[..] } else { &buf[..1 << 12] };
            o.watched += part.len() as u64;
            o.buf_hash = hash_bytes(hash_bytes(o.buf_hash, part), &buf[buf.len() - buf.len().min(64)..]);
        }
        if o.calls > o.budget {
            drop(o);
            std::panic::panic_any(SimHang);
        }
        // Faults first.
        while let Some(f) = self.faults.front().copied() {
            if f.at > self.pos { break }
            if f.count == 0 { self.faults.pop_front(); continue }
            if f.count != FOREVER { self.faults.front_mut().unwrap().count -= 1 }
            bump(&mut o.by_kind, f.kind.name(), 1);
            if !matches!(f.kind, FaultKind::Stall(_)) { o.faults += 1 }
            let (name, pos) = (self.name, self.pos);
            self.log.ev(2 + name, pos, f.kind.name().len() as u64 ^ 77, || format!("read#{} at {} -> {:?}", name, pos, f.kind));
            match f.kind {
                FaultKind::Intr => return Err(io::Error::from(ErrorKind::Interrupted)),
                FaultKind::Err(e) => return Err(e.make()),
                FaultKind::Zero => return Ok(0),
                FaultKind::Stall(ns) => { o.clock += ns; continue }
                FaultKind::Panic => { drop(o); std::panic::panic_any(SimPanic) }
                FaultKind::LieOver(n) => {
                    for (i, b) in buf.iter_mut().enumerate() { *b = (i as u8) ^ 0x5c }
                    return Ok(n)
                }
                FaultKind::LieNoWrite(n) => return Ok(n.min(buf.len())),
                FaultKind::Scribble(e) => {
                    for (i, b) in buf.iter_mut().enumerate() { *b = (i as u8) ^ 0xc5 }
                    return Err(e.make())
                }
                FaultKind::ScribbleZero => {
                    for (i, b) in buf.iter_mut().enumerate() { *b = (i as u8) ^ 0xc5 }
                    return Ok(0)
                }
            }
        }
        if buf.is_empty() { o.empty_buf_calls += 1 }
        let mut n = (self.data.len() - self.pos).min(buf.len() as u64) as usize;
        match self.chunks {
            Chunks::Full => {}
            Chunks::One => n = n.min(1),
            Chunks::Fixed(k) => n = n.min(k.max(1)),
            Chunks::Random(m, ref mut r) => n = n.min(1 + r.below(m as u64) as usize),
            Chunks::Bounds(ref v) => {
                let i = v.partition_point(|&b| b as u64 <= self.pos);
                if let Some(&b) = v.get(i) { n = n.min((b as u64 - self.pos) as usize) }
            }
            Chunks::Mixed(ref mut r) => n = match r.below(4) {
                0 => n.min(1),
                1 => n.min(1 + r.below(8) as usize),
                2 => n.min(1 + r.below(600) as usize),
                _ => n,
            },
        }
        if let Some(f) = self.faults.front() { n = n.min((f.at - self.pos) as usize) }
        if !self.arrivals.is_empty() {
            let i = self.arrivals.partition_point(|a| a.0 <= self.pos);
            if let Some(&(off, t)) = self.arrivals.get(i) {
                n = n.min((off - self.pos) as usize);
                o.clock = o.clock.max(t);
            }
        }
        self.data.copy(self.pos, &mut buf[..n]);
        let (name, pos) = (self.name, self.pos);
        self.log.ev(1 + name, pos, n as u64, || format!("read#{} at {} -> {} bytes", name, pos, n));
        self.pos += n as u64;
        o.delivered = self.pos;
        steps::delivered(n);
        Ok(n)
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let (prev, was) = (alloc::pause(), steps::arm(false));
        let r = self.step(buf);
        alloc::resume(prev);
        steps::arm(was);
        r
    }
}

/// A caller-supplied `ReadBytes`: exact consumption, one optional failure, and
/// (if `lazy`) an implementation that reports success without writing.
pub struct SimBytes {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    pub fault: Option<(usize, ErrSpec)>,
    /// Number of `read_into` calls that claim success without writing.
    pub lazy: u32,
    pub buf_hash: u64,
    pub calls: u64,
}

impl SimBytes {
    pub fn new(data: Arc<Vec<u8>>) -> SimBytes {
        SimBytes { data, pos: 0, fault: None, lazy: 0, buf_hash: 0, calls: 0 }
    }
    fn check(&mut self, n: usize) -> io::Result<()> {
        self.calls += 1;
        if let Some((at, e)) = self.fault {
            if self.pos + n > at { self.fault = None; self.pos = at.max(self.pos); return Err(e.make()) }
        }
        if self.pos + n > self.data.len() {
            self.pos = self.data.len();
            return Err(io::Error::new(ErrorKind::UnexpectedEof, SimErr(0)))
        }
        Ok(())
    }
}

impl claxon::input::ReadBytes for SimBytes {
    fn read_u8(&mut self) -> io::Result<u8> {
        let prev = alloc::pause();
        let c = self.check(1);
        alloc::resume(prev);
        c?;
        self.pos += 1;
        Ok(self.data[self.pos - 1])
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
        if self.pos >= self.data.len() && self.fault.is_none() { self.calls += 1; return Ok(None) }
        self.read_u8().map(Some)
    }
    fn read_into(&mut self, buf: &mut [u8]) -> io::Result<()> {
        let prev = alloc::pause();
        self.buf_hash = hash_bytes(self.buf_hash, buf);
        let c = self.check(buf.len());
        alloc::resume(prev);
        c?;
        if self.lazy > 0 {
            self.lazy -= 1;
        } else {
            buf.copy_from_slice(&self.data[self.pos..self.pos + buf.len()]);
        }
        self.pos += buf.len();
        Ok(())
    }
    fn skip(&mut self, amount: u32) -> io::Result<()> {
        let prev = alloc::pause();
        let c = self.check(amount as usize);
        alloc::resume(prev);
        c?;
        self.pos += amount as usize;
        Ok(())
    }
}
