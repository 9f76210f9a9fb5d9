//! Calling the code under test: panics caught, outcomes made comparable, the
//! reader's counters and the allocator's read around every operation.

use crate::alloc::{self, Usage};
use crate::cx::*;
use crate::reader::*;
use crate::rng::{Rng, Src};
use crate::steps;
use claxon::frame::{Block, FrameReader};
use claxon::input::{BufferedReader, ReadBytes};
use claxon::{Error, FlacReader, FlacReaderOptions};
use std::cell::RefCell;
use std::io::ErrorKind;

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) } }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let prev = alloc::pause();
        let was = steps::arm(false);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "(payload)".into() };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
        steps::arm(was);
        alloc::resume(prev);
    }));
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pan { Lib(String), Hang, Sim }

/// Runs library code, catching panics.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, Pan> {
    steps::begin_op();
    let was = steps::arm(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    steps::arm(was);
    steps::end_op();
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            alloc::pause();
            if p.is::<SimHang>() { Err(Pan::Hang) }
            else if p.is::<SimPanic>() { Err(Pan::Sim) }
            else { Err(Pan::Lib(PANIC.with(|m| m.borrow().clone()))) }
        }
    }
}

/// As `lib`, with the allocator accounting for what happens inside.
pub fn lib_acct<T>(f: impl FnOnce() -> T) -> (Result<T, Pan>, Usage) {
    alloc::begin();
    let r = lib(f);
    let u = alloc::end();
    (r, u)
}

/// A panic or a hang where none is allowed.
pub fn no_panic<T>(what: &str, r: Result<T, Pan>) -> Res<T> {
    match r {
        Ok(v) => Ok(v),
        Err(Pan::Lib(m)) => fail("panic", format!("{} panicked: {}", what, m)),
        Err(Pan::Hang) => fail("hang", format!("{} exceeded its budget of read calls", what)),
        Err(Pan::Sim) => fail("panic", format!("{}: unplanned reader panic", what)),
    }
}

pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> { no_panic(what, lib(f)) }

#[derive(Clone, Debug, PartialEq)]
pub enum EObs { Io(ErrorKind, Option<i32>, Option<u64>), Format, Unsupported }

pub fn eobs(e: &Error) -> EObs {
    match *e {
        Error::IoError(ref e) => EObs::Io(e.kind(), e.raw_os_error(),
            e.get_ref().and_then(|r| r.downcast_ref::<SimErr>()).map(|s| s.0)),
        Error::FormatError(_) => EObs::Format,
        Error::Unsupported(_) => EObs::Unsupported,
    }
}

pub fn is_eof(e: &Error) -> bool {
    matches!(*e, Error::IoError(ref e) if e.kind() == ErrorKind::UnexpectedEof)
}

pub fn io_matches(e: &Error, s: ErrSpec) -> bool {
    matches!(*e, Error::IoError(ref e) if s.matches(e))
}

#[derive(Clone, Debug, PartialEq)]
pub struct BObs { pub time: u64, pub bs: u32, pub ch: u32, pub data: Vec<i32> }

impl BObs {
    pub fn brief(&self) -> String {
        format!("block(time {}, {} samples x {} ch, hash {:016x})", self.time, self.bs, self.ch, hash_i32(0, &self.data))
    }
}

/// Reads a block through every accessor; they must agree with one another.
pub fn observe(b: &Block) -> Res<BObs> {
    let r = lib(|| -> Res<BObs> {
        let (bs, ch) = (b.duration(), b.channels());
        ensure!(b.len() as u64 == bs as u64 * ch as u64, "block-accessors", "len {} but {} x {}", b.len(), bs, ch);
        let mut data = Vec::with_capacity(b.len() as usize);
        for c in 0..ch {
            let s = b.channel(c);
            ensure!(s.len() == bs as usize, "block-accessors", "channel({}) has {} of {} samples", c, s.len(), bs);
            let step = if bs > 512 { 37 } else { 1 };
            let mut i = 0;
            while i < bs {
                ensure!(b.sample(c, i) == s[i as usize], "block-accessors", "sample({}, {}) differs from channel()", c, i);
                i += step;
            }
            if bs > 0 { ensure!(b.sample(c, bs - 1) == s[bs as usize - 1], "block-accessors", "last sample differs") }
            data.extend_from_slice(s);
        }
        if ch == 2 {
            let mut n = 0usize;
            for (l, r) in b.stereo_samples() {
                ensure!(n < bs as usize && l == data[n] && r == data[bs as usize + n], "block-accessors",
                        "stereo_samples() item {} differs", n);
                n += 1;
            }
            ensure!(n == bs as usize, "block-accessors", "stereo_samples() gave {} of {}", n, bs);
            if b.time() % 4 == 1 || bs < 200 {
                let mut r = Rng::new(b.time() ^ (data[0] as u64) << 16 ^ bs as u64);
                walk(&mut r, "stereo_samples()", b.stereo_samples(), n, n, |i, (l, r)| {
                    ensure!(l == data[i] && r == data[bs as usize + i], "block-accessors", "stereo_samples() item {} differs", i);
                    Ok(())
                })?;
            }
        }
        Ok(BObs { time: b.time(), bs, ch, data })
    });
    no_panic("a Block accessor", r)?
}

/// Takes `stop` of the `len` items of an iterator in all the ways there are to
/// take items: each must give what repeated calls of `next` give.
pub fn walk<I: Iterator>(r: &mut Rng, what: &str, mut it: I, len: usize, stop: usize, mut same: impl FnMut(usize, I::Item) -> Res<()>) -> Res<()> {
    let mut pos = 0;
    let lost = |p: usize, how: &str| fail("items-lost", format!("{}: {} at item {} of {} gave nothing", what, how, p, len));
    loop {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= len - pos && hi.map_or(true, |h| h >= len - pos), "size-hint", "{} hints at {:?} items and has {}", what, (lo, hi), len - pos);
        if pos >= stop { break }
        let k = match r.below(3) { 0 => r.below(3), 1 => r.below(40), _ => r.below((stop - pos) as u64) } as usize;
        let k = k.min(stop - pos - 1);
        match r.below(7) {
            0 | 1 => match it.next() { Some(x) => { same(pos, x)?; pos += 1 } None => return lost(pos, "next") },
            2 if stop == len && r.below(12) == 0 => {
                // Too far: nothing, and then it is at its end.
                let k = len - pos + r.below(4) as usize;
                ensure!(it.nth(k).is_none(), "items-extra", "{}: nth({}) at item {} of {} gave something", what, k, pos, len);
                pos = len;
            }
            2 => match it.nth(k) { Some(x) => { pos += k; same(pos, x)?; pos += 1 } None => return lost(pos, "nth") },
            3 => match it.by_ref().skip(k).next() { Some(x) => { pos += k; same(pos, x)?; pos += 1 } None => return lost(pos, "skip") },
            4 => {
                let before = pos;
                for x in it.by_ref().take(k) { same(pos, x)?; pos += 1 }
                if pos != before + k { return lost(pos, "take") }
            }
            5 => {
                let (mut n, mut bad) = (0, Ok(()));
                let found = it.any(|x| { if bad.is_ok() { bad = same(pos + n, x) } n += 1; n > k || bad.is_err() });
                bad?;
                pos += n;
                if !found { return lost(pos, "any") }
            }
            _ => {
                // The rest at once.
                if stop < len { continue }
                match r.below(4) {
                    0 => { let n = it.count(); ensure!(n == len - pos, "items-lost", "{}: count() gave {} of {}", what, n, len - pos) }
                    1 => match it.last() { Some(x) => same(len - 1, x)?, None => return lost(pos, "last") },
                    2 => {
                        let (mut n, mut bad) = (pos, Ok(()));
                        it.for_each(|x| { if bad.is_ok() { bad = if n < len { same(n, x) } else { fail("items-extra", format!("{}: more than {} items", what, len)) } } n += 1 });
                        bad?;
                        ensure!(n == len, "items-lost", "{}: for_each() ended at {} of {}", what, n, len);
                    }
                    _ => {
                        let v: Vec<I::Item> = it.take(len - pos + 3).collect();
                        ensure!(v.len() == len - pos, "items-lost", "{}: collect() gave {} of {}", what, v.len(), len - pos);
                        for (i, x) in v.into_iter().enumerate() { same(pos + i, x)? }
                    }
                }
                return Ok(());
            }
        }
    }
    if stop == len {
        if r.below(4) == 0 { let k = r.below(5) as usize; ensure!(it.nth(k).is_none(), "items-extra", "{}: more than {} items", what, len) }
        if r.below(2) == 0 { ensure!(it.next().is_none(), "items-extra", "{}: more than {} items", what, len) }
        else { let n = it.count(); ensure!(n == 0, "items-extra", "{}: {} items more than {}", what, n, len) }
    }
    Ok(())
}

/// The empty block, with which callers start, has nothing in it.
pub fn empty_block() -> Res<Vec<i32>> {
    let b = call("Block::empty", Block::empty)?;
    ensure!(b.time() == 0 && b.duration() == 0 && b.channels() == 0 && b.len() == 0, "not-empty",
        "the empty block: time {}, duration {}, {} channels, length {}", b.time(), b.duration(), b.channels(), b.len());
    let v = b.into_buffer();
    ensure!(v.is_empty(), "not-empty", "the empty block has a buffer of {} samples", v.len());
    Ok(v)
}

/// Nothing outside the block can be seen: the accessors panic, as documented.
pub fn beyond(b: &Block, src: &mut Src) -> Res<()> {
    let (bs, ch) = (b.duration(), b.channels());
    let far = ch + [0, 0, 1, 7, 1 << 20][src.usize(0, 4)];
    let (what, r) = match src.usize(0, 3) {
        0 => (format!("channel({})", far), lib(|| { b.channel(far); })),
        1 => { let i = src.range(0, bs.saturating_sub(1) as u64) as u32; (format!("sample({}, {})", far, i), lib(|| { b.sample(far, i); })) }
        2 => { let i = bs + [0, 1, 15, 4096, 1 << 20][src.usize(0, 4)]; (format!("sample({}, {})", ch - 1, i), lib(|| { b.sample(ch - 1, i); })) }
        _ => {
            if ch == 2 { return Ok(()) }
            ("stereo_samples()".to_string(), lib(|| { b.stereo_samples().next(); }))
        }
    };
    match r {
        Err(Pan::Lib(_)) => Ok(()),
        Ok(()) => fail("beyond-block", format!("{} of a block of {} channels of {} samples gave something", what, ch, bs)),
        r => no_panic(&what, r),
    }
}

/// How the caller treats the sample buffer between calls.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bufs { Fresh, Recycle, Garbage }

pub fn gen_bufs(src: &mut Src) -> Bufs { src.pick(&[Bufs::Recycle, Bufs::Fresh, Bufs::Garbage]) }

pub struct BufPool { policy: Bufs, r: Rng, kept: Vec<i32>, pub mask: i32 }

impl BufPool {
    pub fn new(policy: Bufs, r: Rng) -> BufPool { BufPool { policy, r, kept: Vec::new(), mask: 0 } }
    pub fn get(&mut self) -> Vec<i32> {
        match self.policy {
            Bufs::Fresh => Vec::new(),
            Bufs::Recycle => std::mem::take(&mut self.kept),
            Bufs::Garbage => {
                let cap = self.r.below(600) as usize;
                let len = self.r.below(cap as u64 + 1) as usize;
                let mut v = Vec::with_capacity(cap);
                for _ in 0..len { v.push(self.r.next() as i32 ^ self.mask) }
                v
            }
        }
    }
    pub fn put(&mut self, v: Vec<i32>) {
        if self.policy == Bufs::Recycle { self.kept = v }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Blocks, FreshBlocks, Samples, IntoSamples }

pub fn gen_mode(src: &mut Src) -> Mode {
    src.pick(&[Mode::Blocks, Mode::FreshBlocks, Mode::Samples, Mode::IntoSamples])
}

#[derive(Debug, Clone, PartialEq)]
pub enum End { Eof, Err(EObs), Limit }

/// The reader's counters around one operation.
#[derive(Clone, Copy, Debug, Default)]
pub struct OpRec { pub calls: u64, pub bytes: u64, pub faults: u64, pub delivered: u64, pub last_call: Option<u64>, pub clock: u64 }

pub struct Meter { obs: Shared, calls: u64, bytes: u64, faults: u64 }

impl Meter {
    pub fn new(obs: &Shared) -> Meter {
        let mut o = lock(obs);
        o.last_call_pos = None;
        Meter { obs: obs.clone(), calls: o.calls, bytes: o.delivered, faults: o.faults }
    }
    pub fn done(self) -> OpRec {
        let o = lock(&self.obs);
        OpRec { calls: o.calls - self.calls, bytes: o.delivered - self.bytes, faults: o.faults - self.faults,
                delivered: o.delivered, last_call: o.last_call_pos, clock: o.clock }
    }
}

impl OpRec {
    /// C08: work is bounded by what the reader delivered.
    pub fn bounded(&self, what: &str) -> Res<()> {
        ensure!(self.calls <= self.bytes + self.faults + 1, "too-many-reads",
                "{} made {} read calls for {} bytes and {} faults", what, self.calls, self.bytes, self.faults);
        Ok(())
    }
}

/// What a whole decoding session gave.
pub struct Got {
    pub blocks: Vec<BObs>,
    pub samples: Vec<i32>,
    pub end: End,
    pub err: Option<Error>,
}

pub fn open(cx: &Cx, r: SimReader, o: FlacReaderOptions) -> Res<Result<FlacReader<SimReader>, Error>> {
    // Both ways to open are the same with default options.
    let x = if o == FlacReaderOptions::default() && r.data.len() % 2 == 0 { call("FlacReader::new", move || FlacReader::new(r))? }
        else { call("FlacReader::new_ext", move || FlacReader::new_ext(r, o))? };
    cx.log.ev(50, x.is_ok() as u64, 0, || match x { Ok(_) => "open -> ok".into(), Err(ref e) => format!("open -> {:?}", e) });
    Ok(x)
}

pub fn next_block<R: ReadBytes>(cx: &Cx, fr: &mut FrameReader<R>, buf: Vec<i32>) -> Res<Result<Option<Block>, Error>> {
    let x = call("read_next_or_eof", || fr.read_next_or_eof(buf))?;
    log_block(cx, &x);
    Ok(x)
}

pub fn log_block(cx: &Cx, x: &Result<Option<Block>, Error>) {
    match *x {
        Ok(Some(ref b)) => cx.log.ev(51, b.time(), b.len() as u64, || format!("block time {} bs {} ch {}", b.time(), b.duration(), b.channels())),
        Ok(None) => cx.log.ev(52, 0, 0, || "end of stream".into()),
        Err(ref e) => cx.log.ev(53, 0, 0, || format!("error {:?}", e)),
    }
}

/// Decodes everything up to the end or the first error.
pub fn decode(cx: &mut Cx, mut fr: FlacReader<SimReader>, mode: Mode, bufs: Bufs, limit: usize) -> Res<Got> {
    let mut g = Got { blocks: vec![], samples: vec![], end: End::Limit, err: None };
    let mut pool = BufPool::new(bufs, cx.src.sub());
    match mode {
        Mode::Blocks => {
            let mut it = call("blocks", || fr.blocks())?;
            while g.blocks.len() <= limit {
                match next_block(cx, &mut it, pool.get())? {
                    Ok(Some(b)) => { g.blocks.push(observe(&b)?); pool.put(b.into_buffer()) }
                    Ok(None) => { g.end = End::Eof; break }
                    Err(e) => { g.end = End::Err(eobs(&e)); g.err = Some(e); break }
                }
            }
        }
        Mode::FreshBlocks => {
            while g.blocks.len() <= limit {
                let mut it = call("blocks", || fr.blocks())?;
                match next_block(cx, &mut it, pool.get())? {
                    Ok(Some(b)) => { g.blocks.push(observe(&b)?); pool.put(b.into_buffer()) }
                    Ok(None) => { g.end = End::Eof; break }
                    Err(e) => { g.end = End::Err(eobs(&e)); g.err = Some(e); break }
                }
            }
        }
        Mode::Samples => {
            let r = lib(|| {
                for x in fr.samples() {
                    match x {
                        Ok(s) => g.samples.push(s),
                        Err(e) => { g.err = Some(e); break }
                    }
                    if g.samples.len() > limit * 8 * 65536 + 8 { break }
                }
            });
            no_panic("samples", r)?;
        }
        Mode::IntoSamples => {
            let r = lib(|| {
                for x in fr.into_samples() {
                    match x {
                        Ok(s) => g.samples.push(s),
                        Err(e) => { g.err = Some(e); break }
                    }
                    if g.samples.len() > limit * 8 * 65536 + 8 { break }
                }
            });
            no_panic("into_samples", r)?;
        }
    }
    if matches!(mode, Mode::Samples | Mode::IntoSamples) {
        g.end = match g.err { Some(ref e) => End::Err(eobs(e)), None => End::Eof };
        cx.log.ev(54, g.samples.len() as u64, hash_i32(0, &g.samples), || format!("{} samples, then {:?}", g.samples.len(), g.end));
    }
    Ok(g)
}

/// The decoded audio must be exactly the first `n` frames.
pub fn expect_prefix(cx: &mut Cx, g: &Got, frames: &[crate::gen::Frame], mode: Mode) -> Res<()> {
    match mode {
        Mode::Blocks | Mode::FreshBlocks => {
            ensure!(g.blocks.len() >= frames.len(), "missing-block", "{} blocks delivered, {} expected (ended with {:?})", g.blocks.len(), frames.len(), g.end);
            ensure!(g.blocks.len() <= frames.len(), "extra-block", "{} blocks delivered, only {} exist before the end; extra: {}", g.blocks.len(), frames.len(), g.blocks[frames.len()].brief());
            for (i, (b, f)) in g.blocks.iter().zip(frames).enumerate() { same_audio(i, b, f)? }
            cx.count("blocks_checked", frames.len() as u64);
        }
        _ => {
            let mut want = Vec::new();
            for f in frames { f.interleaved(&mut want) }
            ensure!(g.samples.len() >= want.len(), "missing-samples", "{} samples delivered, {} expected (ended with {:?})", g.samples.len(), want.len(), g.end);
            ensure!(g.samples.len() <= want.len(), "extra-samples", "{} samples delivered, {} expected", g.samples.len(), want.len());
            if let Some(i) = (0..want.len()).find(|&i| want[i] != g.samples[i]) {
                return fail("wrong-sample", format!("sample {}: got {}, encoded {}", i, g.samples[i], want[i]));
            }
            cx.count("samples_checked", want.len() as u64);
        }
    }
    Ok(())
}

pub fn same_audio(i: usize, b: &BObs, f: &crate::gen::Frame) -> Res<()> {
    ensure!(b.bs == f.bs && b.ch == f.ch, "wrong-shape", "block {}: {} samples x {} channels, encoded {} x {}", i, b.bs, b.ch, f.bs, f.ch);
    if let Some(k) = (0..f.data.len()).find(|&k| b.data[k] != f.data[k]) {
        return fail("wrong-sample", format!("block {} channel {} sample {}: got {}, encoded {}", i, k / f.bs as usize, k % f.bs as usize, b.data[k], f.data[k]));
    }
    Ok(())
}

/// Adds a reader's counters to the statistics of the run.
pub fn account(cx: &mut Cx, obs: &Shared) {
    let o = lock(obs);
    cx.st.reads += o.calls;
    cx.st.sim_ns += o.clock;
    for (k, v) in &o.by_kind { bump(&mut cx.st.faults, k, *v) }
}

pub fn buffered(b: &[u8], chunks: Chunks, faults: Vec<Fault>, log: &Log) -> (BufferedReader<SimReader>, Shared) {
    let r = SimReader::bytes(b, chunks, faults, log);
    let o = r.obs.clone();
    (BufferedReader::new(r), o)
}

pub fn last_panic() -> String { PANIC.with(|m| m.borrow().clone()) }

/// Takes a value to another thread, be it allowed or not: what may be sent is
/// judged by `sendable`, not by whether the simulator builds.
pub struct Ship<T>(T);
unsafe impl<T> Send for Ship<T> {}
impl<T> Ship<T> {
    pub fn new(x: T) -> Ship<T> { Ship(x) }
    pub fn land(self) -> T { self.0 }
}

pub struct SendProbe<T>(pub std::marker::PhantomData<T>);
pub trait SendYes { fn yes(&self) -> bool { true } }
pub trait SendNo { fn yes(&self) -> bool { false } }
impl<T: Send> SendYes for SendProbe<T> {}
impl<T> SendNo for &SendProbe<T> {}

/// What may be taken to another thread, if the caller's reader may be.
pub fn sendable() -> Res<()> {
    macro_rules! check {
        ($($t:ty),*) => { $(ensure!((&SendProbe::<$t>(std::marker::PhantomData)).yes(), "not-send", "{} cannot be sent to another thread", stringify!($t));)* };
    }
    check!(FlacReader<SimReader>, FrameReader<BufferedReader<SimReader>>, BufferedReader<SimReader>, claxon::metadata::MetadataBlockReader<BufferedReader<SimReader>>,
        FrameReader<std::io::Cursor<Vec<u8>>>, claxon::FlacIntoSamples<BufferedReader<SimReader>>, Block, claxon::metadata::VorbisComment, claxon::metadata::StreamInfo, claxon::metadata::MetadataBlock, Error);
    Ok(())
}
