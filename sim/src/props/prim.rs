use super::*;
use crate::bits::BitR;
use claxon::input::Bitstream;
use std::io::ErrorKind;

pub fn c17(cx: &mut Cx) -> Res<()> {
    if long::is_far(cx) { return long::far_skips(cx) }
    if cx.src.chance(2, 5) { bits(cx) } else { bytes(cx) }
}

#[derive(Clone, Copy, Debug)]
enum Op { U8, U8Eof, Be16, Be16Eof, Be24, Be32, Le32, Into(usize), Skip(u32) }

fn gen_op(src: &mut Src) -> Op {
    match src.weighted(&[4, 4, 2, 3, 2, 2, 2, 4, 4]) {
        0 => Op::U8,
        1 => Op::U8Eof,
        2 => Op::Be16,
        3 => Op::Be16Eof,
        4 => Op::Be24,
        5 => Op::Be32,
        6 => Op::Le32,
        7 => Op::Into(match src.weighted(&[4, 2, 2, 1]) { 0 => src.usize(0, 12), 1 => src.usize(13, 600), 2 => src.usize(2040, 2056), _ => src.usize(2057, 7000) }),
        _ => Op::Skip(match src.weighted(&[8, 4, 4, 2, 1]) {
            0 => src.range(0, 12) as u32, 1 => src.range(13, 600) as u32, 2 => src.range(2040, 2056) as u32,
            3 => src.range(2057, 7000) as u32, _ => src.pick(&[u32::MAX, 1 << 31, 65_536, 65_537, 1 << 24, 70_000, 32_768]),
        }),
    }
}

enum Out { Bytes(Vec<u8>), Skipped, Nothing, Err(std::io::Error) }

fn perform<R: ReadBytes>(r: &mut R, op: Op) -> Out {
    fn w<T>(x: std::io::Result<T>, f: impl FnOnce(T) -> Vec<u8>) -> Out { match x { Ok(v) => Out::Bytes(f(v)), Err(e) => Out::Err(e) } }
    match op {
        Op::U8 => w(r.read_u8(), |b| vec![b]),
        Op::U8Eof => match r.read_u8_or_eof() { Ok(Some(b)) => Out::Bytes(vec![b]), Ok(None) => Out::Nothing, Err(e) => Out::Err(e) },
        Op::Be16 => w(r.read_be_u16(), |v| v.to_be_bytes().to_vec()),
        Op::Be16Eof => match r.read_be_u16_or_eof() { Ok(Some(v)) => Out::Bytes(v.to_be_bytes().to_vec()), Ok(None) => Out::Nothing, Err(e) => Out::Err(e) },
        Op::Be24 => match r.read_be_u24() {
            Ok(v) => Out::Bytes(if v >> 24 == 0 { v.to_be_bytes()[1..].to_vec() } else { v.to_be_bytes().to_vec() }),
            Err(e) => Out::Err(e),
        },
        Op::Be32 => w(r.read_be_u32(), |v| v.to_be_bytes().to_vec()),
        Op::Le32 => w(r.read_le_u32(), |v| v.to_le_bytes().to_vec()),
        Op::Into(n) => { let mut b = vec![0x5au8; n]; match r.read_into(&mut b) { Ok(()) => Out::Bytes(b), Err(e) => Out::Err(e) } }
        Op::Skip(n) => match r.skip(n) { Ok(()) => Out::Skipped, Err(e) => Out::Err(e) },
    }
}

/// The byte model: the position is known, or known to lie in an interval.
struct Model<'a> {
    data: &'a [u8],
    lo: usize,
    hi: usize,
    obs: Option<Shared>,
    faults: Vec<Fault>,
}

impl<'a> Model<'a> {
    fn need(op: Op) -> usize {
        match op { Op::U8 | Op::U8Eof => 1, Op::Be16 | Op::Be16Eof => 2, Op::Be24 => 3, Op::Be32 | Op::Le32 => 4, Op::Into(n) => n, Op::Skip(n) => n as usize }
    }
    fn hard(&self) -> (u64, u64) {
        match self.obs {
            None => (0, self.data.len() as u64),
            Some(ref o) => { let o = lock(o); (o.faults - o.by_kind.get("interrupted").copied().unwrap_or(0), o.delivered) }
        }
    }
    fn step<R: ReadBytes>(&mut self, cx: &mut Cx, r: &mut R, op: Op) -> Res<bool> {
        let k = Model::need(op);
        let n = self.data.len();
        let (h0, d0) = self.hard();
        let out = call("a ReadBytes operation", || perform(r, op))?;
        let (h1, d1) = self.hard();
        let struck = h1 > h0;
        cx.log.ev(80, self.lo as u64, self.hi as u64, || format!("{:?} at {}..={} -> {}", op, self.lo, self.hi, match out {
            Out::Bytes(ref b) => format!("{} bytes {:02x?}", b.len(), &b[..b.len().min(8)]), Out::Skipped => "ok".into(), Out::Nothing => "None".into(), Out::Err(ref e) => format!("{:?}", e) }));
        let spot = || format!("{:?} at byte {}{} of {}", op, self.lo, if self.hi > self.lo { format!("..={}", self.hi) } else { String::new() }, n);
        match out {
            Out::Bytes(b) => {
                ensure!(!struck, "fault-lost", "{} succeeded although a read call inside it failed", spot());
                ensure!(b.len() == k, "wrong-bytes", "{} gave {} bytes", spot(), b.len());
                if k > 0 { cx.st.nontrivial = true }
                let fits: Vec<usize> = (self.lo..=self.hi).filter(|&p| p + k <= n && self.data[p..p + k] == b[..]).collect();
                if fits.is_empty() {
                    if k == 0 { return Ok(true) }
                    let back = (0..self.lo).rev().find(|&p| p + k <= n && self.data[p..p + k] == b[..]);
                    return fail(if back.is_some() && (k > 3 || self.lo != self.hi) { "byte-again" } else { "wrong-bytes" },
                        format!("{} gave {:02x?}, the source holds {:02x?}", spot(), &b[..k.min(8)], &self.data[self.lo.min(n)..(self.lo + k.min(8)).min(n)]));
                }
                self.lo = fits[0] + k;
                self.hi = fits[fits.len() - 1] + k;
                Ok(true)
            }
            Out::Skipped => {
                ensure!(!struck, "fault-lost", "{} succeeded although a read call inside it failed", spot());
                ensure!(self.lo + k <= n || k == 0, "skipped-past-end", "{} succeeded", spot());
                self.lo = (self.lo + k).min(n);
                self.hi = (self.hi + k).min(n);
                Ok(true)
            }
            Out::Nothing => {
                ensure!(d1 as usize >= self.lo && d1 as usize <= self.hi, "early-end",
                    "{} reported the end of the stream; the source has delivered {} bytes", spot(), d1);
                ensure!(struck || d1 as usize == n, "early-end", "{} reported the end of the stream", spot());
                ensure!(self.fault_at(d0, d1, struck).map_or(true, |f| matches!(f, FaultKind::Zero | FaultKind::ScribbleZero)), "swallowed", "{} reported the end although the read call failed", spot());
                self.lo = d1 as usize;
                self.hi = self.lo;
                Ok(false)
            }
            Out::Err(e) => {
                cx.count("failed_operations", 1);
                if struck {
                    let f = self.fault_at(d0, d1, true);
                    let good = match f {
                        Some(FaultKind::Err(s)) | Some(FaultKind::Scribble(s)) => s.matches(&e),
                        Some(FaultKind::Zero) | Some(FaultKind::ScribbleZero) => e.kind() == ErrorKind::UnexpectedEof,
                        _ => true,
                    };
                    ensure!(good, "changed-error", "{} failed with {:?}; the source failed with {:?}", spot(), e, f);
                } else {
                    ensure!(self.hi + k > n || (k == 0 && self.hi > n), "invented-error", "{} failed with {:?} although the bytes are there", spot(), e);
                    ensure!(e.kind() == ErrorKind::UnexpectedEof, "wrong-error", "{} failed with {:?} at the end", spot(), e);
                    ensure!(d1 as usize == n, "early-end", "{} failed with {:?} after {} bytes of the source", spot(), e, d1);
                }
                if k > 1 {
                    // It may have consumed a part of what it needed.
                    self.hi = (self.hi + k - 1).min(n).max(self.hi.min(n)).min((d1 as usize).max(self.hi));
                }
                Ok(false)
            }
        }
    }
    /// The fault that struck at the current end of delivery.
    fn fault_at(&self, _d0: u64, d1: u64, struck: bool) -> Option<FaultKind> {
        if !struck { return None }
        let v: Vec<FaultKind> = self.faults.iter().filter(|f| f.at == d1 && !matches!(f.kind, FaultKind::Intr | FaultKind::Stall(_))).map(|f| f.kind).collect();
        if v.len() == 1 { Some(v[0]) } else { None }
    }
}

fn history<R: ReadBytes>(cx: &mut Cx, r: &mut R, m: &mut Model, ops: usize) -> Res<()> {
    let mut i = 0;
    while i < ops {
        i += 1;
        let op = gen_op(&mut cx.src);
        m.step(cx, r, op)?;
    }
    Ok(())
}

/// Reads what is left; everything must come, then the end.
fn drain<R: ReadBytes>(cx: &mut Cx, r: &mut R, m: &mut Model) -> Res<()> {
    let n = m.data.len();
    let mut misses = 0;
    let limit = n + 64 + m.faults.iter().map(|f| f.count).sum::<u64>() as usize;
    for _ in 0..limit * 2 {
        if m.hi >= n && m.lo >= n { break }
        let left = n.saturating_sub(m.hi);
        let op = if m.lo == m.hi && left > 64 { Op::Into(left.min(1500)) } else { Op::U8Eof };
        if !m.step(cx, r, op)? { misses += 1 }
        if misses > limit { return fail("stuck", format!("still not at the end: {}..={} of {}", m.lo, m.hi, n)) }
    }
    // At the real end it is reported, again and again.
    if m.lo >= n {
        for _ in 0..3 {
            let (h0, _) = m.hard();
            let out = call("read_u8_or_eof", || perform(r, Op::U8Eof))?;
            let (h1, _) = m.hard();
            match out {
                Out::Nothing => {}
                Out::Err(_) if h1 > h0 => {}
                Out::Err(e) => return fail("wrong-end", format!("at the end of the source: {:?}", e)),
                _ => return fail("byte-again", "a byte was returned after the end of the source"),
            }
        }
    }
    Ok(())
}

fn gen_data(src: &mut Src) -> Vec<u8> {
    let n = match src.weighted(&[80, 80, 80, 40, 1]) { 0 => src.usize(0, 40), 1 => src.usize(41, 1000), 2 => src.usize(2040, 4110), 3 => src.usize(4111, 20_000), _ => src.usize(65_530, 200_000) };
    let mut r = src.sub();
    (0..n).map(|_| r.next() as u8).collect()
}

fn gen_faults(cx: &mut Cx, n: usize) -> Vec<Fault> {
    let mut v = vec![];
    let near = |cx: &mut Cx| gen_offset(&mut cx.src, &[0, 1, 2, 2048, 4096, n], 0, n) as u64;
    if cx.src.chance(1, 2) {
        for _ in 0..cx.src.usize(1, 4) { let at = near(cx); v.push(Fault { at, kind: FaultKind::Intr, count: cx.src.range(1, 4) }) }
    }
    if cx.src.chance(1, 2) {
        for _ in 0..cx.src.usize(1, 5) {
            let at = near(cx);
            let kind = match cx.src.weighted(&[4, 2, 1, 1]) {
                0 => FaultKind::Err(gen_err(&mut cx.src)), 1 => FaultKind::Zero, 2 => FaultKind::Scribble(gen_err(&mut cx.src)), _ => FaultKind::ScribbleZero };
            v.push(Fault { at, kind, count: cx.src.range(1, 2) });
        }
    }
    v
}

fn bytes(cx: &mut Cx) -> Res<()> {
    let data = gen_data(&mut cx.src);
    let ops = cx.src.usize(1, 60);
    match cx.src.weighted(&[5, 2, 2, 1, 1, 1]) {
        k @ 0..=2 => {
            let faults = gen_faults(cx, data.len());
            let chunks = gen_chunks(&mut cx.src, &[1, 2, 3, 2047, 2048, 2049, 4096]);
            cx.note(|| format!("{} bytes, delivery {:?}, faults {:?}", data.len(), chunks, faults));
            let (mut br, obs) = buffered(&data, chunks, faults.clone(), &cx.log);
            let mut m = Model { data: &data, lo: 0, hi: 0, obs: Some(obs.clone()), faults };
            match k {
                0 => { history(cx, &mut br, &mut m, ops)?; drain(cx, &mut br, &mut m)? }
                1 => {
                    // The reference comes and goes; the state stays in the reader.
                    for _ in 0..cx.src.usize(1, 3) { let mut b = &mut br; history(cx, &mut b, &mut m, ops / 2 + 1)? }
                    drain(cx, &mut br, &mut m)?
                }
                _ => { { let mut b = &mut br; let mut c = &mut b; history(cx, &mut c, &mut m, ops)? } drain(cx, &mut br, &mut m)? }
            }
            account(cx, &obs);
        }
        3 => { let mut c = Cursor::new(data.clone()); cursor(cx, &data, &mut c, ops, |c, p| c.set_position(p))? }
        4 => { let mut c = Cursor::new(&data[..]); cursor(cx, &data, &mut c, ops, |c, p| c.set_position(p))? }
        _ => { let mut c = Cursor::new(data.clone().into_boxed_slice()); let mut r = &mut c; cursor(cx, &data, &mut r, ops, |c, p| c.set_position(p))? }
    }
    Ok(())
}

fn cursor<R: ReadBytes>(cx: &mut Cx, data: &[u8], c: &mut R, ops: usize, seek: impl Fn(&mut R, u64)) -> Res<()> {
    cx.count("cursor_histories", 1);
    let n = data.len();
    let mut m = Model { data, lo: 0, hi: 0, obs: None, faults: vec![] };
    // A cursor's delivery is its data: the end is the end.
    let seeks = cx.src.chance(1, 3);
    for _ in 0..ops {
        if seeks && cx.src.chance(1, 4) {
            // The caller puts it anywhere, also behind the end.
            if cx.src.chance(1, 3) {
                let far = match cx.src.draw(4) { 0 => u64::MAX, 1 => u64::MAX - cx.src.range(0, 5000), 2 => n as u64 + cx.src.range(1, 5000), _ => 1u64 << cx.src.range(31, 63) };
                cx.count("cursor_behind_its_end", 1);
                seek(c, far);
                for _ in 0..cx.src.usize(1, 3) {
                    let op = if cx.src.chance(1, 5) { Op::Skip(cx.src.pick(&[u32::MAX, 1 << 31, 65536])) } else { gen_op(&mut cx.src) };
                    let k = Model::need(op);
                    let out = call("a ReadBytes operation", || perform(c, op))?;
                    cx.log.ev(81, far, k as u64, || format!("{:?} at {} of {}", op, far, n));
                    match out {
                        Out::Nothing => {}
                        Out::Err(e) => ensure!(e.kind() == ErrorKind::UnexpectedEof, "wrong-error", "{:?} at byte {} of {} failed with {:?}", op, far, n, e),
                        Out::Bytes(_) | Out::Skipped => ensure!(k == 0, "skipped-past-end", "{:?} at byte {} of {} succeeded", op, far, n),
                    }
                }
                match call("read_u8_or_eof", || perform(c, Op::U8Eof))? { Out::Nothing => {} _ => return fail("byte-again", format!("behind the end (byte {} of {}) a byte was returned", far, n)) }
            }
            let p = cx.src.usize(0, n);
            seek(c, p as u64);
            m.lo = p;
            m.hi = p;
        }
        let op = gen_op(&mut cx.src);
        m.step(cx, c, op)?;
    }
    while m.hi < data.len() || m.lo < data.len() {
        let before = m.hi;
        m.step(cx, c, Op::U8Eof)?;
        if m.hi == before && m.lo >= data.len() { break }
    }
    Ok(())
}

// ------------------------------------------------------------------- bits

#[derive(Clone, Copy, Debug)]
enum Bop { Bit, Unary, Leq8(u32), Gt8(u32), Leq16(u32), Leq32(u32) }

fn gen_bop(src: &mut Src) -> Bop {
    match src.weighted(&[2, 3, 3, 3, 3, 3]) {
        0 => Bop::Bit,
        1 => Bop::Unary,
        2 => Bop::Leq8(src.range(0, 8) as u32),
        3 => Bop::Gt8(src.range(9, 16) as u32),
        4 => Bop::Leq16(src.range(0, 16) as u32),
        _ => Bop::Leq32(src.range(0, 32) as u32),
    }
}

fn bits(cx: &mut Cx) -> Res<()> {
    let mut data = gen_data(&mut cx.src);
    data.truncate(6000);
    // Sparse ones make long unary codes.
    match cx.src.weighted(&[60, 40, 40, 1]) {
        3 => {
            // And very long ones.
            let at = cx.src.usize(0, data.len());
            let n = cx.src.pick(&[8_192usize, 8_191, 8_193, 8_200, 16_400, 40_000, 100_000]);
            data.splice(at..at, std::iter::repeat(0).take(n));
            cx.count("very_long_unary", 1);
        }
        0 => {}
        1 => { let mut r = cx.src.sub(); let d = 2 + r.below(40); for b in data.iter_mut() { if r.below(d) != 0 { *b = 0 } } }
        _ => { let mut r = cx.src.sub(); for b in data.iter_mut() { *b = match r.below(4) { 0 => 0, 1 => 1, 2 => 0x80, _ => *b } } }
    }
    cx.count("bit_histories", 1);
    match cx.src.weighted(&[4, 1]) {
        0 => {
            let mut faults = gen_faults(cx, data.len());
            faults.sort_by_key(|f| f.at);
            let hard = faults.iter().find(|f| !matches!(f.kind, FaultKind::Intr)).copied();
            let chunks = gen_chunks(&mut cx.src, &[1, 2, 3, 2047, 2048, 2049, 4096]);
            cx.note(|| format!("{} bytes, delivery {:?}, faults {:?}", data.len(), chunks, faults));
            let (mut br, obs) = buffered(&data, chunks, faults, &cx.log);
            bit_history(cx, &mut br, &data, hard)?;
            account(cx, &obs);
            Ok(())
        }
        _ => { let mut c = Cursor::new(data.clone()); bit_history(cx, &mut c, &data, None) }
    }
}

fn bit_history<R: ReadBytes>(cx: &mut Cx, r: &mut R, data: &[u8], hard: Option<Fault>) -> Res<()> {
    // The history starts at any byte.
    let start = cx.src.usize(0, 3).min(data.len());
    if hard.map_or(true, |f| f.at as usize >= start) {
        for i in 0..start {
            let b = call("read_u8", || r.read_u8())?;
            if hard.map_or(false, |f| f.at as usize <= i) { return Ok(()) }
            ensure!(matches!(b, Ok(x) if x == data[i]), "wrong-bytes", "byte {}: {:?}", i, b);
        }
    } else { return Ok(()) }
    let reach = hard.map_or(data.len(), |f| (f.at as usize).min(data.len()));
    let mut m = BitR { b: &data[..reach], bit: start * 8 };
    {
        let mut bs = Bitstream::new(&mut *r);
        let ops = cx.src.usize(1, 80);
        for i in 0..ops {
            let op = gen_bop(&mut cx.src);
            let at = m.bit;
            let want = match op {
                Bop::Bit => m.get(1),
                Bop::Unary => m.unary(),
                Bop::Leq8(k) | Bop::Gt8(k) | Bop::Leq16(k) | Bop::Leq32(k) => m.get(k),
            };
            let got = call("a Bitstream operation", || match op {
                Bop::Bit => bs.read_bit().map(|b| b as u64),
                Bop::Unary => bs.read_unary().map(|b| b as u64),
                Bop::Leq8(k) => bs.read_leq_u8(k).map(|b| b as u64),
                Bop::Gt8(k) => bs.read_gt_u8_leq_u16(k).map(|b| b as u64),
                Bop::Leq16(k) => bs.read_leq_u16(k).map(|b| b as u64),
                Bop::Leq32(k) => bs.read_leq_u32(k).map(|b| b as u64),
            })?;
            cx.log.ev(81, at as u64, want.unwrap_or(!0), || format!("{:?} at bit {} -> {:?}", op, at, got));
            match (got, want) {
                (Ok(g), Some(w)) => { ensure!(g == w, "wrong-bits", "operation {}: {:?} at bit {} gave {}, the source holds {}", i, op, at, g, w); cx.st.nontrivial = true }
                (Ok(g), None) => return fail("wrong-bits", format!("operation {}: {:?} at bit {} gave {} beyond the {} readable bytes", i, op, at, g, reach)),
                (Err(e), Some(_)) => return fail("invented-error", format!("operation {}: {:?} at bit {} failed with {:?} although the bits are there", i, op, at, e)),
                (Err(e), None) => {
                    let good = match hard.map(|f| f.kind) {
                        Some(FaultKind::Err(s)) | Some(FaultKind::Scribble(s)) => s.matches(&e),
                        _ => e.kind() == ErrorKind::UnexpectedEof,
                    };
                    ensure!(good, "changed-error", "operation {}: {:?} at bit {} failed with {:?}, planned {:?}", i, op, at, e, hard);
                    return Ok(());
                }
            }
        }
    }
    // The reader stands behind the last byte that was begun.
    let p = (m.bit + 7) / 8;
    if p < reach {
        let b = call("read_u8", || r.read_u8())?;
        ensure!(matches!(b, Ok(x) if x == data[p]), "wrong-bytes", "after {} bits the next byte is {:?}, the source holds {:#x} at {}", m.bit, b, data[p], p);
    }
    Ok(())
}
