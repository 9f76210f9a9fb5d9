//! Subframes decoded on their own, by code that has its own framing.

use super::classify::class;
use super::*;
use crate::bits::{BitR, BitW};
use crate::model::{subframe, Why};
use claxon::input::Bitstream;
use std::io::ErrorKind;

/// One thing in the bit stream.
enum Part {
    /// A subframe of so many bits per sample; its samples, if it is sound.
    Sub { bps: u32, bs: usize, want: Option<Vec<i64>> },
    /// Bits that belong to the embedding format.
    Raw { bits: u32 },
    /// The bit reader is dropped, a new one begins at the next byte.
    Align,
}

pub fn c23(cx: &mut Cx) -> Res<()> {
    // The bits as the embedding encoder wrote them.
    let mut w = BitW::new();
    let mut parts: Vec<Part> = vec![];
    let mut marks: Vec<usize> = vec![];
    let n = cx.src.usize(1, 6);
    let odd_at = if cx.src.chance(1, 4) { cx.src.usize(0, n - 1) } else { usize::MAX };
    let prefix = cx.src.usize(0, 3);
    for _ in 0..prefix { w.put(cx.src.draw(256), 8) }
    for i in 0..n {
        match cx.src.weighted(&[4, 2, 1]) {
            0 => {}
            1 => { let k = cx.src.range(0, 32) as u32; let v = cx.src.draw(1 << k); w.put(v, k); parts.push(Part::Raw { bits: k }) }
            _ => { w.align(); parts.push(Part::Align) }
        }
        marks.push(w.out.len());
        let bps = match cx.src.weighted(&[4, 3, 1]) { 0 => cx.src.pick(&[16u32, 8, 17, 24, 25, 12, 20]), 1 => cx.src.range(2, 32) as u32, _ => cx.src.pick(&[32u32, 31, 2, 3, 26, 33 - 1]) };
        let bs = match cx.src.weighted(&[400, 400, 300, 100, 4]) {
            0 => cx.src.usize(1, 20), 1 => cx.src.usize(1, 300), 2 => cx.src.pick(&[16usize, 32, 64, 128, 192, 256, 576]),
            4 => if cx.src.chance(2, 3) { cx.src.pick(&[32_768usize, 8192, 16_384, 65_535, 49_152, 24_576, 65_534]) } else { cx.src.usize(4096, 65_535) },
            _ => cx.src.pick(&[1152usize, 2304, 4096, 4608, 1024]) };
        let big = bs > 1000;
        if i == odd_at {
            let once = cx.src.range(0, 12);
            hostile::probe_gen(cx, |src, p| wild_subframe(src, &mut w, bs, bps, &mut Odd::Once(once), 0, p));
            parts.push(Part::Sub { bps, bs, want: None });
            // The writer gives up on very long ones.
            if w.out.len() > 290_000 || bs > 20_000 { break }
        } else {
            let v = hostile::probe_gen(cx, |src, p| {
                let v = signal(src, bps, bs, big);
                put_subframe(src, &mut w, &v, bps, big, p);
                v
            });
            parts.push(Part::Sub { bps, bs, want: Some(v) });
        }
    }
    let tail = if odd_at < n { 4200 } else { cx.src.pick(&[0usize, 0, 1, 3, 5000]) };
    w.align_with(0);
    let sound = w.out.len();
    let mut data = w.out;
    data.resize(sound + tail, 0xff);
    marks.push(sound);
    // The way the bytes come.
    let mut faults: Vec<Fault> = vec![];
    if cx.src.chance(1, 3) { for _ in 0..cx.src.usize(1, 4) { faults.push(Fault { at: gen_offset(&mut cx.src, &marks, 0, data.len()) as u64, kind: FaultKind::Intr, count: cx.src.range(1, 3) }) } }
    let hard = if cx.src.chance(1, 3) { Some((gen_offset(&mut cx.src, &marks, 0, data.len()), gen_err(&mut cx.src))) } else { None };
    let cut = hard.is_none() && cx.src.chance(1, 5);
    if cut { let k = gen_offset(&mut cx.src, &marks, 0, data.len()); data.truncate(k); bump(&mut cx.st.faults, "cut", 1) }
    if let Some((at, e)) = hard { faults.push(Fault { at: at as u64, kind: FaultKind::Err(e), count: FOREVER }) }
    cx.note(|| format!("{} subframes in {} bytes, {} more bytes, failure {:?}", n, sound, data.len() as i64 - sound as i64, hard));
    let reach = hard.map_or(data.len(), |h| h.0.min(data.len()));
    cx.st.nontrivial = true;
    match cx.src.weighted(&[5, 3, 2]) {
        0 => {
            let chunks = gen_chunks(&mut cx.src, &marks);
            let (mut br, obs) = buffered(&data, chunks, faults, &cx.log);
            run(cx, &mut br, &parts, &data, reach, hard.map(|h| h.1), prefix, |_| None)?;
            account(cx, &obs);
        }
        1 => {
            let mut sb = SimBytes::new(Arc::new(data.clone()));
            sb.fault = hard;
            if hard.is_some() { bump(&mut cx.st.faults, "io_error", 1) }
            run(cx, &mut sb, &parts, &data, reach, hard.map(|h| h.1), prefix, |s| Some(s.pos))?;
        }
        _ => {
            let mut c = Cursor::new(data[..reach].to_vec());
            run(cx, &mut c, &parts, &data, reach, None, prefix, |c| Some(c.position() as usize))?;
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn run<R: ReadBytes>(cx: &mut Cx, r: &mut R, parts: &[Part], data: &[u8], reach: usize, hard: Option<ErrSpec>, prefix: usize, pos: impl Fn(&R) -> Option<usize>) -> Res<()> {
    let ended = |what: &str, e: &std::io::Error| -> Res<()> {
        let good = match hard { Some(s) => s.matches(e), None => e.kind() == ErrorKind::UnexpectedEof };
        ensure!(good, "changed-error", "{} failed with {:?}, the source with {:?}", what, e, hard);
        Ok(())
    };
    for i in 0..prefix {
        match call("read_u8", || r.read_u8())? {
            Ok(b) => ensure!(i < reach && b == data[i], "wrong-bytes", "byte {}: {:#x}", i, b),
            Err(e) => { ensure!(i >= reach, "invented-error", "byte {}: {:?}", i, e); return ended("a byte", &e) }
        }
    }
    let mut m = BitR { b: &data[..reach], bit: prefix * 8 };
    let mut k = 0;
    let garbage = cx.src.weighted(&[2, 2, 1]);
    while k < parts.len() {
        {
            let mut bs = Bitstream::new(&mut *r);
            while k < parts.len() {
                let at = m.bit;
                k += 1;
                match parts[k - 1] {
                    Part::Align => break,
                    Part::Raw { bits } => {
                        let want = m.get(bits);
                        let got = call("read_leq_u32", || bs.read_leq_u32(bits))?;
                        match (got, want) {
                            (Ok(g), Some(w)) => ensure!(g as u64 == w, "misaligned", "{} bits at bit {} are {:#x}, not {:#x}: what was decoded before did not consume exactly its bits", bits, at, g, w),
                            (Err(e), None) => return ended("reading bits", &e),
                            (g, w) => return fail("misaligned", format!("{} bits at bit {}: {:?}, stored {:?}", bits, at, g, w)),
                        }
                    }
                    Part::Sub { bps, bs: n, ref want } => {
                        let mut odd = false;
                        let model = subframe(&mut m, n, bps, &mut odd);
                        let mut g = cx.src.sub();
                        let mut buf: Vec<i32> = (0..n).map(|_| match garbage { 0 => g.next() as i32, 1 => 0x5a5a_5a5a, _ => 0 }).collect();
                        let got = call("subframe::decode", || claxon::subframe::decode(&mut bs, bps, &mut buf))?;
                        cx.log.ev(86, at as u64, hash_i32(got.is_ok() as u64, &buf), || format!("subframe of {} samples of {} bits at bit {}: {:?}", n, bps, at, got));
                        match (got, model) {
                            (Ok(()), Ok(v)) => {
                                if let Some(ref s) = *want { ensure!(*s == v, "HARNESS", "the reference decoder does not agree with the encoder") }
                                if !odd {
                                    let bad = (0..n).find(|&i| buf[i] as i64 != v[i]);
                                    if let Some(i) = bad { return fail("wrong-sample", format!("sample {} of {} ({} bits, at bit {}) is {}, stored {}", i, n, bps, at, buf[i], v[i])) }
                                    cx.count("subframes_ok", 1);
                                } else {
                                    cx.count("subframes_out_of_range", 1);
                                }
                            }
                            (Err(e), Ok(_)) => {
                                if odd { cx.count("subframes_out_of_range", 1); return Ok(()) }
                                return fail("refused", format!("a sound subframe of {} samples of {} bits at bit {}: {:?}", n, bps, at, e));
                            }
                            (Ok(()), Err(w)) => {
                                if odd { return Ok(()) }
                                return fail("accepted", format!("a subframe of {} samples of {} bits at bit {} is invalid ({:?}), but it was decoded", n, bps, at, w));
                            }
                            (Err(e), Err(Why::Eof)) => {
                                if odd { return Ok(()) }
                                cx.count("subframes_cut", 1);
                                return match e { Error::IoError(ref e) => ended("a subframe", e), e => fail("wrong-class", format!("a subframe that the source could not deliver: {:?}", e)) };
                            }
                            (Err(e), Err(w)) => {
                                if odd { return Ok(()) }
                                cx.count("subframes_bad", 1);
                                return class(&e, w, false);
                            }
                        }
                    }
                }
            }
        }
        // Exactly the bytes that were begun have been consumed.
        let p = (m.bit + 7) / 8;
        if let Some(q) = pos(r) { ensure!(p == q, "consumption", "{} bits were decoded, {} bytes consumed", m.bit, q) }
        m.bit = p * 8;
    }
    let p = m.bit / 8;
    match call("read_u8_or_eof", || r.read_u8_or_eof())? {
        Ok(Some(b)) => ensure!(p < reach && b == data[p], "misaligned", "after {} bytes the next byte is {:#x}", p, b),
        Ok(None) => ensure!(p >= reach && hard.is_none(), "misaligned", "after {} bytes: the end", p),
        Err(e) => { ensure!(p >= reach && hard.is_some(), "invented-error", "after {} bytes: {:?}", p, e); return ended("the next byte", &e) }
    }
    Ok(())
}
