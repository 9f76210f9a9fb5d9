//! Long histories: streams of very many small frames, and sources of more than
//! four gigabytes (delivered without being stored).

use super::*;
use crate::bits::{crc16, crc8, varint};

/// More frames than a 16-bit counter holds.
pub fn long_stream(cx: &mut Cx) -> Stream {
    let n = match cx.src.weighted(&[6, 2, 1]) { 0 => 65_536 + cx.src.range(1, 600), 1 => 32_768 + cx.src.range(1, 300), _ => 131_072 + cx.src.range(1, 300) } as usize;
    let variable = cx.src.chance(1, 2);
    let ch = if cx.src.chance(1, 4) { 2u32 } else { 1 };
    let number0 = match cx.src.weighted(&[4, 1, 1]) {
        0 => 0,
        1 => cx.src.range(0, 1 << 20),
        _ => if variable { (1u64 << 32) - cx.src.range(0, 1 << 20) } else { (1u64 << 31) - n as u64 },
    };
    let si = Si { min_bs: 16, max_bs: if variable { 18 } else { 16 }, min_fs: 0, max_fs: 0, rate: 44_100, ch, bps: 16, samples: 0, md5: [0; 16] };
    let mut bytes = b"fLaC".to_vec();
    let (start, end) = put_block(&mut bytes, 0, true, &si.encode());
    let meta = vec![Meta { start, end, btype: 0, content: Content::StreamInfo(si.clone()) }];
    let audio = bytes.len();
    let mut r = cx.src.sub();
    let mut frames = Vec::with_capacity(n);
    let mut time = if variable { number0 } else { number0 * 16 };
    for i in 0..n {
        let bs = if variable { 16 + r.below(3) as u32 } else { 16 };
        let mut f = vec![0xff, if variable { 0xf9 } else { 0xf8 }, 0x60, (ch as u8 - 1) << 4 | 0x08];
        f.extend(varint(if variable { time } else { number0 + i as u64 }));
        f.push(bs as u8 - 1);
        let c = crc8(&f);
        f.push(c);
        let header_len = f.len();
        let mut data = Vec::with_capacity((ch * bs) as usize);
        for c in 0..ch {
            let v = (i as u32).wrapping_mul(40_503).wrapping_add(c * 77) as u16 as i16;
            f.push(0);
            f.extend(v.to_be_bytes());
            data.resize(data.len() + bs as usize, v as i32);
        }
        let c = crc16(&f);
        f.extend(c.to_be_bytes());
        let start = bytes.len();
        bytes.extend(f);
        frames.push(Frame { start, end: bytes.len(), header_len, time, bs, ch, bps: 16, data });
        time += bs as u64;
    }
    cx.count("long_streams", 1);
    cx.note(|| format!("long stream: {} frames of {} channels, {} numbering from {}, {} bytes", n, ch, if variable { "sample" } else { "frame" }, number0, bytes.len()));
    Stream { bytes, si, meta, audio, frames, variable }
}

/// More than 4 GiB of padding between the streaminfo and the rest.
pub fn far_stream(cx: &mut Cx) -> Res<()> {
    let s = stream(cx, StreamOpts { size: Some(Size::Small), min_frames: 2, ..StreamOpts::default() });
    let mut prefix = s.bytes[..s.meta[0].end].to_vec();
    prefix[4] &= 0x7f;
    let mut unit = vec![cx.src.pick(&[1u8, 3, 5, 6, 100]), 0xff, 0xff, 0xff];
    unit.resize(4 + 0xff_ffff, 0);
    let mut suffix = vec![];
    if s.meta.len() == 1 { put_block(&mut suffix, 1, true, &[0; 9]); }
    suffix.extend_from_slice(&s.bytes[s.meta[0].end..]);
    let times = cx.src.range(256, 258);
    cx.note(|| format!("{} skipped blocks of 16 MiB", times));
    let r = SimReader::new(Data::Cycle { prefix: Arc::new(prefix), unit: Arc::new(unit), times, suffix: Arc::new(suffix) }, Chunks::Full, vec![], &cx.log);
    let obs = r.obs.clone();
    let fr = open_ok(cx, r)?;
    meta::same_open(cx, &fr, &s.si, s.vorbis())?;
    let mode = gen_mode(&mut cx.src);
    let g = decode(cx, fr, mode, Bufs::Recycle, s.frames.len())?;
    account(cx, &obs);
    cx.st.nontrivial = true;
    cx.count("streams_over_4_gib", 1);
    ensure!(g.end == End::Eof, "not-clean-end", "decoding ended with {:?} {:?} after {} blocks / {} samples", g.end, g.err, g.blocks.len(), g.samples.len());
    expect_prefix(cx, &g, &s.frames, mode)
}

/// Skips of up to 2^32 - 1 bytes over a source of more than 4 GiB.
pub fn far_skips(cx: &mut Cx) -> Res<()> {
    let mut r = cx.src.sub();
    let edge = |r: &mut crate::rng::Rng| -> Vec<u8> { (0..6000).map(|_| r.next() as u8).collect() };
    let (prefix, suffix) = (edge(&mut r), edge(&mut r));
    let run = (1u64 << 32) + cx.src.range(0, 1 << 20);
    let len = run + 12_000;
    let at = |p: u64| if p < 6000 { prefix[p as usize] } else if p < 6000 + run { 0x55 } else { suffix[(p - 6000 - run) as usize] };
    let faults = vec![Fault { at: cx.src.range(0, len - 1), kind: FaultKind::Intr, count: 3 }];
    let sr = SimReader::new(Data::Run { prefix: Arc::new(prefix.clone()), byte: 0x55, len: run, suffix: Arc::new(suffix.clone()) }, Chunks::Full, faults, &cx.log);
    let obs = sr.obs.clone();
    let mut br = BufferedReader::new(sr);
    let mut pos = 0u64;
    let big = cx.src.pick(&[u32::MAX, 1 << 31, (1 << 31) + 4095, u32::MAX - 2047]);
    let head = cx.src.range(0, 5000) as u32;
    let mut plan = vec![head, big];
    // The rest, up to somewhere in the end.
    let mut left = 6000 + run + cx.src.range(0, 5000) - head as u64 - big as u64;
    while left > 0 { let k = left.min(u32::MAX as u64); plan.push(k as u32); left -= k }
    cx.note(|| format!("{} bytes, skips {:?}", len, plan));
    for k in plan {
        if let Err(e) = call("skip", || br.skip(k))? { return fail("skip-refused", format!("skip({}) at {} of {}: {:?}", k, pos, len, e)) }
        pos += k as u64;
        if pos < len {
            let want = at(pos);
            match call("read_u8", || br.read_u8())? {
                Ok(b) => ensure!(b == want, "wrong-bytes", "byte {} of {} read as {:02x}, it is {:02x}", pos, len, b, want),
                Err(e) => return fail("early-end", format!("byte {} of {}: {:?}", pos, len, e)),
            }
            pos += 1;
        }
    }
    for p in pos..len {
        match call("read_u8", || br.read_u8())? {
            Ok(b) => ensure!(b == at(p), "wrong-bytes", "byte {} of {} read as {:02x}, it is {:02x}", p, len, b, at(p)),
            Err(e) => return fail("early-end", format!("byte {} of {}: {:?}", p, len, e)),
        }
    }
    ensure!(call("skip", || br.skip(big))?.is_err(), "skipped-past-end", "skip({}) at the end succeeded", big);
    account(cx, &obs);
    cx.st.nontrivial = true;
    cx.count("sources_over_4_gib", 1);
    Ok(())
}

/// The first draw that asks for a run over more than 4 GiB is the last value.
pub const FAR: u64 = 1 << 24;
pub fn is_far(cx: &mut Cx) -> bool { cx.src.draw(FAR) == FAR - 1 }
pub fn far_forced(idx: u64) -> Vec<u64> { if idx == 0 { vec![FAR - 1] } else { vec![] } }
