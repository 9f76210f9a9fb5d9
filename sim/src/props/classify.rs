//! What a faulty or newer encoder writes: reserved values, forbidden values and
//! features that are not supported, each once in an otherwise sound stream.

use super::damage::chain;
use super::hostile::{probe_gen, small_stream};
use super::*;
use crate::model::{decode_frame, MRes, Why};

fn odd_frame(cx: &mut Cx) -> Vec<u8> {
    // Which of the opportunities; the earlier ones are in the header.
    let at = match cx.src.weighted(&[2, 3]) { 0 => cx.src.range(0, 11), _ => cx.src.range(8, 40) };
    probe_gen(cx, |src, p| wild_frame(src, Odd::Once(at), p))
}

pub fn c21(cx: &mut Cx) -> Res<()> {
    match cx.src.weighted(&[4, 3, 3]) {
        0 => in_stream(cx),
        1 => packets(cx),
        _ => {
            let s = stream(cx, StreamOpts { size: Some(Size::Tiny), meta: MetaLevel::Rich, ..StreamOpts::default() });
            cx.st.nontrivial = true;
            if cx.src.chance(1, 5) { large_block(cx, &s) } else { meta::c12_damaged(cx, &s, true) }
        }
    }
}

/// How an error must be classified; `slack`: the end of the input is near and
/// may be noticed first.
pub fn class(e: &Error, w: Why, slack: bool) -> Res<()> {
    let good = match w {
        Why::Eof => is_eof(e),
        Why::Unsupported => matches!(*e, Error::Unsupported(_)),
        _ => matches!(*e, Error::FormatError(_)),
    };
    ensure!(good || (slack && is_eof(e)), "wrong-class", "{} was reported as {:?}",
        match w { Why::Eof => "a frame that is cut", Why::Unsupported => "a feature that is not supported", Why::Sync => "a missing sync code", Why::Crc => "a wrong checksum", Why::Structure => "a reserved or forbidden value" }, e);
    Ok(())
}

fn in_stream(cx: &mut Cx) -> Res<()> {
    let s = small_stream(cx);
    let mut b = s.bytes[..s.audio].to_vec();
    let k = cx.src.usize(0, s.frames.len());
    for f in &s.frames[..k] { b.extend_from_slice(&s.bytes[f.start..f.end]) }
    for _ in 0..cx.src.usize(1, 2) { let f = odd_frame(cx); b.extend_from_slice(&f) }
    for f in &s.frames[k..] { b.extend_from_slice(&s.bytes[f.start..f.end]) }
    if cx.src.chance(1, 2) { let n = b.len() + 4200; b.resize(n, 0xff) }
    let c = chain(&b, s.audio);
    let mut bounds = vec![4, s.audio, b.len()];
    for f in &c.frames { bounds.push(f.start + f.header_len); bounds.push(f.end) }
    bounds.sort();
    let chunks = gen_chunks(&mut cx.src, &bounds);
    let mut faults = vec![];
    if cx.src.chance(1, 3) { for _ in 0..cx.src.usize(1, 4) { faults.push(Fault { at: gen_offset(&mut cx.src, &bounds, 0, b.len()) as u64, kind: FaultKind::Intr, count: cx.src.range(1, 3) }) } }
    cx.note(|| format!("{} bytes, {} frames, then {:?} at {}; delivery {:?}, faults {:?}", b.len(), c.frames.len(), c.stop, c.at, chunks, faults));
    let r = SimReader::bytes(&b, chunks, faults, &cx.log);
    let obs = r.obs.clone();
    let fr = open_ok(cx, r)?;
    let mode = gen_mode(&mut cx.src);
    let bufs = gen_bufs(&mut cx.src);
    let g = decode(cx, fr, mode, bufs, c.frames.len())?;
    account(cx, &obs);
    cx.st.nontrivial = true;
    count(cx, c.stop);
    let slack = b.len() - c.at < 4096;
    match (&g.err, c.stop) {
        (None, None) => ensure!(g.end == End::Eof, "misread", "more than the {} frames were delivered", c.frames.len()),
        (None, Some(w)) => return fail("misread", format!("{:?} at byte {} was not reported; {:?}, {} blocks, {} samples", w, c.at, g.end, g.blocks.len(), g.samples.len())),
        (Some(e), None) => return fail("refused", format!("a sound stream was refused: {:?}", e)),
        (Some(e), Some(w)) => class(e, w, slack)?,
    }
    let odd = c.frames.iter().any(|f| f.odd);
    if mode == Mode::Blocks || mode == Mode::FreshBlocks {
        ensure!(g.blocks.len() == c.frames.len(), "misread", "{} blocks, {} frames", g.blocks.len(), c.frames.len());
        for (i, (o, m)) in g.blocks.iter().zip(&c.frames).enumerate() {
            ensure!(o.bs == m.bs && o.ch == m.ch && (m.odd || o.data == m.data), "wrong-sample", "block {}: {}", i, o.brief());
        }
    } else {
        let mut want = Vec::new();
        for m in &c.frames { for i in 0..m.bs as usize { for ch in 0..m.ch as usize { want.push(m.data[ch * m.bs as usize + i]) } } }
        ensure!(g.samples.len() == want.len(), "misread", "{} samples, {} in the frames", g.samples.len(), want.len());
        ensure!(odd || g.samples == want, "wrong-sample", "the samples differ");
    }
    Ok(())
}

fn count(cx: &mut Cx, w: Option<Why>) {
    cx.count(match w { None => "class_none", Some(Why::Eof) => "class_eof", Some(Why::Sync) => "class_sync", Some(Why::Crc) => "class_crc", Some(Why::Structure) => "class_malformed", Some(Why::Unsupported) => "class_unsupported" }, 1)
}

fn packets(cx: &mut Cx) -> Res<()> {
    let mut pool = BufPool::new(gen_bufs(&mut cx.src), cx.src.sub());
    for k in 0..cx.src.usize(1, 6) {
        let mut b = odd_frame(cx);
        let n = b.len();
        let more = cx.src.chance(1, 2);
        if more { b.resize(n + 4200, 0) }
        let want = decode_frame(&b, 0);
        let x = {
            let mut fr = FrameReader::new(Cursor::new(&b[..]));
            next_block(cx, &mut fr, pool.get())?
        };
        cx.st.nontrivial = true;
        match (x, want) {
            (Ok(Some(x)), MRes::Frame(m)) => {
                count(cx, None);
                let o = observe(&x)?;
                ensure!(o.bs == m.bs && o.ch == m.ch && (m.odd || o.data == m.data), "wrong-sample", "packet {}: {}", k, o.brief());
                pool.put(x.into_buffer());
            }
            (Err(e), MRes::Bad(w)) => { count(cx, Some(w)); class(&e, w, !more)? }
            (x, want) => return fail("misread", format!("packet {} ({:?}) gave {:?}", k, match want { MRes::Frame(_) => "sound".to_string(), MRes::Eof => "empty".into(), MRes::Bad(w) => format!("{:?}", w) }, x.map(|b| b.map(|b| b.len())))),
        }
    }
    Ok(())
}

/// An application or Vorbis comment block as long as what is supported, or longer.
fn large_block(cx: &mut Cx, s: &Stream) -> Res<()> {
    if cx.src.chance(1, 12) { return full_block(cx, s) }
    let i = cx.src.usize(1, s.meta.len());
    let at = if i < s.meta.len() { s.meta[i].start } else { s.audio };
    let mut b = s.bytes[..at].to_vec();
    if i == s.meta.len() { let l = s.meta[i - 1].start; b[l] &= 0x7f }
    let had = s.meta[..i].iter().any(|m| m.btype == 4);
    let t = if had { 2 } else { cx.src.pick(&[4u8, 2]) };
    let len = cx.src.pick(&[(10u32 << 20) + 1, 0xff_ffff, (10 << 20) + 4096, 11 << 20]);
    b.extend([t | if cx.src.chance(1, 2) { 0x80 } else { 0 }, (len >> 16) as u8, (len >> 8) as u8, len as u8]);
    let r = SimReader::new(Data::Run { prefix: Arc::new(b), byte: 0, len: if cx.src.chance(1, 20) { len as u64 } else { 5000 }, suffix: Arc::new(vec![]) }, Chunks::Full, vec![], &cx.log);
    let obs = r.obs.clone();
    cx.count("class_large_block", 1);
    let x = open(cx, r, FlacReaderOptions::default())?;
    account(cx, &obs);
    match x {
        Err(Error::Unsupported(_)) => Ok(()),
        Err(e) => fail("wrong-class", format!("a block of type {} and {} bytes was reported as {:?}", t, len, e)),
        Ok(_) => fail("accepted", format!("a block of type {} and {} bytes was accepted", t, len)),
    }
}

/// The longest blocks that are supported: they are read or skipped.
pub fn full_block(cx: &mut Cx, s: &Stream) -> Res<()> {
    let i = cx.src.usize(1, s.meta.len());
    let at = if i < s.meta.len() { s.meta[i].start } else { s.audio };
    let mut b = s.bytes[..at].to_vec();
    if i == s.meta.len() { let l = s.meta[i - 1].start; b[l] &= 0x7f }
    let t = if cx.src.chance(1, 3) { cx.src.pick(&[1u8, 3, 5, 6, 7, 126]) }
        else if s.meta.iter().any(|m| m.btype == 4) { 2 } else { cx.src.pick(&[4u8, 2]) };
    // What is not kept can have any length.
    let max = if t == 4 || t == 2 { 10u32 << 20 } else { 0xff_ffff };
    let len = match cx.src.weighted(&[3, 1, 2, 6]) {
        0 => max,
        1 => max - 1,
        2 => cx.src.range(1 << 16, max as u64) as u32,
        _ => { let b = cx.src.range(5, 24) as u32; (((1 << (b - 1)) | cx.src.range(0, (1 << (b - 1)) - 1)) as u32).min(max) }
    };
    let last = i == s.meta.len();
    b.extend([t | if last { 0x80 } else { 0 }, (len >> 16) as u8, (len >> 8) as u8, len as u8]);
    let mut suffix = vec![];
    // The zeros are the vendor string, the value of a comment, or the data.
    let tag = t == 4 && cx.src.chance(1, 2);
    let mut run = len - 4;
    if t != 4 && t != 2 {
        run = len;
    } else if t == 4 {
        if tag {
            run = len - 14;
            b.extend([0, 0, 0, 0, 1, 0, 0, 0]);
            b.extend((run + 2).to_le_bytes());
            b.extend(b"A=");
        } else {
            run = len - 8;
            b.extend(run.to_le_bytes());
            suffix.extend([0; 4]);
        }
    } else {
        b.extend(b"test");
    }
    suffix.extend_from_slice(&s.bytes[at..]);
    cx.note(|| format!("a block of type {} and {} bytes as metadata block {}", t, len, i));
    let chunks = if cx.src.chance(1, 2) { Chunks::Full } else { Chunks::Bounds(vec![at + cx.src.usize(0, 30), at + len as usize + cx.src.usize(0, 4)]) };
    let r = SimReader::new(Data::Run { prefix: Arc::new(b), byte: 0, len: run as u64, suffix: Arc::new(suffix) }, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    cx.count("class_full_block", 1);
    if cx.src.chance(1, 3) {
        // As the metadata reader sees it.
        let mut br = BufferedReader::new(r);
        if let Err(e) = call("skip", || br.skip(4))? { return fail("refused", format!("{:?}", e)) }
        let mut it = MetadataBlockReader::new(br);
        for k in 0..i { if !matches!(call("next", || it.next())?, Some(Ok(_))) { return fail("refused", format!("metadata block {} before the long one", k)) } }
        let good = match call("next", || it.next())? {
            Some(Ok(MetadataBlock::Application { id, data })) => t == 2 && id == 0x74657374 && data.len() == len as usize - 4 && data.iter().all(|&x| x == 0),
            Some(Ok(MetadataBlock::Padding { length })) => [1, 3, 5, 6].contains(&t) && length == len,
            Some(Ok(MetadataBlock::SeekTable(..))) | Some(Ok(MetadataBlock::CueSheet)) | Some(Ok(MetadataBlock::Picture)) => [3, 5, 6].contains(&t),
            Some(Ok(MetadataBlock::Reserved)) => t > 6,
            Some(Ok(MetadataBlock::VorbisComment(v))) => t == 4 && if tag { v.vendor.is_empty() && v.comments.len() == 1 && v.comments[0].0.len() == run as usize + 2 } else { v.comments.is_empty() && v.vendor.len() == run as usize },
            Some(Err(e)) => return fail("refused", format!("a block of type {} and {} bytes was refused: {:?}", t, len, e)),
            _ => false,
        };
        ensure!(good, "misread", "a block of type {} and {} bytes was misread", t, len);
        account(cx, &obs);
        return Ok(());
    }
    let x = open(cx, r, FlacReaderOptions::default())?;
    let fr = match x { Ok(f) => f, Err(e) => return fail("refused", format!("a block of type {} and {} bytes was refused: {:?}", t, len, e)) };
    if t == 4 {
        let (v, n) = (call("vendor", || fr.vendor().map(|v| v.len()))?, call("get_tag", || fr.get_tag("a").map(|v| v.len()).sum::<usize>())?);
        ensure!(v == Some(if tag { 0 } else { run as usize }) && n == if tag { run as usize } else { 0 }, "misread", "vendor of {:?} bytes, tag of {} bytes, in a block of {}", v, n, len);
    }
    let g = decode(cx, fr, Mode::Blocks, Bufs::Recycle, s.frames.len())?;
    account(cx, &obs);
    ensure!(g.err.is_none() && g.blocks.len() == s.frames.len(), "misread", "{:?} after a block of type {} and {} bytes; {} blocks of {}", g.err, t, len, g.blocks.len(), s.frames.len());
    for (o, f) in g.blocks.iter().zip(&s.frames) { ensure!(o.data == f.data, "wrong-sample", "{}", o.brief()) }
    Ok(())
}
