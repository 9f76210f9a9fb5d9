use super::*;
use crate::model::{decode_frame, MRes};

/// A block that is not the expected one: is it at least a checksummed frame of
/// the stored bytes, at or after `from`?
pub fn genuine_at(bytes: &[u8], from: usize, b: &BObs) -> Option<usize> {
    let mut i = from;
    while i + 1 < bytes.len() {
        if bytes[i] == 0xff && bytes[i + 1] & 0xfc == 0xf8 {
            if let MRes::Frame(f) = decode_frame(bytes, i) {
                if f.bs == b.bs && f.ch == b.ch && (f.odd || f.data == b.data) { return Some(f.end) }
            }
        }
        i += 1;
    }
    None
}

pub fn c04(cx: &mut Cx) -> Res<()> {
    let size = [Some(Size::Tiny), Some(Size::Small), None][cx.src.weighted(&[3, 3, 1])];
    let s = stream(cx, StreamOpts { size, min_frames: 2, ..StreamOpts::default() });
    let bounds = s.boundaries();
    let n = s.bytes.len();
    let mut faults = Vec::new();
    let exact = cx.src.chance(2, 5);
    for _ in 0..cx.src.usize(1, 6) {
        let at = if exact || cx.src.chance(1, 4) {
            let i = cx.src.draw(s.frames.len() as u64 + 1) as usize;
            if i == s.frames.len() { n } else { s.frames[i].start }
        } else { gen_offset(&mut cx.src, &bounds, s.audio, n) };
        let kind = match cx.src.weighted(&[5, 3, 1, 1]) {
            0 => FaultKind::Err(gen_err(&mut cx.src)),
            1 => FaultKind::Zero,
            2 => FaultKind::Scribble(gen_err(&mut cx.src)),
            _ => FaultKind::ScribbleZero,
        };
        let count = match cx.src.weighted(&[600, 190, 10, 1]) { 0 => 1, 1 => cx.src.range(2, 4), 2 => cx.src.range(5, 300), _ => cx.src.range(1_000, 5_000) };
        if count > 4 { cx.count("outages_with_many_retries", 1) }
        faults.push(Fault { at: at as u64, kind, count });
    }
    faults.sort_by_key(|f| f.at);
    let chunks = gen_chunks(&mut cx.src, &bounds);
    cx.note(|| format!("delivery {:?}, faults {:?}", chunks, faults));
    let r = SimReader::bytes(&s.bytes, chunks, faults.clone(), &cx.log);
    let obs = r.obs.clone();
    let mut fr = open_ok(cx, r)?;
    let style = cx.src.weighted(&[2, 2, 1]);
    let bufs = gen_bufs(&mut cx.src);
    let mut pool = BufPool::new(bufs, cx.src.sub());
    let mut plan: std::collections::VecDeque<(usize, u64)> = faults.iter().map(|f| (f.at as usize, f.count)).collect();
    let mut synced = true;
    let mut next = 0usize;
    let mut from = s.audio;
    let mut quiet = 0;
    let mut after_fault = false;
    // One FrameReader for the whole session, or a fresh one per call (style 1),
    // or a raw FrameReader that is taken apart and rebuilt (style 2).
    let mut by_samples = style == 2;
    let mut steps = 0;
    let limit = 40 + s.frames.len() * 2 + 30 * faults.len() + 2 * faults.iter().map(|f| f.count as usize).sum::<usize>();
    let mut keep = fr.blocks();
    while steps < limit {
        steps += 1;
        // What the model expects while in step.
        let mut expect_fault = false;
        if synced {
            let end = s.frames.get(next).map_or(n, |f| f.end);
            let start = s.frames.get(next).map_or(n, |f| f.start);
            while plan.front().map_or(false, |p| p.0 < start || p.1 == 0) { plan.pop_front(); }
            if let Some(p) = plan.front_mut() {
                if p.0 == start { expect_fault = true; p.1 -= 1 }
                else if p.0 < end { expect_fault = true; p.1 -= 1; synced = false; after_fault = true }
            }
            if expect_fault { cx.count(if synced { "fault_between_frames" } else { "fault_inside_frame" }, 1) }
        }
        let was_synced = synced;
        let x = match style {
            1 => { drop(keep); keep = fr.blocks(); next_block(cx, &mut keep, pool.get())? }
            2 if by_samples => {
                // A sample iterator that dies of the fault, then blocks.
                by_samples = false;
                drop(keep);
                let r = lib(|| { let mut k = 0u64; let mut e = None; { for x in fr.samples().take(1) { match x { Ok(_) => k += 1, Err(x) => e = Some(x) } } } (k, e) });
                let (k, e) = no_panic("samples", r)?;
                keep = fr.blocks();
                if k == 1 {
                    // The first frame was consumed through the iterator.
                    ensure!(!expect_fault, "fault-lost", "a sample was delivered although its frame could not be read");
                    next += 1;
                    from = s.frames[next - 1].end;
                    continue;
                }
                match e { Some(e) => Err(e), None => Ok(None) }
            }
            _ => next_block(cx, &mut keep, pool.get())?,
        };
        match x {
            Ok(Some(b)) => {
                let o = observe(&b)?;
                pool.put(b.into_buffer());
                quiet = 0;
                if was_synced {
                    ensure!(!expect_fault, "fault-lost", "a block was delivered although a read failed before its last byte");
                    ensure!(next < s.frames.len(), "invented-block", "{} delivered after the last frame", o.brief());
                    let f = &s.frames[next];
                    if o.bs != f.bs || o.ch != f.ch || o.data != f.data {
                        let dup = s.frames[..next].iter().position(|g| g.data == o.data && g.bs == o.bs);
                        return fail(if dup.is_some() { "replayed-block" } else { "invented-block" },
                            format!("after a failure between frames the retry gave {} instead of frame {} ({:?})", o.brief(), next, dup));
                    }
                    next += 1;
                    from = f.end;
                } else if expect_fault {
                    return fail("fault-lost", "a block was delivered although a read failed before its last byte");
                } else {
                    // Out of step: it must be a later frame.
                    cx.count("blocks_after_losing_step", 1);
                    let same: Vec<usize> = (next..s.frames.len()).filter(|&i| { let f = &s.frames[i]; f.bs == o.bs && f.ch == o.ch && f.data == o.data }).collect();
                    match same.first().copied() {
                        // With equal frames it is not known which one this was.
                        Some(i) => { next = i + 1; from = s.frames[i].end; if same.len() == 1 { synced = true; resync(&mut plan, &obs) } }
                        None => match genuine_at(&s.bytes, from, &o) {
                            Some(e) => from = e,
                            None => {
                                let dup = s.frames[..next].iter().position(|g| g.data == o.data && g.bs == o.bs);
                                return fail(if dup.is_some() { "replayed-block" } else { "invented-block" },
                                    format!("{} was delivered after a failure; frames up to {} were already delivered (equals frame {:?})", o.brief(), next, dup));
                            }
                        },
                    }
                }
                if after_fault || lock(&obs).faults > 0 { cx.st.nontrivial = true }
            }
            other => {
                if was_synced && !expect_fault {
                    if next < s.frames.len() {
                        return fail("lost-block", format!("frame {} was not delivered: {:?} (no failure was planned inside it)", next, other.map(|_| "end of stream")));
                    }
                    match other { Ok(None) => {} Err(ref e) => return fail("wrong-end", format!("clean end reported as {:?}", e)), _ => {} }
                    quiet += 1;
                    if quiet >= 2 { break }
                }
                if !was_synced {
                    // Out of step at the end of the data: nothing more can come.
                    if lock(&obs).delivered as usize >= n && matches!(other, Ok(None)) { quiet += 1; if quiet > 4 + faults.iter().map(|f| f.count).sum::<u64>() { break } }
                }
                if lock(&obs).faults > 0 { cx.st.nontrivial = true }
            }
        }
    }
    account(cx, &obs);
    Ok(())
}

/// After regaining step, forget the faults that fired meanwhile.
fn resync(plan: &mut std::collections::VecDeque<(usize, u64)>, obs: &Shared) {
    let d = lock(obs).delivered as usize;
    // Faults below the bytes already delivered have fired; those at the current
    // offset may have fired in part, which the model cannot tell.
    while plan.front().map_or(false, |p| p.0 < d) { plan.pop_front(); }
}

pub fn c19(cx: &mut Cx) -> Res<()> {
    match cx.src.weighted(&[5, 3, 2]) {
        0 => c19_samples(cx),
        1 => c19_metadata(cx),
        _ => c19_end(cx),
    }
}

/// How often a caller asks again.
fn calls_after(cx: &mut Cx) -> usize {
    match cx.src.weighted(&[20_000, 300, 3]) { 0 => cx.src.usize(1, 6), 1 => cx.src.usize(7, 600), _ => { cx.count("very_many_calls_after_the_end", 1); 65_536 + cx.src.usize(1, 5000) } }
}

fn c19_samples(cx: &mut Cx) -> Res<()> {
    let size = [Size::Tiny, Size::Small][cx.src.weighted(&[3, 1])];
    let s = stream(cx, StreamOpts { size: Some(size), min_frames: 2, ..StreamOpts::default() });
    let bounds = s.boundaries();
    let mut bytes = s.bytes.clone();
    let mut faults = vec![];
    let n = bytes.len();
    match cx.src.weighted(&[3, 2, 2, 1]) {
        0 => faults.push(Fault { at: gen_offset(&mut cx.src, &bounds, s.audio, n) as u64, kind: FaultKind::Err(gen_err(&mut cx.src)), count: 1 }),
        1 => { let f = &s.frames[cx.src.draw(s.frames.len() as u64) as usize]; bytes[f.end - 1] ^= 0x40; cx.count("bad_checksum", 1) }
        2 => { let i = gen_offset(&mut cx.src, &bounds, s.audio, n - 1); bytes[i] ^= 1 << cx.src.draw(8); cx.count("bit_flip", 1) }
        _ => faults.push(Fault { at: gen_offset(&mut cx.src, &bounds, s.audio + 1, n) as u64, kind: FaultKind::Zero, count: 1 }),
    }
    let chunks = gen_chunks(&mut cx.src, &bounds);
    let r = SimReader::bytes(&bytes, chunks, faults, &cx.log);
    let obs = r.obs.clone();
    let mut fr = open_ok(cx, r)?;
    let own = cx.src.chance(1, 2);
    let (mut a, mut b);
    let it: &mut dyn Iterator<Item = Result<i32, Error>> = if own { b = fr.into_samples(); &mut b } else { a = fr.samples(); &mut a };
    let mut seen = 0u64;
    let max: u64 = s.frames.iter().map(|f| f.bs as u64 * f.ch as u64).sum::<u64>() + 10;
    loop {
        match call("samples.next", || it.next())? {
            Some(Ok(_)) => { seen += 1; if seen > max * 3 { return fail("endless", "more samples than the stream holds") } }
            Some(Err(e)) => {
                cx.log.ev(70, seen, 0, || format!("error after {} samples: {:?}", seen, e));
                cx.st.nontrivial = true;
                for k in 0..calls_after(cx) {
                    let m = Meter::new(&obs);
                    let x = call("samples.next", || it.next())?;
                    let rec = m.done();
                    ensure!(x.is_none(), "not-final", "call {} after the error returned {:?}", k + 1, x.map(|x| x.map_err(|e| eobs(&e))));
                    ensure!(rec.calls == 0, "reads-after-error", "call {} after the error made {} read calls", k + 1, rec.calls);
                }
                break;
            }
            None => { cx.count("no_error_reached", 1); break }
        }
    }
    account(cx, &obs);
    Ok(())
}

fn c19_metadata(cx: &mut Cx) -> Res<()> {
    let s = stream(cx, StreamOpts { size: Some(Size::Tiny), meta: MetaLevel::Rich, ..StreamOpts::default() });
    let bounds = s.boundaries();
    let mut bytes = s.bytes.clone();
    let mut faults = vec![];
    match cx.src.weighted(&[2, 3, 2, 1, 2]) {
        0 => {}
        4 => {
            // A block too large to be supported; what follows could be read on.
            let m = &s.meta[cx.src.draw(s.meta.len() as u64) as usize];
            bytes[m.start] = (bytes[m.start] & 0x80) | cx.src.pick(&[4u8, 2]);
            bytes[m.start + 1] |= cx.src.pick(&[0xa1u8, 0xb0, 0xff]);
            cx.count("unsupported_length", 1)
        }
        1 => faults.push(Fault { at: gen_offset(&mut cx.src, &bounds, 4, s.audio) as u64, kind: FaultKind::Err(gen_err(&mut cx.src)), count: 1 }),
        2 => { let m = &s.meta[cx.src.draw(s.meta.len() as u64) as usize]; bytes[m.start] |= 0x7f; cx.count("invalid_type", 1) }
        _ => faults.push(Fault { at: gen_offset(&mut cx.src, &bounds, 4, s.audio) as u64, kind: FaultKind::Zero, count: 1 }),
    }
    let chunks = gen_chunks(&mut cx.src, &bounds);
    let (mut br, obs) = buffered(&bytes, chunks, faults, &cx.log);
    let h = call("read_be_u32", || br.read_be_u32())?;
    ensure!(matches!(h, Ok(0x664c_6143)), "wrong-bytes", "header read as {:?}", h.ok());
    let own = cx.src.chance(1, 2);
    let (mut a, mut b);
    let it: &mut dyn Iterator<Item = Result<MetadataBlock, Error>> = if own { a = MetadataBlockReader::new(br); &mut a } else { b = MetadataBlockReader::new(&mut br); &mut b };
    let mut n = 0;
    loop {
        ensure!(it.size_hint().1 != Some(0) || n > 0, "size-hint", "a fresh metadata reader hints at nothing");
        let x = call("MetadataBlockReader::next", || it.next())?;
        n += 1;
        ensure!(n <= s.meta.len() + 1, "endless", "more metadata blocks than stored");
        let fin = match x {
            None => true,
            Some(Err(_)) => true,
            Some(Ok(_)) => false,
        };
        if fin || n == s.meta.len() {
            cx.st.nontrivial = true;
            for k in 0..calls_after(cx) {
                let m = Meter::new(&obs);
                let y = call("MetadataBlockReader::next", || it.next())?;
                let rec = m.done();
                ensure!(y.is_none(), "not-final", "call {} after the end or an error returned another block or error", k + 1);
                ensure!(rec.calls == 0, "reads-after-end", "call {} after the end or an error made {} read calls", k + 1, rec.calls);
            }
            break;
        }
    }
    account(cx, &obs);
    Ok(())
}

fn c19_end(cx: &mut Cx) -> Res<()> {
    let s = stream(cx, StreamOpts { size: Some(Size::Tiny), ..StreamOpts::default() });
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    let r = SimReader::bytes(&s.bytes, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let mut fr = open_ok(cx, r)?;
    cx.st.nontrivial = true;
    let k = calls_after(cx);
    lock(&obs).budget += 10 * k as u64;
    match cx.src.weighted(&[2, 2, 2]) {
        0 => {
            let mut it = fr.blocks();
            for i in 0..s.frames.len() + k {
                let x = next_block(cx, &mut it, Vec::new())?;
                ensure!(matches!(x, Ok(Some(_))) == (i < s.frames.len()) && x.is_ok(), "not-final", "call {} of a stream of {} frames gave {:?}", i, s.frames.len(), x.map(|b| b.map(|b| b.len())));
            }
        }
        1 => {
            let n: usize = s.frames.iter().map(|f| f.data.len()).sum();
            let mut it = fr.samples();
            for i in 0..n + k {
                let x = call("samples.next", || it.next())?;
                ensure!(match x { Some(Ok(_)) => i < n, None => i >= n, _ => false }, "not-final", "item {} of {} samples: {:?}", i, n, x.map(|x| x.map_err(|e| eobs(&e))));
            }
        }
        _ => {
            let n: usize = s.frames.iter().map(|f| f.data.len()).sum();
            let mut it = fr.into_samples();
            for i in 0..n + k {
                let x = call("samples.next", || it.next())?;
                ensure!(match x { Some(Ok(_)) => i < n, None => i >= n, _ => false }, "not-final", "item {} of {} samples: {:?}", i, n, x.map(|x| x.map_err(|e| eobs(&e))));
            }
        }
    }
    account(cx, &obs);
    Ok(())
}
