use super::*;

/// Decoding by hand: metadata blocks, then frames, over one buffered reader.
fn raw(cx: &mut Cx, r: SimReader, bufs: Bufs, limit: usize) -> Res<Got> {
    let mut br = BufferedReader::new(r);
    let mut g = Got { blocks: vec![], samples: vec![], end: End::Limit, err: None };
    let m = call("read_be_u32", || br.read_be_u32())?;
    match m {
        Ok(0x664c_6143) => {}
        Ok(x) => return fail("wrong-bytes", format!("stream header read as {:08x}", x)),
        Err(e) => { let e = Error::IoError(e); g.end = End::Err(eobs(&e)); g.err = Some(e); return Ok(g) }
    }
    {
        let mut it = MetadataBlockReader::new(&mut br);
        loop {
            match call("MetadataBlockReader::next", || it.next())? {
                None => break,
                Some(Ok(_)) => {}
                Some(Err(e)) => { g.end = End::Err(eobs(&e)); g.err = Some(e); return Ok(g) }
            }
        }
    }
    let mut fr = FrameReader::new(br);
    let mut pool = BufPool::new(bufs, cx.src.sub());
    while g.blocks.len() <= limit {
        match next_block(cx, &mut fr, pool.get())? {
            Ok(Some(b)) => { g.blocks.push(observe(&b)?); pool.put(b.into_buffer()) }
            Ok(None) => { g.end = End::Eof; break }
            Err(e) => { g.end = End::Err(eobs(&e)); g.err = Some(e); break }
        }
    }
    Ok(g)
}

/// Opens and decodes through a random interface. `None` when opening failed.
fn session(cx: &mut Cx, r: SimReader, limit: usize) -> Res<(Mode, Got, bool)> {
    let by_hand = cx.src.chance(1, 5);
    let bufs = gen_bufs(&mut cx.src);
    if by_hand {
        let g = raw(cx, r, bufs, limit)?;
        return Ok((Mode::Blocks, g, true));
    }
    let mode = gen_mode(&mut cx.src);
    cx.note(|| format!("interface {:?}, buffers {:?}", mode, bufs));
    let rvc = !cx.src.chance(1, 6);
    match open(cx, r, options(false, rvc))? {
        Ok(fr) => { let g = decode(cx, fr, mode, bufs, limit)?; Ok((mode, g, true)) }
        Err(e) => Ok((mode, Got { blocks: vec![], samples: vec![], end: End::Err(eobs(&e)), err: Some(e) }, false)),
    }
}

pub fn c01(cx: &mut Cx) -> Res<()> {
    if long::is_far(cx) { return long::far_stream(cx) }
    let s = if cx.src.chance(1, 4000) { long::long_stream(cx) } else { stream(cx, StreamOpts::default()) };
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    cx.note(|| format!("delivery {:?}", chunks));
    let r = SimReader::bytes(&s.bytes, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let (mode, g, _) = session(cx, r, s.frames.len())?;
    account(cx, &obs);
    cx.st.nontrivial = !s.frames.is_empty();
    ensure!(g.end == End::Eof, "not-clean-end", "decoding a well-formed stream ended with {:?} {:?} after {} blocks / {} samples", g.end, g.err, g.blocks.len(), g.samples.len());
    expect_prefix(cx, &g, &s.frames, mode)
}

pub fn c02(cx: &mut Cx) -> Res<()> {
    let rich = cx.src.chance(1, 3);
    let s = if cx.src.chance(1, 8000) { long::long_stream(cx) } else { stream(cx, StreamOpts { meta: if rich { MetaLevel::Rich } else { MetaLevel::Light }, ..StreamOpts::default() }) };
    let bounds = s.boundaries();
    let at = gen_offset(&mut cx.src, &bounds, 0, s.bytes.len());
    let e = gen_err(&mut cx.src);
    if cx.src.chance(1, 6) { return c02_bytes(cx, &s, at, e) }
    let scribble = cx.src.chance(1, 8);
    let count = if cx.src.chance(1, 3) { FOREVER } else { 1 };
    let kind = if scribble { FaultKind::Scribble(e) } else { FaultKind::Err(e) };
    let chunks = gen_chunks(&mut cx.src, &bounds);
    cx.note(|| format!("delivery {:?}, {:?} at {} x{}", chunks, kind, at, count));
    let r = SimReader::bytes(&s.bytes, chunks, vec![Fault { at: at as u64, kind, count }], &cx.log);
    let obs = r.obs.clone();
    let (mode, g, opened) = session(cx, r, s.frames.len())?;
    account(cx, &obs);
    let fired = lock(&obs).faults > 0;
    ensure!(fired, "swallowed", "the read call at byte {} never happened; outcome {:?}", at, g.end);
    cx.st.nontrivial = true;
    cx.count(if at < s.audio { "error_in_metadata" } else if s.frames.iter().any(|f| f.end == at) || at == s.audio { "error_at_boundary" } else { "error_in_frame" }, 1);
    match g.err {
        None => return fail("swallowed", format!("{:?} at byte {} was not reported; decoding ended with {:?}", e, at, g.end)),
        Some(ref x) => ensure!(io_matches(x, e), "changed-error", "{:?} at byte {} was reported as {:?}", e, at, x),
    }
    ensure!(opened == (at >= s.audio) || (mode == Mode::Blocks && opened), "open-outcome", "error at {} (metadata ends at {}), opened = {}", at, s.audio, opened);
    let done: Vec<Frame> = s.frames.iter().filter(|f| f.end <= at).cloned().collect();
    expect_prefix(cx, &g, &done, mode)
}

/// The same on a caller-supplied `ReadBytes`.
fn c02_bytes(cx: &mut Cx, s: &Stream, at: usize, e: ErrSpec) -> Res<()> {
    let mut sb = SimBytes::new(Arc::new(s.bytes.clone()));
    sb.fault = Some((at, e));
    cx.note(|| format!("custom ReadBytes, {:?} at {}", e, at));
    cx.count("custom_read_bytes", 1);
    cx.st.nontrivial = true;
    let mut blocks: Vec<BObs> = Vec::new();
    let mut err: Option<Error> = None;
    match call("read_be_u32", || sb.read_be_u32())? { Ok(_) => {}, Err(e) => err = Some(e.into()) }
    if err.is_none() {
        let mut it = MetadataBlockReader::new(&mut sb);
        while let Some(x) = call("MetadataBlockReader::next", || it.next())? { if let Err(x) = x { err = Some(x); break } }
    }
    if err.is_none() {
        let mut fr = FrameReader::new(&mut sb);
        loop {
            match next_block(cx, &mut fr, Vec::new())? {
                Ok(Some(b)) => blocks.push(observe(&b)?),
                Ok(None) => break,
                Err(x) => { err = Some(x); break }
            }
            ensure!(blocks.len() <= s.frames.len(), "extra-block", "more blocks than frames");
        }
    }
    match err {
        None => return fail("swallowed", format!("{:?} at byte {} was not reported", e, at)),
        Some(ref x) => ensure!(io_matches(x, e), "changed-error", "{:?} at byte {} was reported as {:?}", e, at, x),
    }
    let done: Vec<Frame> = s.frames.iter().filter(|f| f.end <= at).cloned().collect();
    let g = Got { blocks, samples: vec![], end: End::Limit, err };
    expect_prefix(cx, &g, &done, Mode::Blocks)
}

pub fn c03(cx: &mut Cx) -> Res<()> {
    let rich = cx.src.chance(1, 2);
    let s = if cx.src.chance(1, 8000) { long::long_stream(cx) } else { stream(cx, StreamOpts { meta: if rich { MetaLevel::Rich } else { MetaLevel::Light }, ..StreamOpts::default() }) };
    let bounds = s.boundaries();
    let mut faults = Vec::new();
    let n = s.bytes.len();
    match cx.src.weighted(&[4, 2, 1]) {
        0 => for _ in 0..cx.src.range(1, 8) {
            let at = gen_offset(&mut cx.src, &bounds, 0, n) as u64;
            let count = match cx.src.weighted(&[4000, 2000, 1000, 30, 2]) { 0 => 1, 1 => cx.src.range(2, 5), 2 => cx.src.range(6, 300), 3 => cx.src.range(1_000, 5_000), _ => cx.src.range(65_000, 70_000) };
            if count >= 1_000 { cx.count("long_interruption_storms", 1) }
            faults.push(Fault { at, kind: FaultKind::Intr, count });
        },
        1 => for &b in bounds.iter().chain([n].iter()) { faults.push(Fault { at: b as u64, kind: FaultKind::Intr, count: 1 }) },
        _ => {
            let step = cx.src.usize(1, 40).max(n / 3000);
            let mut at = cx.src.usize(0, step);
            while at <= n { faults.push(Fault { at: at as u64, kind: FaultKind::Intr, count: 1 }); at += step.max(1) }
        }
    }
    let chunks = gen_chunks(&mut cx.src, &bounds);
    cx.note(|| format!("delivery {:?}, {} interruption points", chunks, faults.len()));
    let r = SimReader::bytes(&s.bytes, chunks, faults, &cx.log);
    let obs = r.obs.clone();
    let by_meta = cx.src.chance(1, 4);
    if by_meta {
        // Tags and streaminfo under interruptions.
        let fr = match open(cx, r, FlacReaderOptions::default())? {
            Ok(f) => f,
            Err(e) => return fail("interrupted-visible", format!("opening under interruptions failed: {:?}", e)),
        };
        meta::same_open(cx, &fr, &s.si, s.vorbis())?;
        let g = decode(cx, fr, Mode::Blocks, Bufs::Recycle, s.frames.len())?;
        account(cx, &obs);
        cx.st.nontrivial = lock(&obs).faults > 0;
        ensure!(g.end == End::Eof, "interrupted-visible", "ended with {:?}", g.end);
        return expect_prefix(cx, &g, &s.frames, Mode::Blocks);
    }
    let (mode, g, _) = session(cx, r, s.frames.len())?;
    account(cx, &obs);
    cx.st.nontrivial = lock(&obs).faults > 0;
    ensure!(g.end == End::Eof, "interrupted-visible", "decoding under interruptions ended with {:?} after {} blocks / {} samples", g.end, g.blocks.len(), g.samples.len());
    expect_prefix(cx, &g, &s.frames, mode)
}

pub fn c05(cx: &mut Cx) -> Res<()> {
    let rich = cx.src.chance(1, 4);
    let s = stream(cx, StreamOpts { meta: if rich { MetaLevel::Rich } else { MetaLevel::Light }, ..StreamOpts::default() });
    let bounds = s.boundaries();
    let n = s.bytes.len();
    let mut cuts: Vec<usize> = Vec::new();
    let k = if n > 40_000 { 2 } else { cx.src.usize(1, 6) };
    for _ in 0..k { cuts.push(gen_offset(&mut cx.src, &bounds, 0, n)) }
    if n < 400 && cx.src.chance(1, 8) { cuts = (0..=n).collect(); cx.count("every_byte_sweeps", 1) }
    for cut in cuts {
        let chunks = gen_chunks(&mut cx.src, &bounds);
        cx.note(|| format!("cut at {}, delivery {:?}", cut, chunks));
        let mut b = s.bytes.clone();
        b.truncate(cut);
        let clean = cut == s.audio || s.frames.iter().any(|f| f.end == cut);
        cx.count(if cut < s.audio { "cut_in_metadata" } else if clean { "cut_between_frames" } else { "cut_in_frame" }, 1);
        if !clean { cx.st.nontrivial = true }
        let done: Vec<Frame> = s.frames.iter().filter(|f| f.end <= cut).cloned().collect();
        if cut >= s.audio && cx.src.chance(1, 4) {
            // The recorder's packets: frames from memory.
            let mut fr = FrameReader::new(Cursor::new(&b[s.audio..]));
            let mut i = 0;
            loop {
                match next_block(cx, &mut fr, Vec::new())? {
                    Ok(Some(x)) => { ensure!(i < done.len(), "extra-block", "cut at {}: a block from an incomplete frame", cut); same_audio(i, &observe(&x)?, &done[i])?; i += 1 }
                    Ok(None) => { ensure!(clean, "cut-seen-as-end", "cut at byte {} inside a frame reported as a clean end", cut); break }
                    Err(e) => { ensure!(!clean, "clean-end-seen-as-error", "clean end at {} reported as {:?}", cut, e);
                                ensure!(is_eof(&e), "wrong-error", "cut at {} reported as {:?}", cut, e); break }
                }
            }
            ensure!(i == done.len(), "missing-block", "cut at {}: {} of {} complete frames delivered", cut, i, done.len());
            continue;
        }
        let r = SimReader::bytes(&b, chunks, vec![], &cx.log);
        let obs = r.obs.clone();
        let (mode, g, opened) = session(cx, r, s.frames.len())?;
        account(cx, &obs);
        if cut < s.audio {
            ensure!(!opened || mode == Mode::Blocks, "opened-cut-metadata", "a stream cut at {} inside the metadata (ends at {}) opened", cut, s.audio);
        }
        if clean {
            ensure!(g.end == End::Eof, "clean-end-seen-as-error", "the stream ends between frames at {} but decoding ended with {:?}", cut, g.end);
        } else {
            ensure!(g.end != End::Eof, "cut-seen-as-end", "cut at byte {} reported as a clean end", cut);
            ensure!(g.err.as_ref().map_or(false, is_eof), "wrong-error", "cut at byte {} reported as {:?}", cut, g.err);
        }
        expect_prefix(cx, &g, &done, mode)?;
    }
    Ok(())
}

pub fn c10(cx: &mut Cx) -> Res<()> {
    let rich = cx.src.chance(1, 4);
    let s = if cx.src.chance(1, 8000) { long::long_stream(cx) } else { stream(cx, StreamOpts { meta: if rich { MetaLevel::Rich } else { MetaLevel::Light }, ..StreamOpts::default() }) };
    let bounds = s.boundaries();
    let chunks = gen_chunks(&mut cx.src, &bounds);
    // Packets of the live stream: they end at frame ends, and sometimes elsewhere.
    let mut arr: Vec<(u64, u64)> = Vec::new();
    let mut t = 0u64;
    let mut cuts: Vec<usize> = match cx.src.weighted(&[3, 2, 1]) {
        0 => { let mut v: Vec<usize> = s.frames.iter().map(|f| f.end).collect(); v.push(s.audio); v }
        1 => bounds.clone(),
        _ => { let mut v = bounds.clone(); for _ in 0..10 { v.push(cx.src.usize(0, s.bytes.len())) } v }
    };
    cuts.push(s.bytes.len());
    cuts.sort();
    cuts.dedup();
    for &c in &cuts {
        if c == 0 { continue }
        t += match cx.src.weighted(&[3, 1]) { 0 => cx.src.range(1_000, 50_000_000), _ => cx.src.range(1, 600) * 1_000_000_000 };
        arr.push((c as u64, t));
    }
    // After the last byte the source stays silent for a day.
    let when = |off: usize| arr.get(arr.partition_point(|a| a.0 < off as u64)).map_or(0, |a| a.1);
    let silence = Fault { at: s.bytes.len() as u64, kind: FaultKind::Stall(86_400_000_000_000), count: FOREVER };
    let silence = Fault { count: 1, ..silence };
    let mut r = SimReader::bytes(&s.bytes, chunks, vec![silence], &cx.log);
    r.arrivals = arr.clone();
    let obs = r.obs.clone();
    let m = Meter::new(&obs);
    let mut fr = open_ok(cx, r)?;
    let rec = m.done();
    let early = |rec: &OpRec, end: usize, what: &str| -> Res<()> {
        ensure!(rec.last_call.map_or(true, |p| p < end as u64), "read-ahead",
            "{}: a read call was made at byte {:?} although byte {} completed it", what, rec.last_call, end);
        let arrived = when(end);
        ensure!(rec.clock <= arrived + rec_slack(rec), "late", "{}: ready at simulated time {} but its last byte came at {}", what, rec.clock, arrived);
        Ok(())
    };
    early(&rec, s.audio, "opening")?;
    let by_samples = cx.src.weighted(&[2, 1, 1]);
    if by_samples == 0 {
        let bufs = gen_bufs(&mut cx.src);
        let mut pool = BufPool::new(bufs, cx.src.sub());
        for (i, f) in s.frames.iter().enumerate() {
            let m = Meter::new(&obs);
            let b = { let mut it = fr.blocks(); next_block(cx, &mut it, pool.get())? };
            let rec = m.done();
            match b {
                Ok(Some(b)) => { early(&rec, f.end, &format!("block {}", i))?; same_audio(i, &observe(&b)?, f)?; pool.put(b.into_buffer()) }
                Ok(None) => return fail("missing-block", format!("end of stream at frame {}", i)),
                Err(e) => return fail("decode-error", format!("frame {}: {:?}", i, e)),
            }
        }
    } else {
        let mut want = Vec::new();
        let mut ends = Vec::new();
        for f in &s.frames { f.interleaved(&mut want); ends.push((want.len(), f.end)) }
        let mut a;
        let mut b;
        let it: &mut dyn Iterator<Item = Result<i32, Error>> = if by_samples == 1 { a = fr.samples(); &mut a } else { b = fr.into_samples(); &mut b };
        let mut fi = 0;
        for (i, w) in want.iter().enumerate() {
            while i >= ends[fi].0 { fi += 1 }
            let first = i == 0 || (fi > 0 && i == ends[fi - 1].0);
            let m = Meter::new(&obs);
            let x = call("samples.next", || it.next())?;
            let rec = m.done();
            match x {
                Some(Ok(v)) => ensure!(v == *w, "wrong-sample", "sample {}: got {}, encoded {}", i, v, w),
                x => return fail("missing-samples", format!("sample {}: {:?}", i, x.map(|x| x.map_err(|e| eobs(&e))))),
            }
            if first { early(&rec, ends[fi].1, &format!("the first sample of frame {}", fi))? }
            else { ensure!(rec.calls == 0, "read-ahead", "sample {} of an already decoded block made {} read calls", i, rec.calls) }
        }
    }
    cx.st.nontrivial = !s.frames.is_empty();
    account(cx, &obs);
    Ok(())
}

/// Every call takes a microsecond of simulated time.
fn rec_slack(rec: &OpRec) -> u64 { 1_000 * (rec.delivered + 10) * 2 }

pub fn c13(cx: &mut Cx) -> Res<()> {
    let size = [Size::Tiny, Size::Small, Size::Tiny][cx.src.weighted(&[4, 2, 1])];
    let long = cx.src.chance(1, 8000);
    let s = if long { long::long_stream(cx) } else { stream(cx, StreamOpts { size: Some(size), min_frames: 3, ..StreamOpts::default() }) };
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    let r = SimReader::bytes(&s.bytes, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let mut fr = open_ok(cx, r)?;
    let bufs = gen_bufs(&mut cx.src);
    let mut pool = BufPool::new(bufs, cx.src.sub());
    let mut pos = 0usize;
    let mut used = 0;
    for _ in 0..cx.src.usize(1, 8) {
        match cx.src.weighted(&[3, 4, 1, 2]) {
            0 => {
                used += 1;
                let mut it = call("blocks", || fr.blocks())?;
                let most = if long { s.frames.len() } else { 3 };
                for _ in 0..cx.src.usize(0, most) {
                    let x = next_block(cx, &mut it, pool.get())?;
                    match x {
                        Ok(Some(b)) => {
                            ensure!(pos < s.frames.len(), "extra-block", "a block after the end");
                            same_audio(pos, &observe(&b)?, &s.frames[pos])?;
                            pos += 1;
                            pool.put(b.into_buffer());
                        }
                        Ok(None) => ensure!(pos == s.frames.len(), "position", "end of stream at frame {} of {}", pos, s.frames.len()),
                        Err(e) => return fail("position", format!("blocks() at frame {}: {:?}", pos, e)),
                    }
                }
            }
            1 => {
                used += 1;
                let left: Vec<i32> = { let mut v = Vec::new(); for f in &s.frames[pos..] { f.interleaved(&mut v) } v };
                let per = s.frames.get(pos).map_or(1, |f| (f.bs * f.ch) as usize);
                let n = match cx.src.weighted(&[3, 2, 2]) {
                    0 => cx.src.usize(0, per + 3),
                    1 => per,
                    _ => cx.src.usize(0, left.len() + 2),
                };
                cx.note(|| format!("samples(): take {} from frame {}", n, pos));
                let it = call("samples", || fr.samples())?;
                let k = n.min(left.len());
                let mut r = cx.src.sub();
                let what = format!("samples() from frame {}", pos);
                no_panic("samples", lib(|| walk(&mut r, &what, it, left.len(), k, |i, x| match x {
                    Ok(v) => { ensure!(v == left[i], "position", "{}: item {} is {}, expected {}", what, i, v, left[i]); Ok(()) }
                    Err(e) => fail("position", format!("{}: item {}: {:?}", what, i, e)),
                })))??;
                // The frames touched are consumed.
                let mut c = 0;
                while c < k { c += (s.frames[pos].bs * s.frames[pos].ch) as usize; pos += 1 }
                cx.log.ev(55, pos as u64, k as u64, || format!("{} samples read, next frame {}", k, pos));
            }
            2 => meta::same_open(cx, &fr, &s.si, s.vorbis())?,
            _ => { let _ = call("samples", || { let _ = fr.samples(); let _ = fr.blocks(); })?; }
        }
    }
    meta::same_open(cx, &fr, &s.si, s.vorbis())?;
    if cx.src.chance(2, 3) {
        used += 1;
        let mut left = Vec::new();
        for f in &s.frames[pos..] { f.interleaved(&mut left) }
        let it = call("into_samples", || fr.into_samples())?;
        let mut r = cx.src.sub();
        no_panic("into_samples", lib(|| walk(&mut r, "into_samples()", it, left.len(), left.len(), |i, x| match x {
            Ok(v) => { ensure!(v == left[i], "position", "into_samples() from frame {}: item {} is {}, expected {}", pos, i, v, left[i]); Ok(()) }
            Err(e) => fail("position", format!("into_samples() from frame {} item {}: {:?}", pos, i, e)),
        })))??;
    }
    account(cx, &obs);
    cx.st.nontrivial = used >= 2;
    Ok(())
}

pub fn c16(cx: &mut Cx) -> Res<()> {
    let s = if cx.src.chance(1, 4000) { long::long_stream(cx) } else { stream(cx, StreamOpts { min_frames: 1, numbers_big: true, ..StreamOpts::default() }) };
    // Lose whole frames, or break a checksum so that the frame parses but is refused.
    let mut bytes = s.bytes[..s.audio].to_vec();
    let mut expect: Vec<(usize, bool)> = Vec::new();
    let faulty = cx.src.chance(1, 2);
    for (i, f) in s.frames.iter().enumerate() {
        let fate = if faulty { cx.src.weighted(&[4, 2, 2]) } else { 0 };
        if fate == 1 { cx.count("frames_lost", 1); continue }
        let at = bytes.len();
        bytes.extend_from_slice(&s.bytes[f.start..f.end]);
        if fate == 2 { let n = bytes.len(); bytes[n - 1] ^= 1 << cx.src.draw(8); cx.count("frames_damaged", 1) }
        let _ = at;
        expect.push((i, fate == 0));
    }
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    let r = SimReader::bytes(&bytes, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let mut fr = open_ok(cx, r)?;
    let fresh = cx.src.chance(1, 3);
    let mut prev: Option<(u64, u32, usize)> = None;
    let mut check = |cx: &mut Cx, i: usize, x: Result<Option<claxon::Block>, Error>, ok: bool| -> Res<()> {
        let f = &s.frames[i];
        match x {
            Ok(Some(b)) => {
                ensure!(ok, "damaged-delivered", "frame {} has a broken checksum but was delivered", i);
                let b = observe(&b)?;
                same_audio(i, &b, f)?;
                ensure!(b.time == f.time, "wrong-time", "frame {}: time {}, its first sample has number {} ({} numbering, block size {}, streaminfo {}..{})", i, b.time, f.time,
                    if s.variable { "sample" } else { "frame" }, f.bs, s.si.min_bs, s.si.max_bs);
                if let Some((t, d, p)) = prev { if p + 1 == i { ensure!(t + d as u64 == b.time, "gap", "block {} ends at {}, block {} starts at {}", p, t + d as u64, i, b.time) } }
                prev = Some((b.time, b.bs, i));
                cx.count("times_checked", 1);
                cx.st.nontrivial = true;
            }
            Ok(None) => return fail("missing-block", format!("end of stream before frame {}", i)),
            Err(e) => ensure!(!ok, "decode-error", "frame {}: {:?}", i, e),
        }
        Ok(())
    };
    if fresh {
        for &(i, ok) in &expect { let x = { let mut it = fr.blocks(); next_block(cx, &mut it, Vec::new())? }; check(cx, i, x, ok)? }
    } else {
        let mut it = fr.blocks();
        for &(i, ok) in &expect { let x = next_block(cx, &mut it, Vec::new())?; check(cx, i, x, ok)? }
    }
    account(cx, &obs);
    Ok(())
}
