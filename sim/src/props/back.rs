//! The source belongs to the caller: it is given back as it is, and let go of
//! exactly once.

use super::hostile::gen_faults;
use super::*;
use std::sync::atomic::{AtomicU64, Ordering};

/// A reader with an identity, whose end is seen.
struct Owned { r: SimReader, id: u64, drops: Arc<AtomicU64> }

impl std::io::Read for Owned {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.r.read(b) }
}

impl Drop for Owned {
    fn drop(&mut self) { self.drops.fetch_add(1, Ordering::SeqCst); }
}

struct Watch { obs: Shared, drops: Arc<AtomicU64>, id: u64 }

impl Watch {
    fn calls(&self) -> u64 { lock(&self.obs).calls }
    fn dropped(&self, what: &str, n: u64) -> Res<()> {
        let d = self.drops.load(Ordering::SeqCst);
        ensure!(d == n, if d < n { "reader-leaked" } else { "reader-dropped" }, "after {} the reader had been dropped {} times, not {}", what, d, n);
        Ok(())
    }
    /// `f` must not touch the reader.
    fn quiet<T>(&self, what: &str, f: impl FnOnce() -> T) -> Res<T> {
        let n = self.calls();
        let x = call(what, f)?;
        let m = self.calls();
        ensure!(n == m, "reads", "{} made {} read calls", what, m - n);
        Ok(x)
    }
    fn same(&self, what: &str, o: Owned) -> Res<()> {
        self.dropped(what, 0)?;
        ensure!(o.id == self.id, "another-reader", "{} gave back another reader", what);
        drop(o);
        self.dropped("dropping what was given back", 1)
    }
}

/// Library code in which the reader may panic; what it gave, if it did not.
fn risky<T>(what: &str, f: impl FnOnce() -> T) -> Res<Option<T>> {
    match lib(f) {
        Ok(x) => Ok(Some(x)),
        Err(Pan::Sim) => Ok(None),
        r => no_panic(what, r).map(Some),
    }
}

pub fn c24(cx: &mut Cx) -> Res<()> {
    let size = [Size::Tiny, Size::Small, Size::Medium][cx.src.weighted(&[5, 4, 1])];
    let meta = if cx.src.chance(1, 3) { MetaLevel::Rich } else { MetaLevel::Light };
    let s = stream(cx, StreamOpts { size: Some(size), meta, ..StreamOpts::default() });
    cx.st.nontrivial = true;
    if cx.src.chance(1, 4) { return exact(cx, &s) }
    let mut b = s.bytes.clone();
    if cx.src.chance(1, 4) { let k = gen_offset(&mut cx.src, &s.boundaries(), 0, b.len()); b.truncate(k); bump(&mut cx.st.faults, "cut", 1) }
    if cx.src.chance(1, 4) { let k = cx.src.usize(0, 4200); b.extend((0..k).map(|i| i as u8)) }
    if !b.is_empty() && cx.src.chance(1, 5) { let n = b.len(); let i = cx.src.usize(0, n - 1); b[i] ^= 1 << cx.src.draw(8); bump(&mut cx.st.faults, "bit_flip", 1) }
    let mut faults = vec![];
    if cx.src.chance(1, 2) { faults = gen_faults(cx, &s.boundaries(), b.len(), 0) }
    if cx.src.chance(1, 4) { faults.push(Fault { at: gen_offset(&mut cx.src, &s.boundaries(), 0, b.len()) as u64, kind: FaultKind::Panic, count: 1 }) }
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    cx.note(|| format!("{} bytes, delivery {:?}, faults {:?}", b.len(), chunks, faults));
    let r = SimReader::bytes(&b, chunks, faults, &cx.log);
    let obs = r.obs.clone();
    let w = Watch { obs: obs.clone(), drops: Arc::new(AtomicU64::new(0)), id: cx.src.sub().next() };
    let o = Owned { r, id: w.id, drops: w.drops.clone() };
    let res = if cx.src.chance(1, 4) { by_hand(cx, o, &w) } else { reader(cx, o, &w) };
    res?;
    w.dropped("everything", 1)?;
    account(cx, &obs);
    Ok(())
}

fn reader(cx: &mut Cx, o: Owned, w: &Watch) -> Res<()> {
    let only = cx.src.chance(1, 4);
    let opts = options(only, cx.src.chance(1, 2));
    let dflt = opts == FlacReaderOptions::default() && cx.src.chance(1, 2);
    let mut fr = match risky("FlacReader::new_ext", move || if dflt { FlacReader::new(o) } else { FlacReader::new_ext(o, opts) })? {
        None => { cx.count("panicked_in_open", 1); return w.dropped("a panic of the reader while opening", 1) }
        Some(Err(_)) => { cx.count("failed_opens", 1); return w.dropped("a failed open", 1) }
        Some(Ok(f)) => f,
    };
    w.dropped("opening", 0)?;
    // Some history.
    let mut panicked = false;
    if !only {
        for _ in 0..cx.src.weighted(&[3, 3, 2, 1]) {
            let k = cx.src.usize(0, 4);
            let forget = cx.src.chance(1, 4);
            match cx.src.draw(3) {
                0 => {
                    let mut it = w.quiet("blocks()", || fr.blocks())?;
                    for _ in 0..k {
                        match risky("read_next_or_eof", || it.read_next_or_eof(Vec::new()))? {
                            None => { panicked = true; break }
                            Some(Ok(None)) => break,
                            Some(_) => {}
                        }
                    }
                    if forget { w.quiet("FrameReader::into_inner", move || { let _ = it.into_inner(); })? } else { w.quiet("dropping a FrameReader", move || drop(it))? }
                }
                1 => {
                    let n = match cx.src.draw(3) { 0 => k, 1 => k * 7, _ => cx.src.usize(0, 600) };
                    let mut it = w.quiet("samples()", || fr.samples())?;
                    for _ in 0..n { match risky("FlacSamples::next", || it.next())? { None => { panicked = true; break } Some(None) | Some(Some(Err(_))) => break, _ => {} } }
                    w.quiet("dropping a sample iterator", move || drop(it))?
                }
                _ => {
                    let _ = w.quiet("accessors", || (fr.streaminfo(), fr.vendor().map(|v| v.len()), fr.tags().count(), fr.get_tag("artist").count()))?;
                }
            }
            if panicked { cx.count("panicked_later", 1); break }
        }
    } else if cx.src.chance(1, 3) {
        // Documented to panic; the reader stays whole.
        match cx.src.draw(2) {
            0 => { let _ = lib(|| { let _ = fr.blocks(); }); }
            _ => { let _ = lib(|| { let _ = fr.samples(); }); }
        }
        cx.count("refused_audio", 1);
    }
    w.dropped("a history of calls", 0)?;
    match cx.src.weighted(&[4, 2, 2]) {
        0 => {
            let o = w.quiet("FlacReader::into_inner", move || fr.into_inner())?;
            cx.count("given_back", 1);
            w.same("FlacReader::into_inner", o)
        }
        1 => {
            w.quiet("dropping a FlacReader", move || drop(fr))?;
            cx.count("dropped", 1);
            w.dropped("dropping the FlacReader", 1)
        }
        _ if only => {
            let n = w.calls();
            let _ = lib(move || { let _ = fr.into_samples(); });
            ensure!(n == w.calls(), "reads", "into_samples() of a metadata-only reader read");
            w.dropped("into_samples() of a metadata-only reader", 1)
        }
        _ => {
            let mut it = w.quiet("into_samples()", move || fr.into_samples())?;
            for _ in 0..cx.src.usize(0, 300) { match risky("FlacIntoSamples::next", || it.next())? { None | Some(None) | Some(Some(Err(_))) => break, _ => {} } }
            w.dropped("reading samples", 0)?;
            w.quiet("dropping into_samples()", move || drop(it))?;
            cx.count("dropped", 1);
            w.dropped("dropping the FlacIntoSamples", 1)
        }
    }
}

/// The same, with the parts put together by hand.
fn by_hand(cx: &mut Cx, o: Owned, w: &Watch) -> Res<()> {
    let mut br = w.quiet("BufferedReader::new", move || BufferedReader::new(o))?;
    let ok = matches!(risky("read_be_u32", || br.read_be_u32())?, Some(Ok(_)));
    if ok {
        let mut it = w.quiet("MetadataBlockReader::new", || MetadataBlockReader::new(&mut br))?;
        for _ in 0..cx.src.usize(0, 20) { match risky("MetadataBlockReader::next", || it.next())? { None | Some(None) | Some(Some(Err(_))) => break, _ => {} } }
        w.quiet("dropping a MetadataBlockReader", move || drop(it))?;
    }
    for _ in 0..cx.src.usize(0, 3) {
        let mut fr = w.quiet("FrameReader::new", move || FrameReader::new(br))?;
        let mut dead = false;
        for _ in 0..cx.src.usize(0, 3) { match risky("read_next_or_eof", || fr.read_next_or_eof(Vec::new()))? { None => { dead = true; break } Some(Ok(None)) => break, _ => {} } }
        if !dead && cx.src.chance(1, 6) {
            w.quiet("dropping a FrameReader", move || drop(fr))?;
            return w.dropped("dropping the FrameReader", 1);
        }
        br = w.quiet("FrameReader::into_inner", move || fr.into_inner())?;
    }
    w.dropped("frame readers", 0)?;
    if cx.src.chance(1, 3) {
        w.quiet("dropping a BufferedReader", move || drop(br))?;
        return w.dropped("dropping the BufferedReader", 1);
    }
    let o = w.quiet("BufferedReader::into_inner", move || br.into_inner())?;
    cx.count("given_back", 1);
    w.same("BufferedReader::into_inner", o)
}

/// A source that is read exactly: it is given back behind what was decoded.
fn exact(cx: &mut Cx, s: &Stream) -> Res<()> {
    let buffered_src = cx.src.chance(1, 2);
    if buffered_src {
        // One buffer behind many frame readers, one after another; nothing is lost between them.
        let chunks = gen_chunks(&mut cx.src, &s.boundaries());
        let (mut br, obs) = buffered(&s.bytes, chunks, vec![], &cx.log);
        ensure!(call("skip", || br.skip(s.audio as u32))?.is_ok(), "refused", "skipping the metadata failed");
        for (i, f) in s.frames.iter().enumerate() {
            let again = cx.src.chance(2, 3);
            let mut fr = call("FrameReader::new", move || FrameReader::new(br))?;
            match next_block(cx, &mut fr, Vec::new())? { Ok(Some(b)) => same_audio(i, &observe(&b)?, f)?, x => return fail("lost", format!("frame {} through a new FrameReader: {:?}", i, x.map(|_| "end"))) }
            if again { let c = lock(&obs).calls; br = call("FrameReader::into_inner", move || fr.into_inner())?; ensure!(lock(&obs).calls == c, "reads", "FrameReader::into_inner read") } else {
                // By hand from here: the bytes that follow.
                br = call("FrameReader::into_inner", move || fr.into_inner())?;
                if i + 1 < s.frames.len() {
                    let x = call("read_u8", || br.read_u8())?;
                    ensure!(matches!(x, Ok(v) if v == s.bytes[f.end]), "lost", "behind frame {}: {:?}, stored {:#x}", i, x, s.bytes[f.end]);
                    break;
                }
            }
        }
        cx.count("one_buffer", 1);
        account(cx, &obs);
        return Ok(());
    }
    let mut c = Cursor::new(s.bytes.clone());
    c.set_position(4);
    let n = s.meta.len();
    let k = cx.src.usize(0, n);
    {
        let mut it = MetadataBlockReader::new(&mut c);
        for i in 0..k { match call("MetadataBlockReader::next", || it.next())? { Some(Ok(_)) => {} x => return fail("refused", format!("metadata block {}: {:?}", i, x.map(|r| r.map(|_| ())))) } }
    }
    let want = if k == 0 { 4 } else { s.meta[k - 1].end };
    ensure!(c.position() as usize == want, "consumption", "after {} metadata blocks the source is at {}, not {}", k, c.position(), want);
    c.set_position(s.audio as u64);
    let mut at = s.audio;
    for (i, f) in s.frames.iter().enumerate() {
        let mut fr = call("FrameReader::new", move || FrameReader::new(c))?;
        match next_block(cx, &mut fr, Vec::new())? { Ok(Some(b)) => same_audio(i, &observe(&b)?, f)?, x => return fail("lost", format!("frame {} through a new FrameReader: {:?}", i, x.map(|_| "end"))) }
        at = f.end;
        c = call("FrameReader::into_inner", move || fr.into_inner())?;
        ensure!(c.position() as usize == at, "consumption", "after frame {} the source is at {}, not {}", i, c.position(), at);
        if cx.src.chance(1, 8) { break }
    }
    let _ = at;
    cx.count("exact_sources", 1);
    Ok(())
}
