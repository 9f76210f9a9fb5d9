//! Malformed and malicious input, and readers that misbehave.

use super::*;
use crate::alloc;
use crate::bits::crc8;

pub fn probe_gen<T>(cx: &mut Cx, f: impl FnOnce(&mut Src, Probe) -> T) -> T {
    let Cx { ref mut src, ref mut st, .. } = *cx;
    f(src, &mut |k| bump(&mut st.counts, k, 1))
}

/// What one operation gave; comparable between two executions.
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Ok, Block(BObs), End, Err(EObs), Samples(usize, u64, bool), Meta(u64), Panic, Bytes(u64) }

impl Out {
    fn brief(&self) -> String {
        match self { Out::Block(b) => b.brief(), o => format!("{:?}", o) }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op { Blocks(usize), Fresh(usize), Samples(usize), Tags }

#[derive(Clone, Debug)]
struct Script { metadata_only: bool, rvc: bool, ops: Vec<Op>, tail: Option<usize>, bufs: Bufs, buf_seed: u64 }

fn gen_script(src: &mut Src, n: usize) -> Script {
    let mut ops = Vec::new();
    for _ in 0..src.usize(1, n) {
        ops.push(match src.weighted(&[4, 2, 3, 1]) {
            0 => Op::Blocks(src.usize(1, 6)),
            1 => Op::Fresh(src.usize(1, 4)),
            2 => Op::Samples(src.pick(&[1usize, 3, 40, 600, 5000])),
            _ => Op::Tags,
        });
    }
    Script {
        metadata_only: src.chance(1, 12), rvc: !src.chance(1, 6), ops,
        tail: if src.chance(1, 3) { Some(src.pick(&[5usize, 300, 100_000])) } else { None },
        bufs: gen_bufs(src), buf_seed: src.draw(1 << 32),
    }
}

/// Runs library code in the current memory world. `strict`: panics are
/// violations; otherwise they are an outcome.
fn step<T>(what: &str, strict: bool, f: impl FnOnce() -> T) -> Res<Option<T>> {
    let (r, _) = lib_acct(f);
    match r {
        Ok(v) => Ok(Some(v)),
        Err(Pan::Hang) => fail("hang", format!("{} exceeded its budget of read calls", what)),
        Err(Pan::Sim) => Ok(None),
        Err(Pan::Lib(m)) => if strict { fail("panic", format!("{} panicked: {}", what, m)) } else { Ok(None) },
    }
}

fn tags_out(fr: &FlacReader<SimReader>) -> Out {
    let mut h = 0;
    let si = fr.streaminfo();
    h = hash_bytes(h, format!("{:?} {:?}", si, fr.vendor()).as_bytes());
    for (n, v) in fr.tags() { h = hash_bytes(hash_bytes(h, n.as_bytes()), v.as_bytes()) }
    for v in fr.get_tag("artist") { h = hash_bytes(h, v.as_bytes()) }
    Out::Meta(h)
}

fn res_out(r: &Result<Option<claxon::Block>, Error>) -> Res<Out> {
    Ok(match *r {
        Ok(Some(ref b)) => Out::Block(observe(b)?),
        Ok(None) => Out::End,
        Err(ref e) => { let _ = (e.to_string(), format!("{:?}", e)); Out::Err(eobs(e)) }
    })
}

/// Runs a whole session, going on after errors (and panics, if lax).
fn run_script(log: &Log, r: SimReader, s: &Script, strict: bool) -> Res<Vec<Out>> {
    let obs = r.obs.clone();
    let mut outs = Vec::new();
    let mut push = |outs: &mut Vec<Out>, o: Out| { log.ev(90, outs.len() as u64, hash_bytes(0, o.brief().as_bytes()), || o.brief()); outs.push(o) };
    let m = Meter::new(&obs);
    let x = step("FlacReader::new_ext", strict, || FlacReader::new_ext(r, options(s.metadata_only, s.rvc)))?;
    m.done().bounded("opening")?;
    let mut fr = match x {
        None => { push(&mut outs, Out::Panic); return Ok(outs) }
        Some(Err(e)) => { let _ = e.to_string(); push(&mut outs, Out::Err(eobs(&e))); return Ok(outs) }
        Some(Ok(f)) => { push(&mut outs, Out::Ok); f }
    };
    let mut pool = BufPool::new(s.bufs, Rng::new(s.buf_seed));
    let t = step("tags", strict, || tags_out(&fr))?;
    push(&mut outs, t.unwrap_or(Out::Panic));
    if s.metadata_only { return Ok(outs) }
    for op in &s.ops {
        match *op {
            Op::Tags => { let t = step("tags", strict, || tags_out(&fr))?; push(&mut outs, t.unwrap_or(Out::Panic)) }
            Op::Blocks(n) => {
                let mut it = fr.blocks();
                for _ in 0..n {
                    let b = pool.get();
                    let m = Meter::new(&obs);
                    let x = step("read_next_or_eof", strict, || it.read_next_or_eof(b))?;
                    m.done().bounded("read_next_or_eof")?;
                    match x {
                        None => push(&mut outs, Out::Panic),
                        Some(r) => { let o = res_out(&r)?; push(&mut outs, o); if let Ok(Some(b)) = r { pool.put(b.into_buffer()) } }
                    }
                }
            }
            Op::Fresh(n) => for _ in 0..n {
                let b = pool.get();
                let m = Meter::new(&obs);
                let x = step("read_next_or_eof", strict, || fr.blocks().read_next_or_eof(b))?;
                m.done().bounded("read_next_or_eof")?;
                match x {
                    None => push(&mut outs, Out::Panic),
                    Some(r) => { let o = res_out(&r)?; push(&mut outs, o); if let Ok(Some(b)) = r { pool.put(b.into_buffer()) } }
                }
            },
            Op::Samples(n) => {
                let o = samples_out(&obs, &mut fr.samples(), n, strict)?;
                for o in o { push(&mut outs, o) }
            }
        }
    }
    if let Some(n) = s.tail {
        let mut it = fr.into_samples();
        let o = samples_out(&obs, &mut it, n, strict)?;
        for o in o { push(&mut outs, o) }
    }
    Ok(outs)
}

fn samples_out(obs: &Shared, it: &mut dyn Iterator<Item = Result<i32, Error>>, n: usize, strict: bool) -> Res<Vec<Out>> {
    let mut v = Vec::new();
    let mut outs = Vec::new();
    let mut ended = false;
    let m = Meter::new(obs);
    let mut ends = 0;
    for k in 0..n {
        let m1 = if k < 100 { Some(Meter::new(obs)) } else { None };
        let x = step("samples.next", strict, || it.next())?;
        if let Some(m1) = m1 { m1.done().bounded("samples.next")? }
        match x {
            None => { outs.push(Out::Panic); ends += 1; if ends > 3 { break } }
            Some(Some(Ok(s))) => v.push(s),
            Some(Some(Err(e))) => { let _ = e.to_string(); outs.push(Out::Err(eobs(&e))); ends += 1; if ends > 3 { break } }
            Some(None) => { ended = true; break }
        }
    }
    let rec = m.done();
    ensure!(rec.calls <= rec.bytes + rec.faults + n as u64, "too-many-reads", "{} samples: {} read calls for {} bytes", n, rec.calls, rec.bytes);
    outs.push(Out::Samples(v.len(), hash_i32(0, &v), ended));
    Ok(outs)
}

// ---------------------------------------------------------------- inputs

/// Rewrites bytes of a frame and repairs its checksums.
fn mutate_frame(src: &mut Src, f: &[u8], header_len: usize) -> Vec<u8> {
    let mut b = f.to_vec();
    let n = b.len();
    match src.weighted(&[4, 2, 1, 1]) {
        0 => for _ in 0..src.usize(1, 4) { let i = src.usize(0, n - 1); b[i] ^= 1 << src.draw(8) },
        1 => for _ in 0..src.usize(1, 3) { let i = src.usize(header_len.min(n - 1), (header_len + 6).min(n - 1)); b[i] = src.draw(256) as u8 },
        2 => { let i = src.usize(header_len.min(n - 1), n - 1); let l = src.usize(1, 40); let e = (i + l).min(n); for x in b[i..e].iter_mut() { *x = 0 } }
        _ => { let k = src.usize(0, n - 1); b.truncate(k); for _ in 0..src.usize(0, 6) { b.push(src.draw(256) as u8) } }
    }
    if src.chance(5, 6) && b.len() > header_len + 2 { fix_crcs(&mut b, header_len) }
    b
}

/// Frames of all sorts: valid, mutated, malicious, garbage.
pub fn hostile_items(cx: &mut Cx, s: &Stream, n: usize) -> Vec<Vec<u8>> {
    let mut items = Vec::new();
    let mut total = 0;
    for _ in 0..cx.src.usize(1, n) {
        let f = if s.frames.is_empty() { None } else { Some(&s.frames[cx.src.draw(s.frames.len() as u64) as usize]) };
        let it = match (cx.src.weighted(&[3, 4, 6, 1]), f) {
            (0, Some(f)) => { cx.count("item_valid", 1); s.bytes[f.start..f.end].to_vec() }
            (1, Some(f)) => { cx.count("item_mutated", 1); mutate_frame(&mut cx.src, &s.bytes[f.start..f.end], f.header_len) }
            (3, _) => { cx.count("item_garbage", 1); let k = cx.src.usize(0, 200); let mut r = cx.src.sub(); (0..k).map(|_| r.next() as u8).collect() }
            _ => {
                cx.count("item_malicious", 1);
                let odd = [1u64, 0, 2, 6, 16][cx.src.weighted(&[4, 2, 2, 1, 1])];
                let mut b = probe_gen(cx, |src, p| wild_frame(src, Odd::Rate(odd), p));
                if cx.src.chance(1, 10) { let k = cx.src.usize(0, b.len()); b.truncate(k) }
                b
            }
        };
        total += it.len();
        items.push(it);
        if total > 400_000 { break }
    }
    items
}

pub fn small_stream(cx: &mut Cx) -> Stream {
    let size = [Some(Size::Tiny), Some(Size::Small), None][cx.src.weighted(&[5, 3, 1])];
    let rich = cx.src.chance(1, 4);
    stream(cx, StreamOpts { size, meta: if rich { MetaLevel::Rich } else { MetaLevel::Light }, ..StreamOpts::default() })
}

pub fn gen_faults(cx: &mut Cx, bounds: &[usize], n: usize, lo: usize) -> Vec<Fault> {
    let mut v = Vec::new();
    if cx.src.chance(1, 2) {
        for _ in 0..cx.src.usize(1, 6) {
            let at = gen_offset(&mut cx.src, bounds, lo, n.max(lo)) as u64;
            let kind = match cx.src.weighted(&[3, 3, 2, 1, 1, 1]) {
                0 => FaultKind::Intr,
                1 => FaultKind::Err(gen_err(&mut cx.src)),
                2 => FaultKind::Zero,
                3 => FaultKind::Stall(5_000_000),
                4 => FaultKind::Scribble(gen_err(&mut cx.src)),
                _ => FaultKind::ScribbleZero,
            };
            let count = match (kind, cx.src.weighted(&[4, 2, 1])) {
                (FaultKind::Intr, 2) => 200,
                (FaultKind::Stall(_), _) => 1,
                (_, 0) => 1,
                (_, 1) => 3,
                (FaultKind::Intr, _) => 1,
                _ => FOREVER,
            };
            v.push(Fault { at, kind, count });
        }
    }
    v
}

// ---------------------------------------------------------------- C07

pub fn c07(cx: &mut Cx) -> Res<()> {
    let s = small_stream(cx);
    let items = hostile_items(cx, &s, 8);
    let way = cx.src.weighted(&[4, 3, 2]);
    let bufs = [gen_bufs(&mut cx.src), gen_bufs(&mut cx.src)];
    let seeds = [cx.src.sub(), cx.src.sub()];
    cx.note(|| format!("items {:?}, way {}", items.iter().map(|i| i.len()).collect::<Vec<_>>(), way));
    let mut outs: Vec<Vec<Out>> = Vec::new();
    // The block whose surroundings are looked at.
    let look = cx.src.usize(0, 30);
    for w in 0..2usize {
        let mut look_at = Src::from_seed(seeds[w].clone().next());
        alloc::set_world(if w == 0 { 0xa5 } else { 0x3c });
        let mut pool = BufPool::new(bufs[w], seeds[w].clone());
        pool.mask = if w == 0 { 0 } else { 0x5555_5555 };
        pool.put(empty_block()?);
        let mut o = Vec::new();
        match way {
            0 => for (k, it) in items.iter().enumerate() {
                let b = pool.get();
                let x = step("read_next_or_eof", true, || FrameReader::new(Cursor::new(&it[..])).read_next_or_eof(b))?.unwrap();
                if w == 0 { log_block(cx, &x) }
                o.push(res_out(&x)?);
                if let Ok(Some(b)) = x { if look == k { beyond(&b, &mut look_at)? } pool.put(b.into_buffer()) }
            },
            1 => {
                let all: Vec<u8> = items.concat();
                let mut fr = FrameReader::new(Cursor::new(&all[..]));
                for k in 0..items.len() * 2 + 4 {
                    let b = pool.get();
                    let x = step("read_next_or_eof", true, || fr.read_next_or_eof(b))?.unwrap();
                    if w == 0 { log_block(cx, &x) }
                    let end = matches!(x, Ok(None));
                    o.push(res_out(&x)?);
                    if let Ok(Some(b)) = x { if look == k { beyond(&b, &mut look_at)? } pool.put(b.into_buffer()) }
                    if end && k > 0 { break }
                }
            }
            _ => {
                // The iterator recycles its own buffer.
                let mut all = s.bytes[..s.audio].to_vec();
                for it in &items { all.extend_from_slice(it) }
                let r = SimReader::bytes(&all, Chunks::Full, vec![], &cx.log);
                let obs = r.obs.clone();
                let mut fr = match step("open", true, || FlacReader::new(r))?.unwrap() { Ok(f) => f, Err(e) => return fail("open-failed", format!("{:?}", e)) };
                for _ in 0..4 { for x in samples_out(&obs, &mut fr.samples(), 200_000, true)? { o.push(x) } }
            }
        }
        outs.push(o);
    }
    alloc::set_world(0xa5);
    for (i, (a, b)) in outs[0].iter().zip(&outs[1]).enumerate() {
        if a != b {
            let at = match (a, b) {
                (Out::Block(x), Out::Block(y)) if x.data.len() == y.data.len() => (0..x.data.len()).find(|&k| x.data[k] != y.data[k]).map(|k| format!("; they differ first at item {} ({} and {})", k, x.data[k], y.data[k])),
                _ => None,
            };
            return fail("memory-dependent", format!("result {} depends on memory history: {} in one world, {} in the other{}", i, a.brief(), b.brief(), at.unwrap_or_default()));
        }
    }
    ensure!(outs[0].len() == outs[1].len(), "memory-dependent", "{} and {} results in the two worlds", outs[0].len(), outs[1].len());
    // Each packet alone, with a fresh buffer.
    if way == 0 {
        for (k, it) in items.iter().enumerate() {
            let x = step("read_next_or_eof", true, || FrameReader::new(Cursor::new(&it[..])).read_next_or_eof(Vec::new()))?.unwrap();
            let a = res_out(&x)?;
            ensure!(a == outs[0][k], "history-dependent", "packet {} alone gives {}, after others {}", k, a.brief(), outs[0][k].brief());
            // And against the reference, where the format says what it holds.
            if let (Out::Block(o), crate::model::MRes::Frame(m)) = (&a, crate::model::decode_frame(it, 0)) {
                if !m.odd { ensure!(o.bs == m.bs && o.ch == m.ch && o.data == m.data, "wrong-sample", "packet {}: {}, but the bytes hold other samples", k, o.brief()) }
            }
        }
    }
    let n = outs[0].iter().filter(|o| matches!(o, Out::Block(_) | Out::Samples(1.., _, _))).count();
    cx.count("results_compared", outs[0].len() as u64);
    cx.st.nontrivial = n > 0;
    Ok(())
}

// ---------------------------------------------------------------- C08

const C08_KINDS: [u64; 17] = [20_000, 20_000, 20_000, 10_000, 10_000, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 4];

pub fn c08_forced(idx: u64) -> Vec<u64> {
    let base: u64 = C08_KINDS[..5].iter().sum();
    if idx < 13 { vec![base + idx * 2] } else { vec![] }
}

fn plain_si() -> Si {
    Si { min_bs: 16, max_bs: 16, min_fs: 0, max_fs: 0, rate: 44_100, ch: 1, bps: 16, samples: 0, md5: [0; 16] }
}

fn with_si(last: bool) -> Vec<u8> {
    let mut b = b"fLaC".to_vec();
    put_block(&mut b, 0, last, &plain_si().encode());
    b
}

/// A frame header for 16 samples, one channel, 16 bits.
fn plain_header() -> Vec<u8> {
    let mut h = vec![0xff, 0xf8, 0x60, 0x08, 0x00, 0x0f];
    h.push(crc8(&h));
    h
}

fn claim(b: &mut Vec<u8>, btype: u8, last: bool, len: u32) {
    b.extend_from_slice(&[btype | if last { 0x80 } else { 0 }, (len >> 16) as u8, (len >> 8) as u8, len as u8]);
}

pub fn c08(cx: &mut Cx) -> Res<()> {
    crate::steps::limit_work(true);
    let r = c08_run(cx);
    let (steps, per_byte) = crate::steps::most();
    crate::steps::limit_work(false);
    if steps > 0 {
        cx.count(match steps { 0..=9_999 => "most_work_below_1e4_steps", 10_000..=999_999 => "most_work_below_1e6_steps", 1_000_000..=99_999_999 => "most_work_below_1e8_steps", _ => "most_work_above_1e8_steps" }, 1);
        if per_byte > 0 { cx.count(match per_byte { 0..=9 => "work_below_10_steps_per_byte", 10..=99 => "work_below_100_steps_per_byte", _ => "work_above_100_steps_per_byte" }, 1) }
    }
    r
}

fn c08_run(cx: &mut Cx) -> Res<()> {
    let kind = cx.src.weighted(&C08_KINDS);
    cx.count(["in_garbage", "in_hostile_frames", "in_mutated_stream", "in_hostile_metadata", "in_packets",
              "in_zero_run_residual", "in_zero_run_wasted_exact", "in_zero_run_wasted", "in_huge_padding", "in_empty_comments", "in_huge_comment", "in_huge_application", "in_zero_run_everywhere", "in_a_million_metadata_blocks", "in_a_million_frames", "in_a_million_bad_frames", "in_very_many_comments"][kind], 1);
    match kind {
        0 => {
            let k = cx.src.usize(0, 400);
            let mut r = cx.src.sub();
            let mut b = match cx.src.weighted(&[3, 2, 1]) { 0 => with_si(true), 1 => b"fLaC".to_vec(), _ => vec![] };
            let style = cx.src.draw(3);
            let n = b.len();
            for _ in 0..k { b.push(match style { 0 => r.next() as u8, 1 => if r.below(2) == 0 { 0xff } else { 0xf8 }, _ => [0u8, 0xff, 0x80, 1][r.below(4) as usize] }) }
            if k > 8 && cx.src.chance(1, 2) {
                // Give it a header so that the bits behind it count.
                let h = plain_header();
                let l = h.len().min(k);
                b[n..n + l].copy_from_slice(&h[..l]);
            }
            session(cx, b)
        }
        1 => {
            let s = small_stream(cx);
            let mut b = s.bytes[..s.audio].to_vec();
            for it in hostile_items(cx, &s, 6) { b.extend_from_slice(&it) }
            session(cx, b)
        }
        2 => {
            let s = small_stream(cx);
            let mut b = s.bytes.clone();
            for _ in 0..cx.src.usize(1, 8) {
                let n = b.len();
                if n == 0 { break }
                let i = gen_offset(&mut cx.src, &s.boundaries(), 0, n - 1);
                match cx.src.weighted(&[4, 2, 1, 1]) {
                    0 => b[i] ^= 1 << cx.src.draw(8),
                    1 => b[i] = cx.src.draw(256) as u8,
                    2 => { let l = cx.src.usize(1, 50); let e = (i + l).min(n); b.drain(i..e); }
                    _ => { let c = b[i..(i + 20).min(n)].to_vec(); b.splice(i..i, c); }
                }
            }
            session(cx, b)
        }
        3 => { let b = hostile_metadata(cx); session(cx, b) }
        4 => packets(cx),
        _ => heavy(cx, kind),
    }
}

fn hostile_metadata(cx: &mut Cx) -> Vec<u8> {
    let mut b = if cx.src.chance(5, 6) { with_si(false) } else { b"fLaC".to_vec() };
    for _ in 0..cx.src.usize(1, 5) {
        let r = &mut cx.src;
        let t = r.pick(&[4u8, 4, 2, 1, 0, 3, 5, 6, 7, 126, 127]);
        let n = r.usize(0, 80);
        let mut g = r.sub();
        let mut body: Vec<u8> = (0..n).map(|_| g.next() as u8).collect();
        if t == 4 && r.chance(4, 5) {
            // Lengths that almost add up.
            let vl = r.usize(0, 12);
            let nc = r.usize(0, 6);
            let mut v = (vl as u32).to_le_bytes().to_vec();
            v.extend((0..vl).map(|_| g.range(0x20, 0x7e) as u8));
            v.extend_from_slice(&(nc as u32).to_le_bytes());
            for _ in 0..nc {
                let cl = g.below(9) as usize;
                v.extend_from_slice(&(cl as u32).to_le_bytes());
                v.extend((0..cl).map(|i| if i == cl / 2 { b'=' } else { g.range(0x20, 0x7e) as u8 }));
            }
            body = v;
            for _ in 0..r.usize(0, 2) {
                if body.len() >= 4 {
                    let i = r.usize(0, body.len() - 4);
                    let x = r.pick(&[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff8, 12, 0x00ff_ffff]);
                    body[i..i + 4].copy_from_slice(&x.to_le_bytes());
                }
            }
        }
        let claimed = match r.weighted(&[5, 2, 1, 1]) {
            0 => body.len() as u32,
            1 => (body.len() as i64 + r.range(0, 8) as i64 - 4).max(0) as u32,
            2 => r.pick(&[0xff_ffffu32, 10 << 20, (10 << 20) + 1, 0x80_0000, 0]),
            _ => r.draw(12) as u32,
        };
        let last = r.chance(1, 4);
        claim(&mut b, t, last, claimed);
        b.extend_from_slice(&body);
    }
    b
}

fn session(cx: &mut Cx, b: Vec<u8>) -> Res<()> {
    let bounds = vec![4, 42, b.len() / 2, b.len()];
    let faults = gen_faults(cx, &bounds, b.len(), 0);
    let chunks = gen_chunks(&mut cx.src, &bounds);
    cx.note(|| format!("{} bytes: {:02x?}{}; delivery {:?}, faults {:?}", b.len(), &b[..b.len().min(300)], if b.len() > 300 { "..." } else { "" }, chunks, faults));
    let way = cx.src.weighted(&[6, 2, 2]);
    let r = SimReader::bytes(&b, chunks, faults, &cx.log);
    let obs = r.obs.clone();
    match way {
        0 => {
            let sc = gen_script(&mut cx.src, 8);
            let outs = run_script(&cx.log, r, &sc, true)?;
            cx.st.nontrivial = outs.len() > 2;
        }
        1 => {
            let mut br = BufferedReader::new(r);
            let m = Meter::new(&obs);
            let h = call("read_be_u32", || br.read_be_u32())?;
            m.done().bounded("read_be_u32")?;
            if h.is_err() { account(cx, &obs); return Ok(()) }
            {
                let mut it = MetadataBlockReader::new(&mut br);
                for _ in 0..40 {
                    let m = Meter::new(&obs);
                    let x = call("MetadataBlockReader::next", || it.next())?;
                    m.done().bounded("MetadataBlockReader::next")?;
                    let _ = call("size_hint", || it.size_hint())?;
                    match x { None => break, Some(Ok(_)) => cx.st.nontrivial = true, Some(Err(e)) => { let _ = e.to_string(); } }
                }
            }
            let mut fr = FrameReader::new(br);
            let mut pool = BufPool::new(Bufs::Recycle, cx.src.sub());
            for _ in 0..cx.src.usize(0, 12) {
                let m = Meter::new(&obs);
                let x = next_block(cx, &mut fr, pool.get())?;
                m.done().bounded("read_next_or_eof")?;
                if let Ok(Some(b)) = x { observe(&b)?; pool.put(b.into_buffer()); cx.st.nontrivial = true }
            }
        }
        _ => {
            // Metadata readers after errors: new iterators over the same source.
            let mut br = BufferedReader::new(r);
            for _ in 0..cx.src.usize(1, 12) {
                let t = cx.src.draw(256) as u8;
                let len = cx.src.pick(&[34u32, 8, 0, 4, 20, 100, 0xff_ffff, u32::MAX, 12]);
                let m = Meter::new(&obs);
                let x = match cx.src.draw(3) {
                    0 => call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut br))?,
                    1 => call("read_metadata_block", || metadata::read_metadata_block(&mut br, t % 8, len))?,
                    _ => call("read_metadata_block", || metadata::read_metadata_block(&mut br, t, len))?,
                };
                m.done().bounded("read_metadata_block")?;
                cx.log.ev(91, x.is_ok() as u64, len as u64, || format!("block: {:?}", x.as_ref().err()));
                if x.is_ok() { cx.st.nontrivial = true }
            }
        }
    }
    account(cx, &obs);
    Ok(())
}

fn packets(cx: &mut Cx) -> Res<()> {
    let s = small_stream(cx);
    let items = hostile_items(cx, &s, 8);
    let bufs = gen_bufs(&mut cx.src);
    let mut pool = BufPool::new(bufs, cx.src.sub());
    for it in &items {
        let b = pool.get();
        let x = match cx.src.draw(3) {
            0 => { let mut f = FrameReader::new(Cursor::new(&it[..])); next_block(cx, &mut f, b)? }
            1 => {
                let mut sb = SimBytes::new(Arc::new(it.clone()));
                if cx.src.chance(1, 2) { sb.fault = Some((cx.src.usize(0, it.len()), gen_err(&mut cx.src))) }
                let mut f = FrameReader::new(sb);
                next_block(cx, &mut f, b)?
            }
            _ => {
                let mut c = Cursor::new(&it[..]);
                let t = cx.src.draw(256) as u8;
                let _ = call("read_metadata_block", || metadata::read_metadata_block(&mut c, t % 8, t as u32))?;
                let _ = call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut c))?;
                let mut f = FrameReader::new(&mut c);
                next_block(cx, &mut f, b)?
            }
        };
        if !matches!(x, Ok(None)) { cx.st.nontrivial = true }
        if let Ok(Some(b)) = x { observe(&b)?; pool.put(b.into_buffer()) }
    }
    Ok(())
}

/// A minimal frame.
fn frame_of(_p: &mut Vec<u8>) -> Vec<u8> {
    let mut f = plain_header();
    let h = f.len();
    f.extend([0, 0, 5, 0, 0]);
    crate::gen::fix_crcs(&mut f, h);
    f
}

/// Inputs of hundreds of megabytes, delivered without being stored.
fn heavy(cx: &mut Cx, kind: usize) -> Res<()> {
    let run = |prefix: Vec<u8>, byte: u8, len: u64, suffix: Vec<u8>| Data::Run { prefix: Arc::new(prefix), byte, len, suffix: Arc::new(suffix) };
    let mut p = with_si(true);
    let data = match kind {
        // A residual whose quotient never ends (over 2^32 zero bits).
        5 => { p.extend(plain_header()); p.extend([0x10, 0x00]); run(p, 0, (1 << 29) + 40, vec![0xff; 300]) }
        // Exactly 2^32 - 1 wasted bits minus one, and more.
        6 => { p.extend(plain_header()); p.push(0x01); run(p, 0, (1 << 29) - 1, { let mut v = vec![0x01]; v.extend([0xff; 300]); v }) }
        7 => { p.extend(plain_header()); p.push(0x03); run(p, 0, (1 << 29) + 8, vec![0xff; 300]) }
        8 => {
            let mut p = with_si(false);
            claim(&mut p, 1, true, 0xff_ffff);
            let cut = cx.src.range(0, 4000);
            run(p, 0, 0xff_ffff - cut, vec![])
        }
        9 => {
            // As many empty comments as fit in 10 MiB.
            let mut p = with_si(false);
            let len = 10u32 << 20;
            claim(&mut p, 4, true, len);
            p.extend(0u32.to_le_bytes());
            p.extend((len / 4 - 2).to_le_bytes());
            run(p, 0, len as u64 - 8, vec![])
        }
        10 => {
            let mut p = with_si(false);
            let len = 10u32 << 20;
            claim(&mut p, 4, true, len);
            p.extend(0u32.to_le_bytes());
            p.extend(1u32.to_le_bytes());
            p.extend((len - 12).to_le_bytes());
            p.extend(b"=");
            run(p, b'a', len as u64 - 13, vec![])
        }
        11 => {
            let mut p = with_si(false);
            claim(&mut p, 2, true, 10 << 20);
            run(p, 7, (10 << 20) - cx.src.range(0, 1), vec![])
        }
        13 => {
            // Very many tiny blocks.
            let mut p = with_si(false);
            let t = cx.src.pick(&[1u8, 3, 126, 6, 5]);
            let mut unit = vec![];
            let n = cx.src.range(0, 2) as usize;
            for k in 0..cx.src.usize(1, 2) { put_block(&mut unit, if k == 0 { t } else { cx.src.pick(&[1u8, 7]) }, false, &vec![0; n]); }
            let mut end = vec![];
            put_block(&mut end, 1, true, &[]);
            if cx.src.chance(1, 2) { p.extend([0x04, 0, 0, 8, 0, 0, 0, 0, 0, 0, 0, 0]) }
            Data::Cycle { prefix: Arc::new(p), unit: Arc::new(unit), times: 1_500_000, suffix: Arc::new(end) }
        }
        16 => {
            // As many comments as possible that are all different.
            let mut p = with_si(false);
            let len = if cx.src.chance(1, 4) { 1 << 20 } else { 10usize << 20 };
            let style = cx.src.draw(4);
            let n = (len - 8) / 10;
            let mut v = 0u32.to_le_bytes().to_vec();
            v.extend((n as u32).to_le_bytes());
            let c = |k: usize| [b'A' + (k & 15) as u8, b'A' + (k >> 4 & 15) as u8, b'A' + (k >> 8 & 15) as u8, b'A' + (k >> 12 & 15) as u8, b'A' + (k >> 16 & 15) as u8];
            for i in 0..n {
                let k = if style & 1 == 0 { i } else { n - i };
                let x = c(k);
                v.extend([6, 0, 0, 0]);
                // A name of its own, or one name for all and a value of its own.
                if style < 2 { v.extend(x); v.push(b'=') } else { v.extend([b'N', b'=']); v.extend(&x[..4]) }
            }
            // The last one takes what is left.
            let rest = len - v.len();
            let at = v.len() - 10;
            v[at] += rest as u8;
            v.resize(len, b'x');
            put_block(&mut p, 4, true, &v);
            let keep = if cx.src.chance(1, 4) { p.len() - 1 } else { p.len() };
            p.truncate(keep);
            Data::Bytes(Arc::new(p))
        }
        14 | 15 => {
            // Very many tiny frames, sound or not.
            let mut unit = frame_of(&mut p);
            if kind == 15 { let n = unit.len(); unit[n - 1] ^= 1 }
            Data::Cycle { prefix: Arc::new(p), unit: Arc::new(unit), times: 400_000, suffix: Arc::new(vec![]) }
        }
        _ => run(p, 0, 64 << 20, vec![]),
    };
    if (13..16).contains(&kind) { cx.count("long_histories", 1) }
    let r = SimReader::new(data, Chunks::Full, vec![], &cx.log);
    let obs = r.obs.clone();
    let m = Meter::new(&obs);
    let x = open(cx, r, FlacReaderOptions::default())?;
    m.done().bounded("opening")?;
    cx.st.nontrivial = true;
    if kind == 16 {
        if let Ok(f) = x {
            let n = call("tags", || f.tags().count())?;
            let m = call("get_tag", || f.get_tag("n").count() + f.get_tag("AAAAA").count() + f.get_tag("none").count())?;
            cx.log.ev(98, n as u64, m as u64, || format!("{} tags, {} found", n, m));
            cx.count("many_comments_read", 1);
        }
    } else if kind >= 14 {
        let f = match x { Ok(f) => f, Err(e) => return fail("open-failed", format!("{:?}", e)) };
        // One call each for a while, then as one long history.
        let mut f = f;
        if cx.src.chance(1, 2) {
            let (x, u) = lib_acct(|| { let (mut good, mut bad) = (0u64, 0u64); for x in f.samples() { if x.is_ok() { good += 1 } else { bad += 1 } } (good, bad) });
            let (good, bad) = no_panic("samples", x)?;
            cx.log.ev(97, good, bad, || format!("{} samples, {} errors, peak {}", good, bad, u.peak));
        } else {
            let (x, u) = lib_acct(|| {
                let (mut good, mut bad) = (0u64, 0u64);
                let mut it = f.blocks();
                let mut buf = Vec::new();
                for _ in 0..400_001 { match it.read_next_or_eof(buf) { Ok(Some(b)) => { good += 1; buf = b.into_buffer() } Ok(None) => break, Err(_) => { bad += 1; buf = Vec::new() } } }
                (good, bad)
            });
            let (good, bad) = no_panic("read_next_or_eof", x)?;
            cx.log.ev(97, good, bad, || format!("{} blocks, {} errors, peak {}", good, bad, u.peak));
        }
    } else if let Ok(mut f) = x {
        let n = if kind == 12 { 400 } else { 6 };
        let mut it = f.blocks();
        for _ in 0..n {
            let m = Meter::new(&obs);
            let x = next_block(cx, &mut it, Vec::new())?;
            m.done().bounded("read_next_or_eof")?;
            if let Ok(Some(b)) = x { observe(&b)?; }
        }
    }
    account(cx, &obs);
    Ok(())
}

// ---------------------------------------------------------------- C09

const MAX_OPEN: u64 = 256 << 20;
const C09_KINDS: [u64; 9] = [10_000, 14_000, 9_000, 5_000, 3, 3, 3, 3, 3];

pub fn c09_forced(idx: u64) -> Vec<u64> {
    let base: u64 = C09_KINDS[..4].iter().sum();
    if idx < 5 { vec![base + idx * 3] } else { vec![] }
}

pub fn c09(cx: &mut Cx) -> Res<()> {
    let kind = cx.src.weighted(&C09_KINDS);
    cx.st.nontrivial = true;
    match kind {
        0 => c09_claims(cx),
        1 => c09_frames(cx),
        2 => if cx.src.chance(1, 2) { c09_samples(cx) } else { c09_leak(cx) },
        3 => { let b = hostile_metadata(cx); c09_open(cx, Data::Bytes(Arc::new(b)), None) }
        k => c09_heavy(cx, k),
    }
}

fn c09_open(cx: &mut Cx, data: Data, refuse: Option<u32>) -> Res<()> {
    let r = SimReader::new(data, Chunks::Full, vec![], &cx.log);
    let obs = r.obs.clone();
    let o = options(cx.src.chance(1, 4), !cx.src.chance(1, 4));
    let by_blocks = cx.src.chance(1, 3);
    let (err, u) = if by_blocks {
        let mut br = BufferedReader::new(r);
        let _ = call("skip", || br.skip(4))?;
        let mut it = MetadataBlockReader::new(br);
        let mut peak = alloc::Usage::default();
        let mut err = None;
        for _ in 0..50 {
            let (x, u) = lib_acct(|| it.next());
            let x = no_panic("MetadataBlockReader::next", x)?;
            if u.peak > peak.peak { peak.peak = u.peak }
            // Only the allocations of the last block count for a refusal.
            peak.largest = u.largest;
            match x { None => break, Some(Ok(_)) => {}, Some(Err(e)) => { err = Some(e); break } }
        }
        (err, peak)
    } else {
        let (x, u) = lib_acct(|| FlacReader::new_ext(r, o));
        (no_panic("FlacReader::new_ext", x)?.err(), u)
    };
    cx.log.ev(95, u.peak, u.largest, || format!("peak {} largest {} error {:?}", u.peak, u.largest, err));
    account(cx, &obs);
    ensure!(u.peak <= MAX_OPEN, "too-much-memory", "reading the metadata held {} bytes", u.peak);
    if let Some(len) = refuse {
        let reached = by_blocks || !o.metadata_only || o.read_vorbis_comment;
        if reached {
            ensure!(matches!(err, Some(Error::Unsupported(_))), "not-refused", "a block that claims {} bytes was answered with {:?}", len, err);
            ensure!(u.largest <= 1 << 16, "allocated-first", "{} bytes were allocated before a block claiming {} was refused", u.largest, len);
            cx.count("refused_blocks", 1);
        }
    }
    Ok(())
}

fn c09_claims(cx: &mut Cx) -> Res<()> {
    let mut p = with_si(false);
    if cx.src.chance(1, 4) { put_block(&mut p, 1, false, &[0; 20]); }
    let t = cx.src.pick(&[4u8, 2]);
    let len = match cx.src.weighted(&[3, 3, 2]) { 0 => (10u32 << 20) + 1, 1 => cx.src.range((10 << 20) + 1, 0xff_ffff) as u32, _ => 0xff_ffff };
    claim(&mut p, t, cx.src.chance(1, 2), len);
    // Or a permitted length with too many comments in it.
    if cx.src.chance(1, 3) {
        let n = p.len();
        p.truncate(n - 4);
        let len = match cx.src.weighted(&[2, 1]) { 0 => 10u32 << 20, _ => cx.src.range(1 << 20, 10 << 20) as u32 };
        claim(&mut p, 4, cx.src.chance(1, 2), len);
        let vl = cx.src.range(0, 20) as u32;
        p.extend(vl.to_le_bytes());
        p.extend(vec![b'v'; vl as usize]);
        let n = match cx.src.weighted(&[2, 2, 1, 1]) { 0 => len / 4 + cx.src.range(0, 3) as u32, 1 => len - cx.src.range(0, 10) as u32, 2 => cx.src.range(len as u64 / 4, len as u64) as u32, _ => cx.src.range(0, len as u64 / 4) as u32 };
        p.extend(n.to_le_bytes());
        cx.count("many_comments", 1);
        return c09_open(cx, Data::Bytes(Arc::new(p)), None)
    }
    // What follows must not matter.
    let k = cx.src.usize(0, 60);
    let mut g = cx.src.sub();
    if t == 4 && cx.src.chance(1, 2) { p.extend((len - 8).to_le_bytes()) }
    for _ in 0..k { p.push(g.next() as u8) }
    let more = if cx.src.chance(1, 50) { len as u64 } else { 0 };
    // If a metadata-only reader for the streaminfo alone stops before, nothing is refused.
    c09_open(cx, Data::Run { prefix: Arc::new(p), byte: 0, len: more, suffix: Arc::new(vec![]) }, Some(len))
}

fn c09_heavy(cx: &mut Cx, kind: usize) -> Res<()> {
    let mut p = with_si(false);
    let len = 10u32 << 20;
    let empty = |p: &mut Vec<u8>, last: bool| {
        claim(p, 4, last, len);
        p.extend(0u32.to_le_bytes());
        p.extend((len / 4 - 2).to_le_bytes());
    };
    let tiny = || {
        // One-character comments: the most strings per byte.
        let n = (len - 8) / 5;
        let mut v = 0u32.to_le_bytes().to_vec();
        v.extend(n.to_le_bytes());
        for _ in 0..n { v.extend([1, 0, 0, 0, b'=']) }
        while v.len() < len as usize { v.push(0) }
        v
    };
    let data = match kind {
        4 => { empty(&mut p, true); Data::Run { prefix: Arc::new(p), byte: 0, len: len as u64 - 8, suffix: Arc::new(vec![]) } }
        5 => { claim(&mut p, 4, true, len); p.extend(tiny()); Data::Bytes(Arc::new(p)) }
        6 => {
            // A second block while the first is held.
            claim(&mut p, 4, false, len);
            p.extend(tiny());
            claim(&mut p, 4, true, len);
            p.extend(tiny());
            Data::Bytes(Arc::new(p))
        }
        7 => {
            // More application data than may be held at once.
            let mut unit = vec![];
            claim(&mut unit, 2, false, len);
            unit.resize(4 + len as usize, 1);
            let mut end = vec![];
            claim(&mut end, 2, true, 4);
            end.extend([1; 4]);
            Data::Cycle { prefix: Arc::new(p), unit: Arc::new(unit), times: 40, suffix: Arc::new(end) }
        }
        _ => {
            // Very many tiny blocks.
            let t = cx.src.pick(&[1u8, 2, 126, 3, 2]);
            let mut unit = vec![];
            put_block(&mut unit, t, false, &[0; 4]);
            let mut end = vec![];
            put_block(&mut end, 1, true, &[]);
            Data::Cycle { prefix: Arc::new(p), unit: Arc::new(unit), times: 4_000_000, suffix: Arc::new(end) }
        }
    };
    c09_open(cx, data, None)
}

/// Channels and block size that a frame header claims.
fn claims(b: &[u8]) -> Option<(u32, u32)> {
    if b.len() < 6 || b[0] != 0xff || b[1] & 0xfe != 0xf8 { return None }
    let ca = (b[3] >> 4) as u32;
    let ch = match ca { 0..=7 => ca + 1, 8..=10 => 2, _ => return None };
    let p = 4 + match b[4].leading_ones() as usize { 0 => 1, n => n };
    let bs = match b[2] >> 4 {
        0 => return None,
        1 => 192,
        n @ 2..=5 => 576 << (n - 2),
        6 => *b.get(p)? as u32 + 1,
        7 => ((*b.get(p)? as u32) << 8 | *b.get(p + 1)? as u32) + 1,
        n => 256 << (n - 8),
    };
    Some((ch, bs))
}

fn c09_frames(cx: &mut Cx) -> Res<()> {
    let s = small_stream(cx);
    let items = hostile_items(cx, &s, 6);
    let mut kept: Vec<i32> = Vec::new();
    for (k, it) in items.iter().enumerate() {
        let need = claims(it).map_or(0, |(c, b)| (c * b) as usize);
        let buf = match cx.src.weighted(&[3, 2, 2, 1]) {
            0 => std::mem::take(&mut kept),
            1 => Vec::new(),
            // The capacity is there, whatever the length.
            2 => { let mut v = Vec::with_capacity(need + cx.src.usize(0, 3)); let l = cx.src.usize(0, 2) * need / 2; v.resize(l.min(v.capacity()), 7); v }
            _ => vec![3; cx.src.usize(0, need + 10)],
        };
        let cap = buf.capacity();
        let (x, u) = lib_acct(|| FrameReader::new(Cursor::new(&it[..])).read_next_or_eof(buf));
        let x = no_panic("read_next_or_eof", x)?;
        log_block(cx, &x);
        ensure!(u.total <= 8 * need as u64 + 4096, "too-much-memory", "frame {}: {} bytes allocated for a block of {} samples", k, u.total, need);
        cx.count("frames_measured", 1);
        if let Ok(Some(b)) = x {
            let n = b.len() as usize;
            if cap >= n {
                ensure!(u.count == 0, "needless-allocation", "frame {}: {} allocations ({} bytes) although the buffer had capacity for {} of {} samples", k, u.count, u.total, cap, n);
                cx.count("frames_without_allocation", 1);
            }
            kept = b.into_buffer();
        }
    }
    Ok(())
}

/// One stream after another, each closed at some point; nothing may be left of
/// them. Every round uses streams of the same sizes with other contents, so that
/// what is kept for later (if of bounded size) does not grow.
fn c09_leak(cx: &mut Cx) -> Res<()> {
    #[derive(Clone)]
    struct Plan { vendor: usize, tags: Vec<(usize, usize)>, app: Option<usize>, si: Si, audio: Vec<u8>, cut: Option<usize>, fault: Option<(usize, ErrSpec)>, o: (bool, bool), way: u64, n: usize }
    let k = cx.src.usize(1, 4);
    let mut plans = vec![];
    for _ in 0..k {
        let s = small_stream(cx);
        let mut audio = s.bytes[s.audio..].to_vec();
        if cx.src.chance(1, 3) { for it in hostile_items(cx, &s, 2) { audio.extend_from_slice(&it) } }
        let r = &mut cx.src;
        let tags = (0..r.usize(0, 5)).map(|_| (r.usize(1, 12), r.usize(0, 40))).collect();
        plans.push(Plan { vendor: r.usize(0, 60), tags, app: if r.chance(1, 3) { Some(r.usize(0, 200)) } else { None }, si: s.si.clone(), audio,
            cut: None, fault: None, o: (r.chance(1, 5), !r.chance(1, 5)), way: r.draw(6), n: r.usize(0, 6) });
        let p = plans.last_mut().unwrap();
        match r.weighted(&[3, 1, 1]) { 0 => {}, 1 => p.cut = Some(r.usize(0, 400)), 
            // An error that owns memory was allocated outside.
            _ => p.fault = Some((r.usize(0, 400), match gen_err(r) { ErrSpec::Payload(k, _) => ErrSpec::Kind(k), e => e })) }
    }
    let seed = cx.src.sub();
    cx.note(|| format!("{} streams per round", k));
    const ROUNDS: usize = 6;
    let mut left = [0i64; ROUNDS];
    for round in 0..ROUNDS {
        for (i, p) in plans.iter().enumerate() {
            let mut g = seed.clone();
            for _ in 0..round * 7 + i { g.next(); }
            let mut text = |n: usize| -> Vec<u8> { (0..n).map(|_| g.range(0x41, 0x7a) as u8).collect() };
            let mut b = b"fLaC".to_vec();
            put_block(&mut b, 0, false, &p.si.encode());
            let mut v = (p.vendor as u32).to_le_bytes().to_vec();
            v.extend(text(p.vendor));
            v.extend((p.tags.len() as u32).to_le_bytes());
            for &(n, m) in &p.tags {
                v.extend((n as u32 + 1 + m as u32).to_le_bytes());
                v.extend(text(n)); v.push(b'='); v.extend(text(m));
            }
            put_block(&mut b, 4, p.app.is_none(), &v);
            if let Some(n) = p.app { let mut a = text(4); a.extend(text(n)); put_block(&mut b, 2, true, &a); }
            b.extend_from_slice(&p.audio);
            if let Some(c) = p.cut { b.truncate(c) }
            let faults = p.fault.map(|(at, e)| vec![Fault { at: at as u64, kind: FaultKind::Err(e), count: FOREVER }]).unwrap_or_default();
            let mut rd = SimReader::bytes(&b, Chunks::Full, faults, &cx.log);
            let obs = rd.obs.clone();
            let (way, n, o) = (p.way, p.n, options(p.o.0 && p.way != 5, p.o.1));
            let (x, u) = lib_acct(|| {
                if way == 4 {
                    let _ = rd.skip_magic();
                    let mut it = MetadataBlockReader::new(BufferedReader::new(&mut rd));
                    for _ in 0..n { match it.next() { None | Some(Err(_)) => break, Some(Ok(_)) => {} } }
                    return
                }
                let mut f = match FlacReader::new_ext(&mut rd, o) { Ok(f) => f, Err(_) => return };
                if o.metadata_only { return }
                match way {
                    0 => for x in f.samples().take(n * 50) { if x.is_err() { break } },
                    1 => for x in f.into_samples().take(n * 50) { if x.is_err() { break } },
                    2 => for _ in 0..n { let _ = f.blocks().read_next_or_eof(Vec::new()); },
                    3 => { let mut buf = vec![]; for _ in 0..n { match f.blocks().read_next_or_eof(buf) { Ok(Some(b)) => buf = b.into_buffer(), _ => break } } }
                    _ => { let mut it = f.blocks(); let mut kept = vec![]; for _ in 0..n { if let Ok(Some(b)) = it.read_next_or_eof(Vec::new()) { kept.push(b) } } }
                }
            });
            no_panic("a session", x)?;
            left[round] += u.live;
            account(cx, &obs);
        }
    }
    cx.log.ev(99, left[0] as u64, left[ROUNDS - 1] as u64, || format!("left after each round: {:?}", left));
    // Buffers kept for good may grow a little at first; not for ever.
    let later: i64 = left[2..].iter().sum();
    ensure!(later <= 0 || left[2..].iter().filter(|&&x| x > 0).count() < 2, "memory-left", "closing {} streams left {:?} bytes allocated, round by round", k, left);
    cx.count("streams_closed", (k * ROUNDS) as u64);
    Ok(())
}

fn c09_samples(cx: &mut Cx) -> Res<()> {
    let size = [Size::Tiny, Size::Small][cx.src.weighted(&[2, 1])];
    let s = stream(cx, StreamOpts { size: Some(size), min_frames: 2, ..StreamOpts::default() });
    let r = SimReader::bytes(&s.bytes, Chunks::Full, vec![], &cx.log);
    let obs = r.obs.clone();
    let mut fr = open_ok(cx, r)?;
    let (mut records, mut want, mut max) = (0u64, 0u64, 0);
    for f in &s.frames { if f.data.len() > max { max = f.data.len(); records += 1; want += 4 * max as u64 } }
    let (x, u) = lib_acct(|| { let mut n = 0u64; for x in fr.samples() { if x.is_err() { break } n += 1 } n });
    let n = no_panic("samples", x)?;
    cx.log.ev(96, u.count, u.total, || format!("{} samples, {} allocations, {} bytes", n, u.count, u.total));
    account(cx, &obs);
    ensure!(u.count <= records, "needless-allocation", "samples(): {} allocations for blocks that grow {} times", u.count, records);
    ensure!(u.total <= 2 * want + 4096, "too-much-memory", "samples(): {} bytes allocated, {} needed", u.total, want);
    Ok(())
}

// ---------------------------------------------------------------- C18

pub fn c18(cx: &mut Cx) -> Res<()> {
    if cx.src.chance(1, 3) { return c18_bytes(cx) }
    let rich = cx.src.chance(1, 3);
    let size = [Size::Tiny, Size::Small][cx.src.weighted(&[3, 1])];
    let s = stream(cx, StreamOpts { size: Some(size), meta: if rich { MetaLevel::Rich } else { MetaLevel::Light }, ..StreamOpts::default() });
    let bounds = s.boundaries();
    let n = s.bytes.len();
    let mut faults = Vec::new();
    for _ in 0..cx.src.usize(1, 4) {
        let lo = if cx.src.chance(1, 4) { 0 } else { s.audio };
        let at = gen_offset(&mut cx.src, &bounds, lo, n) as u64;
        let kind = match cx.src.weighted(&[4, 3, 2, 2, 3]) {
            0 => FaultKind::LieOver(cx.src.pick(&[2049usize, 2050, 2100, 4096, 1 << 20, usize::MAX, 1 << 32, (1 << 32) + 5, (1 << 32) + 2048, usize::MAX / 2])),
            1 => FaultKind::LieNoWrite(cx.src.pick(&[1usize, 100, 2048, 2047])),
            2 => FaultKind::Scribble(gen_err(&mut cx.src)),
            3 => FaultKind::ScribbleZero,
            _ => FaultKind::Panic,
        };
        faults.push(Fault { at, kind, count: if cx.src.chance(1, 4) { 3 } else { 1 } });
    }
    let chunks = gen_chunks(&mut cx.src, &bounds);
    let sc = gen_script(&mut cx.src, 8);
    cx.note(|| format!("delivery {:?}, faults {:?}, script {:?}", chunks, faults, sc));
    let mut res = Vec::new();
    for w in 0..2 {
        alloc::set_world(if w == 0 { 0xa5 } else { 0x3c });
        let log = if w == 0 { cx.log.clone() } else { Log::default() };
        let mut r = SimReader::bytes(&s.bytes, chunks.clone(), faults.clone(), &log);
        r.watch_bufs = true;
        let obs = r.obs.clone();
        let o = run_script(&log, r, &sc, false);
        if w == 0 { account(cx, &obs) }
        let h = lock(&obs).buf_hash;
        if lock(&obs).faults > 0 { cx.st.nontrivial = true }
        alloc::set_world(0xa5);
        res.push((lax(o)?, h));
    }
    compare(&res)
}

/// Bounds on the work do not apply to a reader that lies about its bytes.
fn lax(o: Res<Vec<Out>>) -> Res<Vec<Out>> {
    match o { Err(ref v) if v.class == "too-many-reads" => Ok(vec![]), o => o }
}

fn compare(res: &[(Vec<Out>, u64)]) -> Res<()> {
    let (a, b) = (&res[0], &res[1]);
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        ensure!(x == y, "leaks-memory", "outcome {} depends on what was in memory: {} and {}", i, x.brief(), y.brief());
    }
    ensure!(a.0.len() == b.0.len(), "leaks-memory", "{} and {} outcomes", a.0.len(), b.0.len());
    ensure!(a.1 == b.1, "uninitialised-buffer", "the contents of the buffers handed to the reader depend on what was in memory before");
    Ok(())
}

/// A safe `ReadBytes` that claims success without writing.
fn c18_bytes(cx: &mut Cx) -> Res<()> {
    let s = stream(cx, StreamOpts { size: Some(Size::Tiny), meta: MetaLevel::Rich, ..StreamOpts::default() });
    let lazy = cx.src.range(0, 6) as u32;
    let fault = if cx.src.chance(1, 3) { Some((cx.src.usize(0, s.bytes.len()), gen_err(&mut cx.src))) } else { None };
    let data = Arc::new(s.bytes.clone());
    let single = cx.src.chance(1, 2);
    let mut res = Vec::new();
    cx.count("custom_read_bytes", 1);
    for w in 0..2 {
        alloc::set_world(if w == 0 { 0xa5 } else { 0x3c });
        let mut outs = Vec::new();
        let mut sb = SimBytes::new(data.clone());
        sb.lazy = lazy;
        sb.fault = fault;
        sb.pos = 4;
        let out = |x: Result<MetadataBlock, Error>| -> Out {
            match x {
                Err(e) => Out::Err(eobs(&e)),
                Ok(b) => {
                    let mut h = 0;
                    match b {
                        MetadataBlock::StreamInfo(s) => h = hash_bytes(1, format!("{:?}", s).as_bytes()),
                        MetadataBlock::Padding { length } => h = length as u64,
                        MetadataBlock::Application { id, data } => h = hash_bytes(id as u64, &data),
                        MetadataBlock::VorbisComment(v) => { h = hash_bytes(2, v.vendor.as_bytes()); for c in v.comments { h = hash_bytes(h + c.1 as u64, c.0.as_bytes()) } }
                        _ => {}
                    }
                    Out::Meta(h)
                }
            }
        };
        if single {
            // Block by block, going on behind the block after an error.
            for m in &s.meta {
                sb.pos = m.start;
                let x = step("read_metadata_block_with_header", true, || metadata::read_metadata_block_with_header(&mut sb))?.unwrap();
                outs.push(out(x));
            }
        } else {
            {
                let mut it = MetadataBlockReader::new(&mut sb);
                while let Some(x) = step("MetadataBlockReader::next", true, || it.next())?.unwrap() { outs.push(out(x)) }
            }
            let mut fr = FrameReader::new(&mut sb);
            for _ in 0..3 {
                let x = step("read_next_or_eof", true, || fr.read_next_or_eof(Vec::new()))?.unwrap();
                outs.push(res_out(&x)?);
            }
        }
        if w == 0 { for (i, o) in outs.iter().enumerate() { cx.log.ev(92, i as u64, hash_bytes(0, o.brief().as_bytes()), || o.brief()) } }
        if lazy > sb.lazy { cx.st.nontrivial = true; bump(&mut cx.st.faults, "claims_unwritten", (lazy - sb.lazy) as u64) }
        res.push((outs, sb.buf_hash));
        alloc::set_world(0xa5);
    }
    compare(&res)
}
