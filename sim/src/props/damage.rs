use super::*;
use super::retry::genuine_at;
use crate::bits::{crc16, crc8};
use crate::model::{decode_frame, parse_block, MFrame, MRes, Why};

/// What a correct decoder can deliver from `from` on: a chain of checksummed
/// frames, then the end or something that is not a frame.
pub struct Chain { pub frames: Vec<MFrame>, pub stop: Option<Why>, pub at: usize }

pub fn chain(b: &[u8], from: usize) -> Chain {
    let mut c = Chain { frames: vec![], stop: None, at: from };
    loop {
        match decode_frame(b, c.at) {
            MRes::Frame(f) => { c.at = f.end; c.frames.push(f) }
            MRes::Eof => return c,
            MRes::Bad(w) => { c.stop = Some(w); return c }
        }
    }
}

/// Length of the frame header that starts here, whatever its values mean.
fn header_len(b: &[u8]) -> Option<usize> {
    let mut p = 4 + match b.get(4)?.leading_ones() as usize { 0 => 1, n => n };
    match b.get(2)? >> 4 { 6 => p += 1, 7 => p += 2, _ => {} }
    match b.get(2)? & 15 { 12 => p += 1, 13 | 14 => p += 2, _ => {} }
    Some(p + 1)
}

/// The library accepted something the reference finds no frame in. Do the
/// exact bytes it consumed carry the sync code and both checksums?
fn checksummed(b: &[u8], at: usize) -> Res<bool> {
    let mut fr = FrameReader::new(Cursor::new(&b[at..]));
    let x = call("read_next_or_eof", || fr.read_next_or_eof(Vec::new()))?;
    if !matches!(x, Ok(Some(_))) { return Ok(false) }
    let n = fr.into_inner().position() as usize;
    let f = &b[at..(at + n).min(b.len())];
    if f.len() < 8 || f[0] != 0xff || f[1] & 0xfc != 0xf8 { return Ok(false) }
    let h = match header_len(f) { Some(h) if h < f.len() => h, _ => return Ok(false) };
    let k = f.len() - 2;
    Ok(crc8(&f[..h - 1]) == f[h - 1] && crc16(&f[..k]) == (f[k] as u16) << 8 | f[k + 1] as u16)
}

fn same_model(o: &BObs, m: &MFrame) -> bool { o.bs == m.bs && o.ch == m.ch && (m.odd || o.data == m.data) }

fn damage(cx: &mut Cx, s: &Stream) -> Vec<u8> {
    let mut b = s.bytes[s.audio..].to_vec();
    let base = s.audio;
    for _ in 0..cx.src.usize(1, 3) {
        if b.is_empty() { break }
        let n = b.len();
        let any = |src: &mut Src| -> usize {
            // Often in the first bytes of a frame, or in its last two.
            let f = &s.frames[src.draw(s.frames.len() as u64) as usize];
            let (st, en) = (f.start - base, f.end - base);
            (match src.weighted(&[3, 3, 2]) { 0 => src.usize(0, n - 1), 1 => st + src.usize(0, f.header_len), _ => en - 1 - src.usize(0, 2) }).min(n - 1)
        };
        let k = cx.src.weighted(&[6, 2, 2, 2, 2, 2, 3, 3, 3, 3, 1]);
        let name = ["bit_flips", "zeroed", "lost_bytes", "duplicated", "swapped", "inserted", "header_crc16_repaired", "header_crc8_repaired",
                    "sync_both_repaired", "checksum_bytes", "sector_replaced"][k];
        let i = any(&mut cx.src);
        let len = match cx.src.weighted(&[3, 2, 1]) { 0 => cx.src.usize(1, 4), 1 => cx.src.usize(1, 64), _ => cx.src.usize(1, 600) };
        bump(&mut cx.st.faults, name, 1);
        let r = &mut cx.src;
        match k {
            0 => for _ in 0..r.usize(1, 4) { let i = any(r); b[i] ^= 1 << r.draw(8) },
            1 => { let e = (i + len).min(n); for x in b[i..e].iter_mut() { *x = 0 } }
            2 => { let e = (i + len).min(n); b.drain(i..e); }
            3 => { let e = (i + len).min(n); let c = b[i..e].to_vec(); let at = if r.chance(1, 2) { any(r) } else { e }; let at = at.min(b.len()); b.splice(at..at, c); }
            4 => { let j = any(r); let (i, j) = (i.min(j), i.max(j)); let l = len.min(j - i).min(n - j); for q in 0..l { b.swap(i + q, j + q) } }
            5 => { let mut g = r.sub(); let c: Vec<u8> = (0..len).map(|_| g.next() as u8).collect(); b.splice(i..i, c); }
            6 | 7 | 8 => {
                // Changes made by something that repairs one of the checksums.
                let f = &s.frames[r.draw(s.frames.len() as u64) as usize];
                let (st, en) = (f.start - base, f.end - base);
                if en > b.len() || s.bytes[f.start..f.end] != b[st..en] { continue }
                let h = f.header_len;
                let fr = &mut b[st..en];
                let l = fr.len();
                if k == 8 {
                    match r.weighted(&[2, 2, 1]) { 0 => fr[0] ^= 1 << r.draw(8), 1 => fr[1] ^= 1 << (1 + r.draw(7)), _ => fr[1] ^= 4 }
                    fr[h - 1] = crc8(&fr[..h - 1]);
                } else if k == 7 {
                    let i = r.usize(4, h - 2).min(h - 2);
                    fr[i] ^= 1 << r.draw(6);
                    fr[h - 1] = crc8(&fr[..h - 1]);
                    continue;
                } else if r.chance(1, 2) {
                    fr[h - 1] ^= 1 << r.draw(8);
                } else {
                    let i = r.usize(2, h - 2).min(h - 2);
                    fr[i] ^= 1 << r.draw(8);
                }
                let c = crc16(&fr[..l - 2]);
                fr[l - 2] = (c >> 8) as u8;
                fr[l - 1] = c as u8;
            }
            9 => {
                let f = &s.frames[r.draw(s.frames.len() as u64) as usize];
                let (st, en) = (f.start - base, f.end - base);
                if en > b.len() { continue }
                match r.weighted(&[2, 2, 2, 1, 1, 1]) {
                    0 => b[en - 1] ^= 1 << r.draw(8),
                    1 => b[en - 2] ^= 1 << r.draw(8),
                    2 => b[st + f.header_len - 1] ^= 1 << r.draw(8),
                    3 => b.swap(en - 1, en - 2),
                    4 => { b[en - 1] = 0; b[en - 2] = 0 }
                    _ => { b[en - 1] ^= 0xff; b[en - 2] ^= 0xff }
                }
            }
            _ => { let mut g = r.sub(); let e = (i + len).min(n); for x in b[i..e].iter_mut() { *x = g.next() as u8 } }
        }
    }
    let mut out = s.bytes[..s.audio].to_vec();
    out.extend_from_slice(&b);
    out
}

pub fn c06(cx: &mut Cx) -> Res<()> {
    let s = stream(cx, StreamOpts { min_frames: 1, ..StreamOpts::default() });
    let bytes = damage(cx, &s);
    cx.st.nontrivial = bytes != s.bytes;
    let c = chain(&bytes, s.audio);
    // Intact frames with only intact frames before them.
    let must = c.frames.iter().take_while(|f| s.frames.iter().any(|g| s.bytes[g.start..g.end] == bytes[f.start..f.end])).count();
    cx.note(|| format!("damaged: {} bytes, {} frames in front of {:?} at {}, {} of them original", bytes.len(), c.frames.len(), c.stop, c.at, must));
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    let r = SimReader::bytes(&bytes, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let mut fr = open_ok(cx, r)?;
    let bufs = gen_bufs(&mut cx.src);
    let mode = match cx.src.weighted(&[5, 1, 1]) { 0 => Mode::Blocks, 1 => Mode::Samples, _ => Mode::IntoSamples };
    if mode != Mode::Blocks {
        let g = decode(cx, fr, mode, bufs, c.frames.len() + 4)?;
        account(cx, &obs);
        let mut i = 0;
        let mut n = 0;
        for m in &c.frames {
            let len = (m.bs * m.ch) as usize;
            if i == g.samples.len() && n >= must { break }
            ensure!(i + len <= g.samples.len(), "missing-samples", "{} samples delivered; {} intact frames precede the damage (ended with {:?})", g.samples.len(), must, g.end);
            if !m.odd {
                for k in 0..len {
                    let w = m.data[(k % m.ch as usize) * m.bs as usize + k / m.ch as usize];
                    ensure!(g.samples[i + k] == w, "wrong-sample", "frame {} item {}: got {}, stored {}", n, k, g.samples[i + k], w);
                }
            }
            i += len;
            n += 1;
        }
        if i < g.samples.len() {
            ensure!(n == c.frames.len() && matches!(c.stop, Some(Why::Structure) | Some(Why::Unsupported)) && checksummed(&bytes, c.at)?,
                "damage-delivered", "{} samples beyond the last checksummed frame, where {:?}", g.samples.len() - i, c.stop);
        } else {
            ensure!(!(g.end == End::Eof && (n < c.frames.len() || c.stop.is_some())), "damage-hidden", "damage ({:?} at {}) was reported as a clean end", c.stop, c.at);
        }
        return Ok(());
    }
    let mut pool = BufPool::new(bufs, cx.src.sub());
    let fresh = cx.src.chance(1, 4);
    let mut it = fr.blocks();
    let mut at = s.audio;
    for k in 0.. {
        if fresh && k > 0 { drop(it); it = fr.blocks() }
        match next_block(cx, &mut it, pool.get())? {
            Ok(Some(b)) => {
                let o = observe(&b)?;
                pool.put(b.into_buffer());
                match c.frames.get(k) {
                    Some(m) => {
                        ensure!(same_model(&o, m), "wrong-sample", "{} was delivered from bytes {}..{}, which hold {} x {} other samples", o.brief(), m.start, m.end, m.bs, m.ch);
                        at = m.end;
                    }
                    None => {
                        ensure!(matches!(c.stop, Some(Why::Structure) | Some(Why::Unsupported)) && checksummed(&bytes, c.at)?,
                            "damage-delivered", "{} was delivered from byte {}, where {:?}", o.brief(), c.at, c.stop);
                        account(cx, &obs);
                        return Ok(());
                    }
                }
            }
            Ok(None) => {
                ensure!(k >= c.frames.len() && c.stop.is_none(), "damage-hidden", "a clean end was reported at byte {}, where {}", at,
                    match c.stop { Some(ref w) if k >= c.frames.len() => format!("{:?}", w), _ => "a frame follows".into() });
                break;
            }
            Err(e) => {
                ensure!(k >= must, "lost-block", "frame {} is intact and only intact frames precede it, but: {:?}", k, e);
                if !matches!(e, Error::IoError(_)) { cx.count("errors_format", 1) }
                // Whatever follows must be made of stored, checksummed bytes.
                let mut after = 0;
                for _ in 0..cx.src.usize(0, 12) {
                    match next_block(cx, &mut it, pool.get())? {
                        Ok(Some(b)) => {
                            let o = observe(&b)?;
                            pool.put(b.into_buffer());
                            after += 1;
                            match genuine_at(&bytes, at, &o) {
                                Some(e) => at = e,
                                None => return fail("damage-delivered", format!("{} was delivered after an error, but no checksummed frame at or after byte {} holds it", o.brief(), at)),
                            }
                        }
                        Ok(None) => break,
                        Err(_) => {}
                    }
                }
                if after > 0 { cx.count("blocks_after_damage", after) }
                break;
            }
        }
    }
    account(cx, &obs);
    Ok(())
}

/// A container's packet queue behind one long-lived frame reader.
struct Feed(Arc<std::sync::Mutex<Cursor<Vec<u8>>>>);

impl ReadBytes for Feed {
    fn read_u8(&mut self) -> std::io::Result<u8> { self.0.lock().unwrap().read_u8() }
    fn read_u8_or_eof(&mut self) -> std::io::Result<Option<u8>> { self.0.lock().unwrap().read_u8_or_eof() }
    fn read_into(&mut self, b: &mut [u8]) -> std::io::Result<()> { self.0.lock().unwrap().read_into(b) }
    fn skip(&mut self, n: u32) -> std::io::Result<()> { self.0.lock().unwrap().skip(n) }
}

#[derive(Clone)]
enum Body { Frame(usize, usize), Meta(usize, usize), Alien, Claim(u8, u32), Misfit }

#[derive(Clone)]
struct Packet { body: Body, bytes: Vec<u8>, intact: bool, cut: bool }

/// A metadata packet, all there, with a declared length or inner lengths that may contradict its type.
fn misfit(cx: &mut Cx, s: &Stream) -> Vec<u8> {
    let src = &mut cx.src;
    let body_of = |t: u8| s.meta.iter().find(|m| m.btype == t).map(|m| s.bytes[m.start + 4..m.end].to_vec());
    let (t, mut body) = match src.weighted(&[4, 5, 2, 1, 1]) {
        0 => (0u8, body_of(0).unwrap()),
        1 => (4, match body_of(4) {
            Some(b) if src.chance(1, 2) => b,
            _ => {
                let mut b = Vec::new();
                let v = src.usize(0, 6);
                b.extend_from_slice(&(v as u32).to_le_bytes());
                b.extend_from_slice(&b"vendor"[..v]);
                let n = src.usize(0, 4);
                b.extend_from_slice(&(n as u32).to_le_bytes());
                for _ in 0..n {
                    let c = src.pick(&["A=b", "TITLE=x", "=", "a=", "=v", "", "ARTIST=\u{e9}\u{4e2d}", "x=y=z"]);
                    b.extend_from_slice(&(c.len() as u32).to_le_bytes());
                    b.extend_from_slice(c.as_bytes());
                }
                b
            }
        }),
        2 => (2, b"appl with data"[..src.usize(0, 12)].to_vec()),
        3 => (127, vec![0; src.usize(0, 20)]),
        _ => (src.pick(&[1u8, 3, 5, 6, 7, 100, 126]), vec![0xff; src.usize(0, 40)]),
    };
    // What became of it.
    match src.weighted(&[1, 3, 3, 3]) {
        0 => {}
        1 => { let most = if src.chance(2, 3) { 4 } else { 30 }; let n = src.usize(1, most); let v = src.pick(&[0u8, 0xff, b'=']); body.resize(body.len() + n, v) }
        2 => { let most = if src.chance(2, 3) { 4 } else { 30 }; let n = src.usize(1, most).min(body.len()); let k = body.len() - n; body.truncate(k) }
        _ if !body.is_empty() => {
            // A small change to one of the fields.
            let i = match src.weighted(&[2, 2, 1]) { 0 => src.usize(0, body.len() - 1), 1 => src.usize(0, body.len().min(12) - 1), _ => { let mut a: Vec<usize> = (0..body.len()).filter(|&i| body[i] == b'=').collect(); a.push(0); src.pick(&a) } };
            body[i] = match src.draw(4) { 0 => body[i].wrapping_add(1), 1 => body[i].wrapping_sub(1), 2 => body[i] ^ (1 << src.draw(8)), _ => src.pick(&[0u8, 0xff, 0x80, b'=', b' ', b'~', 0x7f]) };
        }
        _ => {}
    }
    let n = body.len();
    let mut b = vec![t | (src.draw(2) as u8) << 7, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    b.append(&mut body);
    b
}

/// More packets than a 16-bit counter holds, lost, repeated, swapped and damaged, through one frame reader.
fn many_packets(cx: &mut Cx) -> Res<()> {
    let s = long::long_stream(cx);
    let mut r = cx.src.sub();
    let loss = cx.src.pick(&[0u64, 0, 1, 30]);
    let feed = Arc::new(std::sync::Mutex::new(Cursor::new(Vec::new())));
    let mut fr = FrameReader::new(Feed(feed.clone()));
    let mut buf = Vec::new();
    let (mut i, mut k) = (0usize, 0u64);
    cx.st.nontrivial = true;
    while i < s.frames.len() {
        let mut j = i;
        i += 1;
        let mut cut = 0;
        if loss > 0 && r.below(100) < loss {
            match r.below(4) { 0 => continue, 1 => j = r.below(s.frames.len() as u64) as usize, 2 => i -= 1, _ => cut = 1 + r.below(3) as usize }
        }
        let f = &s.frames[j];
        *feed.lock().unwrap() = Cursor::new(s.bytes[f.start..f.end - cut].to_vec());
        let x = call("read_next_or_eof", || fr.read_next_or_eof(std::mem::replace(&mut buf, Vec::new())))?;
        let used = feed.lock().unwrap().position() as usize;
        k += 1;
        match x {
            Ok(Some(b)) => {
                ensure!(cut == 0, "cut-accepted", "packet {} (frame {}) was cut and accepted", k, j);
                let good = b.duration() == f.bs && b.channels() == f.ch && b.time() == f.time && (0..f.ch).all(|c| b.channel(c) == &f.data[(c * f.bs) as usize..((c + 1) * f.bs) as usize]);
                ensure!(good, "wrong-block", "packet {} (frame {}): {} samples of {} channels from {}: {:?}", k, j, b.duration(), b.channels(), b.time(), b.channel(0));
                ensure!(used == f.end - f.start, "consumption", "packet {} has {} bytes, {} were consumed", k, f.end - f.start, used);
                buf = b.into_buffer();
            }
            Ok(None) => return fail("damage-hidden", format!("packet {} (frame {}): the end of the stream", k, j)),
            Err(e) => ensure!(cut > 0, "packet-refused", "packet {} (frame {}): {:?}", k, j, e),
        }
    }
    cx.log.ev(84, k, loss, || format!("{} packets", k));
    cx.count("packets_of_long_streams", k);
    Ok(())
}

pub fn c15(cx: &mut Cx) -> Res<()> {
    if cx.src.chance(1, 8000) { return many_packets(cx) }
    let n_streams = if cx.src.chance(1, 3) { 2 } else { 1 };
    let mut streams = Vec::new();
    for _ in 0..n_streams {
        let size = [Some(Size::Tiny), Some(Size::Small), None][cx.src.weighted(&[4, 3, 1])];
        let meta = if cx.src.chance(1, 3) { MetaLevel::Rich } else { MetaLevel::Light };
        streams.push(stream(cx, StreamOpts { size, min_frames: 1, meta, ..StreamOpts::default() }));
    }
    let mut packets: Vec<Packet> = Vec::new();
    for (i, s) in streams.iter().enumerate() {
        for (j, m) in s.meta.iter().enumerate() { packets.push(Packet { body: Body::Meta(i, j), bytes: s.bytes[m.start..m.end].to_vec(), intact: true, cut: false }) }
        for (j, f) in s.frames.iter().enumerate() { packets.push(Packet { body: Body::Frame(i, j), bytes: s.bytes[f.start..f.end].to_vec(), intact: true, cut: false }) }
    }
    // The network.
    let mut arrived: Vec<Packet> = Vec::new();
    let mut late: Vec<Packet> = Vec::new();
    for p in packets {
        match cx.src.weighted(&[6, 2, 2, 2, 3, 3]) {
            0 => arrived.push(p),
            1 => bump(&mut cx.st.faults, "packet_lost", 1),
            2 => { bump(&mut cx.st.faults, "packet_duplicated", 1); arrived.push(p.clone()); if cx.src.chance(1, 2) { late.push(p) } else { arrived.push(p) } }
            3 => { bump(&mut cx.st.faults, "packet_delayed", 1); late.push(p) }
            4 => {
                bump(&mut cx.st.faults, "packet_damaged", 1);
                let mut p = p;
                let n = p.bytes.len();
                for _ in 0..cx.src.usize(1, 3) { let i = match cx.src.weighted(&[2, 1, 1]) { 0 => cx.src.usize(0, n - 1), 1 => cx.src.usize(0, n.min(8) - 1), _ => n - 1 - cx.src.usize(0, n.min(3) - 1) }; p.bytes[i] ^= 1 << cx.src.draw(8) }
                p.intact = false;
                arrived.push(p)
            }
            _ => {
                bump(&mut cx.st.faults, "packet_cut", 1);
                let mut p = p;
                let k = match cx.src.weighted(&[2, 1, 1]) { 0 => cx.src.usize(0, p.bytes.len() - 1), 1 => p.bytes.len() - 1, _ => cx.src.usize(0, p.bytes.len().min(20) - 1) };
                p.bytes.truncate(k);
                p.intact = false;
                p.cut = true;
                arrived.push(p)
            }
        }
    }
    // Packets that are not of these streams: unsupported, malformed, malicious.
    if cx.src.chance(1, 2) {
        let mut n = 0;
        for b in hostile::hostile_items(cx, &streams[0], 3) { late.push(Packet { body: Body::Alien, bytes: b, intact: false, cut: true }); n += 1 }
        for _ in 0..cx.src.usize(0, 2) {
            // A frame that leaves its bit depth or sample rate to the streaminfo.
            let s = &streams[cx.src.draw(n_streams as u64) as usize];
            let f = &s.frames[cx.src.draw(s.frames.len() as u64) as usize];
            let mut b = s.bytes[f.start..f.end].to_vec();
            if cx.src.chance(2, 3) { b[3] &= 0xf1 } else { b[3] = (b[3] & 0xf1) | 0x06 | (cx.src.draw(2) as u8) << 3 }
            fix_crcs(&mut b, f.header_len);
            late.push(Packet { body: Body::Alien, bytes: b, intact: false, cut: true });
            n += 1;
        }
        bump(&mut cx.st.faults, "packet_alien", n);
    }
    // Metadata packets that claim more than they hold, and lost all but their beginning.
    if cx.src.chance(1, 3) {
        for _ in 0..cx.src.usize(1, 3) {
            let t = cx.src.pick(&[1u8, 3, 5, 6, 2, 4, 7, 100, 126]);
            let len = match cx.src.weighted(&[3, 2, 2, 2]) {
                0 => cx.src.range(1, 40), 1 => cx.src.range(41, 70_000), 2 => cx.src.range(1 << 16, (1 << 24) - 1),
                _ => cx.src.pick(&[0xff_ffffu64, 1 << 23, 1 << 16, 0xffff, 10 << 20, (10 << 20) + 1]) } as u32;
            let held = match cx.src.weighted(&[4, 2, 2, 1]) { 0 => 0, 1 => cx.src.usize(0, 8), 2 => cx.src.usize(0, 3000), _ => len as usize - 1 }.min(len as usize - 1).min(70_000);
            let mut b = vec![t | (cx.src.draw(2) as u8) << 7, (len >> 16) as u8, (len >> 8) as u8, len as u8];
            let mut r = cx.src.sub();
            let zero = cx.src.chance(1, 2);
            b.extend((0..held).map(|_| if zero { 0 } else { r.next() as u8 }));
            late.push(Packet { body: Body::Claim(t, len), bytes: b, intact: false, cut: true });
            bump(&mut cx.st.faults, "packet_of_metadata_cut", 1);
        }
    }
    // Complete metadata packets whose content does not fit their type or declared length.
    if cx.src.chance(1, 3) {
        for _ in 0..cx.src.usize(1, 3) {
            let b = misfit(cx, &streams[0]);
            late.push(Packet { body: Body::Misfit, bytes: b, intact: false, cut: false });
            bump(&mut cx.st.faults, "packet_of_metadata_misfit", 1);
        }
    }
    for p in late { let i = cx.src.usize(0, arrived.len()); arrived.insert(i, p) }
    cx.note(|| format!("{} packets arrive", arrived.len()));
    let bufs = gen_bufs(&mut cx.src);
    let mut pool = BufPool::new(bufs, cx.src.sub());
    let feed = Arc::new(std::sync::Mutex::new(Cursor::new(Vec::new())));
    let mut long_lived = FrameReader::new(Feed(feed.clone()));
    // The container file: all packets in one seekable source.
    let mut file = Vec::new();
    let mut offs = Vec::new();
    for p in &arrived { offs.push(file.len()); file.extend_from_slice(&p.bytes) }
    let mut seekable = Cursor::new(&file[..]);
    let whole = cx.src.chance(1, 3);
    for (k, p) in arrived.iter().enumerate() {
        cx.st.nontrivial = true;
        let way = if p.cut { cx.src.weighted(&[2, 2]) } else { cx.src.weighted(&[2, 2, if whole { 6 } else { 2 }]) };
        match p.body {
            Body::Meta(i, j) => {
                let m = &streams[i].meta[j];
                let mut alone = Cursor::new(&p.bytes[..]);
                let (x, used) = if way == 2 {
                    seekable.set_position(offs[k] as u64);
                    (call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut seekable))?, seekable.position() as usize - offs[k])
                } else {
                    let by_type = way == 1 && p.bytes.len() >= 4 && p.intact;
                    if by_type { alone.set_position(4) }
                    let x = if by_type { call("read_metadata_block", || metadata::read_metadata_block(&mut alone, m.btype, (m.end - m.start - 4) as u32))? }
                        else { call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut alone))? };
                    (x, alone.position() as usize)
                };
                cx.log.ev(80, k as u64, x.is_ok() as u64, || format!("packet {}: metadata {:?}", k, x.as_ref().err()));
                if p.intact {
                    match x { Ok(ref b) => meta::same_block(b, &m.content)?, Err(e) => return fail("packet-refused", format!("intact metadata packet {}: {:?}", k, e)) }
                    ensure!(used == p.bytes.len(), "consumption", "metadata packet {} has {} bytes, {} were consumed", k, p.bytes.len(), used);
                    cx.count("metadata_packets_ok", 1);
                } else if p.cut {
                    ensure!(x.is_err(), "cut-accepted", "metadata packet {} was cut to {} of {} bytes and accepted", k, p.bytes.len(), m.end - m.start);
                }
            }
            Body::Claim(t, len) => {
                let x = match cx.src.draw(4) {
                    0 => { let mut c = Cursor::new(&p.bytes[4..]); call("read_metadata_block", || metadata::read_metadata_block(&mut c, t, len))? }
                    1 => { let mut c = Cursor::new(p.bytes.clone()); call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut c).map(|h| h))? }
                    2 => { let mut c = Cursor::new(&p.bytes[..]); let mut it = MetadataBlockReader::new(&mut c); match call("MetadataBlockReader::next", || it.next())? { Some(x) => x, None => return fail("cut-hidden", format!("packet {}: no block", k)) } }
                    _ => { let (mut br, _) = buffered(&p.bytes, Chunks::Full, vec![], &cx.log); call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut br))? }
                };
                cx.log.ev(82, k as u64, x.is_ok() as u64, || format!("packet {}: metadata of type {} claiming {} bytes, {} there: {:?}", k, t, len, p.bytes.len() - 4, x.as_ref().err()));
                ensure!(x.is_err(), "cut-accepted", "metadata packet {} (type {}) claims {} bytes, holds {}, and was accepted", k, t, len, p.bytes.len() - 4);
                cx.count("cut_metadata_packets", 1);
            }
            Body::Misfit => {
                let (t, len) = (p.bytes[0] & 0x7f, p.bytes.len() - 4);
                let (x, used) = match cx.src.draw(5) {
                    0 => { let mut c = Cursor::new(&p.bytes[4..]); let x = call("read_metadata_block", || metadata::read_metadata_block(&mut c, t, len as u32))?; (x, c.position() as usize + 4) }
                    1 => { let mut c = Cursor::new(p.bytes.clone()); let x = call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut c))?; (x, c.position() as usize) }
                    2 => {
                        let mut c = Cursor::new(&p.bytes[..]);
                        let x = { let mut it = MetadataBlockReader::new(&mut c); match call("MetadataBlockReader::next", || it.next())? { Some(x) => x, None => return fail("packet-hidden", format!("packet {}: no block", k)) } };
                        (x, c.position() as usize)
                    }
                    3 => { seekable.set_position(offs[k] as u64); let x = call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut seekable))?; (x, seekable.position() as usize - offs[k]) }
                    _ => {
                        *feed.lock().unwrap() = Cursor::new(p.bytes.clone());
                        let mut f = Feed(feed.clone());
                        let x = call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut f))?;
                        let u = feed.lock().unwrap().position() as usize;
                        (x, u)
                    }
                };
                let want = parse_block(&p.bytes, 0);
                cx.log.ev(83, k as u64, x.is_ok() as u64, || format!("packet {}: metadata of type {} and {} bytes, {:?}: {:?}", k, t, len, want.as_ref().err(), x.as_ref().err()));
                match (x, want) {
                    (Ok(ref b), Ok(ref m)) => {
                        meta::same_block(b, &m.content)?;
                        ensure!(used == p.bytes.len(), "consumption", "metadata packet {} has {} bytes, {} were consumed", k, p.bytes.len(), used);
                        cx.count("misfit_packets_that_fit", 1);
                    }
                    (Err(_), Err(_)) => cx.count("misfit_packets", 1),
                    (Ok(_), Err(w)) => return fail("misfit-accepted", format!("metadata packet {} (type {}, {} bytes) is invalid ({:?}) and was accepted, {} bytes consumed", k, t, len, w, used)),
                    (Err(e), Ok(_)) => return fail("packet-refused", format!("metadata packet {} (type {}, {} bytes) is valid: {:?}", k, t, len, e)),
                }
            }
            Body::Alien => {
                let buf = pool.get();
                let x = if way == 0 {
                    let mut fr = FrameReader::new(Cursor::new(&p.bytes[..]));
                    next_block(cx, &mut fr, buf)?
                } else {
                    *feed.lock().unwrap() = Cursor::new(p.bytes.clone());
                    next_block(cx, &mut long_lived, buf)?
                };
                // Whatever it is: it must be what this packet alone gives.
                let mut fr = FrameReader::new(Cursor::new(&p.bytes[..]));
                let y = call("read_next_or_eof", || fr.read_next_or_eof(Vec::new()))?;
                let (ox, oy) = (match x { Ok(Some(ref b)) => Ok(Some(observe(b)?)), Ok(None) => Ok(None), Err(ref e) => Err(eobs(e)) },
                    match y { Ok(Some(ref b)) => Ok(Some(observe(b)?)), Ok(None) => Ok(None), Err(ref e) => Err(eobs(e)) });
                ensure!(ox == oy, "history-dependent", "packet {} alone gives {}, in its place {}", k, brief_res(&oy), brief_res(&ox));
                if let Ok(Some(b)) = x { pool.put(b.into_buffer()) }
                cx.count("alien_packets", 1);
            }
            Body::Frame(i, j) => {
                let f = &streams[i].frames[j];
                let buf = pool.get();
                let (x, used) = match way {
                    0 => {
                        let mut fr = FrameReader::new(Cursor::new(&p.bytes[..]));
                        let x = next_block(cx, &mut fr, buf)?;
                        (x, fr.into_inner().position() as usize)
                    }
                    1 => {
                        *feed.lock().unwrap() = Cursor::new(p.bytes.clone());
                        let x = next_block(cx, &mut long_lived, buf)?;
                        let u = feed.lock().unwrap().position() as usize;
                        (x, u)
                    }
                    _ => {
                        seekable.set_position(offs[k] as u64);
                        let x = { let mut fr = FrameReader::new(&mut seekable); next_block(cx, &mut fr, buf)? };
                        (x, (seekable.position() as usize) - offs[k])
                    }
                };
                if p.intact {
                    match x {
                        Ok(Some(b)) => {
                            let o = observe(&b)?;
                            if o.bs != f.bs || o.ch != f.ch || o.data != f.data { return fail("wrong-block", format!("intact packet {} (frame {} of stream {}) decoded to {}", k, j, i, o.brief())) }
                            if streams[i].variable { ensure!(o.time == f.time, "wrong-time", "packet {}: time {}, stored {}", k, o.time, f.time) }
                            pool.put(b.into_buffer());
                        }
                        x => return fail("packet-refused", format!("intact packet {} (frame {} of stream {}): {:?}", k, j, i, x.map(|_| "end"))),
                    }
                    ensure!(used == p.bytes.len(), "consumption", "packet {} has {} bytes, {} were consumed", k, p.bytes.len(), used);
                    cx.count("frame_packets_ok", 1);
                } else {
                    let want = if way == 2 { decode_frame(&file, offs[k]) } else { decode_frame(&p.bytes, 0) };
                    match x {
                        Ok(Some(b)) => {
                            let o = observe(&b)?;
                            pool.put(b.into_buffer());
                            match want {
                                MRes::Frame(ref m) => ensure!(same_model(&o, m), "wrong-block", "packet {}: {}", k, o.brief()),
                                MRes::Bad(Why::Structure) | MRes::Bad(Why::Unsupported) if checksummed(if way == 2 { &file[offs[k]..] } else { &p.bytes }, 0)? => {}
                                _ => return fail("damaged-delivered", format!("packet {} was {}, but {} was delivered", k, if p.cut { "cut" } else { "damaged" }, o.brief())),
                            }
                        }
                        Ok(None) => ensure!(matches!(want, MRes::Eof), "damage-hidden", "packet {} was {} ({} bytes left), but the end was reported", k, if p.cut { "cut" } else { "damaged" }, p.bytes.len()),
                        Err(_) => {}
                    }
                    cx.count("frame_packets_bad", 1);
                }
            }
        }
    }
    Ok(())
}

fn brief_res(x: &Result<Option<BObs>, EObs>) -> String {
    match *x { Ok(Some(ref b)) => b.brief(), ref o => format!("{:?}", o) }
}
