use super::*;
use crate::model::{parse_block, parse_open, Why};
use claxon::metadata::{StreamInfo, VorbisComment};

pub fn same_si(got: &StreamInfo, si: &Si) -> Res<()> {
    let opt = |x: u32| if x == 0 { None } else { Some(x) };
    let want = StreamInfo {
        min_block_size: si.min_bs, max_block_size: si.max_bs,
        min_frame_size: opt(si.min_fs), max_frame_size: opt(si.max_fs),
        sample_rate: si.rate, channels: si.ch, bits_per_sample: si.bps,
        samples: if si.samples == 0 { None } else { Some(si.samples) }, md5sum: si.md5,
    };
    ensure!(*got == want, "wrong-streaminfo", "reported {:?}, stored {:?}", got, want);
    Ok(())
}

fn short(s: &str) -> String { s.chars().take(60).collect() }

fn same_vorbis(got: &VorbisComment, vendor: &str, comments: &[&String]) -> Res<()> {
    ensure!(got.vendor == vendor, "wrong-vendor", "vendor {:?}, stored {:?}", short(&got.vendor), short(vendor));
    ensure!(got.comments.len() == comments.len(), "wrong-tags", "{} comments, stored {}", got.comments.len(), comments.len());
    for (g, c) in got.comments.iter().zip(comments) {
        ensure!(g.0 == **c && Some(g.1) == c.find('='), "wrong-tags", "comment {:?} at {}, stored {:?}", short(&g.0), g.1, short(c));
    }
    Ok(())
}

pub fn same_block(got: &MetadataBlock, want: &Content) -> Res<()> {
    let name = |b: &MetadataBlock| match *b {
        MetadataBlock::StreamInfo(..) => "streaminfo", MetadataBlock::Padding { .. } => "padding", MetadataBlock::Application { .. } => "application",
        MetadataBlock::SeekTable(..) => "seek table", MetadataBlock::VorbisComment(..) => "vorbis comment", MetadataBlock::CueSheet => "cue sheet",
        MetadataBlock::Picture => "picture", MetadataBlock::Reserved => "reserved",
    };
    match (got, want) {
        (&MetadataBlock::StreamInfo(ref a), &Content::StreamInfo(ref b)) => same_si(a, b),
        (&MetadataBlock::Padding { length }, &Content::Padding(n)) => { ensure!(length == n, "wrong-block", "padding of {}, stored {}", length, n); Ok(()) }
        // A later version may report these block types as what they are.
        (&MetadataBlock::SeekTable(..), &Content::Padding(_)) | (&MetadataBlock::CueSheet, &Content::Padding(_)) | (&MetadataBlock::Picture, &Content::Padding(_)) => Ok(()),
        (&MetadataBlock::Application { id, ref data }, &Content::App { id: i, data: ref d }) => {
            ensure!(id == i, "wrong-block", "application id {:08x}, stored {:08x}", id, i);
            ensure!(data == d, "wrong-block", "application payload of {} bytes differs from the stored {} bytes", data.len(), d.len());
            Ok(())
        }
        (&MetadataBlock::VorbisComment(ref v), &Content::Vorbis { ref vendor, ref comments }) => {
            let c: Vec<&String> = comments.iter().filter(|c| !c.is_empty()).collect();
            same_vorbis(v, vendor, &c)
        }
        (&MetadataBlock::Reserved, &Content::Reserved) => Ok(()),
        (g, w) => fail("wrong-block", format!("{} reported for {}", name(g), format!("{:?}", w).chars().take(40).collect::<String>())),
    }
}

/// The reader must report exactly this streaminfo and these tags.
pub fn same_open<R: std::io::Read>(cx: &mut Cx, fr: &FlacReader<R>, si: &Si, vorbis: Option<(&String, Vec<&String>)>) -> Res<()> {
    let needle_seed = cx.src.sub();
    let r = lib(|| -> Res<()> {
        let mut nr = needle_seed;
        same_si(&fr.streaminfo(), si)?;
        let (vendor, comments) = match vorbis { Some((v, c)) => (Some(&v[..]), c), None => (None, vec![]) };
        ensure!(fr.vendor() == vendor, "wrong-vendor", "vendor {:?}, stored {:?}", fr.vendor().map(short), vendor.map(short));
        let split: Vec<(&str, &str)> = comments.iter().map(|c| { let i = c.find('=').unwrap(); (&c[..i], &c[i + 1..]) }).collect();
        {
            let mut t = fr.tags();
            for (i, w) in split.iter().enumerate() {
                ensure!(t.len() == split.len() - i, "wrong-tags", "tags() claims {} more, {} are left", t.len(), split.len() - i);
                let g = t.next();
                ensure!(g == Some(*w), "wrong-tags", "tag {}: {:?}, stored {:?}", i, g.map(|g| (short(g.0), short(g.1))), (short(w.0), short(w.1)));
            }
            ensure!(t.next().is_none(), "wrong-tags", "more tags than stored");
        }
        let stop = nr.below(split.len() as u64 + 1) as usize;
        for stop in [stop, split.len()] {
            walk(&mut nr, "tags()", fr.tags(), split.len(), stop, |i, g| { ensure!(g == split[i], "wrong-tags", "tag {}: {:?}, stored {:?}", i, short(g.1), short(split[i].1)); Ok(()) })?;
        }
        let mut needles: Vec<String> = split.iter().map(|t| t.0.to_string()).collect();
        for i in 0..split.len() {
            needles.push(split[i].0.to_ascii_lowercase());
            needles.push(split[i].0.chars().map(|c| if nr.below(2) == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect());
            needles.push(split[i].0[..split[i].0.len() / 2].to_string());
            needles.push(format!("{}=", split[i].0));
            // Other characters that Unicode case folding takes for these.
            let f: String = split[i].0.to_lowercase().replace("ss", "\u{df}").replace("fi", "\u{fb01}")
                .chars().map(|c| match c { 's' => '\u{17f}', 'k' => '\u{212a}', 'i' => '\u{131}', 'a' => '\u{ff41}', c => c }).collect();
            if !f.is_ascii() { needles.push(f) }
        }
        needles.extend(["artist".to_string(), "nope".to_string(), "".to_string(), "ÄRTIST".to_string(), "{".to_string()]);
        while needles.len() > 24 { let i = nr.below(needles.len() as u64) as usize; needles.swap_remove(i); }
        for n in &needles {
            let want: Vec<&str> = split.iter().filter(|t| t.0.eq_ignore_ascii_case(n)).map(|t| t.1).collect();
            let got: Vec<&str> = fr.get_tag(n).collect();
            ensure!(got == want, "wrong-tag-lookup", "get_tag({:?}) gave {} values, stored {}", n, got.len(), want.len());
            walk(&mut nr, "get_tag()", fr.get_tag(n), want.len(), want.len(), |i, g| { ensure!(g == want[i], "wrong-tag-lookup", "get_tag({:?}): value {} differs", n, i); Ok(()) })?;
        }
        Ok(())
    });
    no_panic("streaminfo/vendor/tags/get_tag", r)?
}

pub fn c11(cx: &mut Cx) -> Res<()> {
    let s = stream(cx, StreamOpts { size: Some(Size::Tiny), meta: MetaLevel::Rich, ..StreamOpts::default() });
    let rvc = cx.src.chance(1, 2);
    let needed = if !rvc { s.meta[0].end } else { s.vorbis_end().unwrap_or(s.audio) };
    let mut bounds = s.boundaries();
    bounds.push(needed);
    bounds.sort();
    let mut bytes = s.bytes.clone();
    let mut faults = vec![];
    // What follows the last desired block.
    match cx.src.weighted(&[2, 2, 3, 2, 2, 1, 1]) {
        0 => {}
        1 => { bytes.truncate(needed); cx.count("truncated_after", 1) }
        2 => { let mut r = cx.src.sub(); for b in bytes[needed..].iter_mut() { *b = r.next() as u8 } cx.count("garbage_after", 1) }
        3 => faults.push(Fault { at: needed as u64, kind: FaultKind::Err(gen_err(&mut cx.src)), count: FOREVER }),
        4 => {
            // Behind a few more bytes, so that the buffer holds the beginning of what follows.
            let at = (needed + cx.src.usize(0, 60)).min(bytes.len());
            faults.push(Fault { at: at as u64, kind: FaultKind::Err(gen_err(&mut cx.src)), count: FOREVER });
        }
        5 => faults.push(Fault { at: needed as u64, kind: FaultKind::Panic, count: FOREVER }),
        _ => { bytes.truncate(needed); let k = cx.src.usize(0, 40); let mut r = cx.src.sub(); for _ in 0..k { bytes.push(r.next() as u8) } cx.count("garbage_after", 1) }
    }
    if cx.src.chance(1, 3) { let at = gen_offset(&mut cx.src, &bounds, 0, needed); faults.push(Fault { at: at as u64, kind: FaultKind::Stall(1_000_000_000), count: 1 }) }
    let chunks = gen_chunks(&mut cx.src, &bounds);
    cx.note(|| format!("metadata only, read_vorbis_comment {}, desired blocks end at {}, faults {:?}, delivery {:?}", rvc, needed, faults, chunks));
    let r = SimReader::bytes(&bytes, chunks, faults, &cx.log);
    let obs = r.obs.clone();
    let m = Meter::new(&obs);
    let x = lib(move || FlacReader::new_ext(r, options(true, rvc)));
    let rec = m.done();
    account(cx, &obs);
    let x = match x {
        Err(Pan::Sim) => return fail("read-too-far", "the reader was asked for bytes after the last desired block (and panicked)"),
        x => no_panic("FlacReader::new_ext", x)?,
    };
    cx.log.ev(50, x.is_ok() as u64, 0, || match x { Ok(_) => "open -> ok".into(), Err(ref e) => format!("open -> {:?}", e) });
    cx.st.nontrivial = true;
    cx.count(if !rvc { "streaminfo_only" } else if s.vorbis().is_some() { "with_tags" } else { "tags_absent" }, 1);
    let fr = match x {
        Ok(f) => f,
        Err(e) => return fail("open-failed", format!("the desired blocks are complete at byte {} but opening failed: {:?}", needed, e)),
    };
    ensure!(rec.last_call.map_or(true, |p| p < needed as u64), "read-too-far",
        "a read call was made at byte {:?}; the desired blocks end at {}", rec.last_call, needed);
    same_open(cx, &fr, &s.si, if rvc { s.vorbis() } else { None })?;
    let m = Meter::new(&obs);
    let mut fr = fr;
    let audio = match cx.src.weighted(&[4, 1, 1, 1]) {
        0 => { let back = call("into_inner", || fr.into_inner())?; drop(back); None }
        // It is not positioned at a frame: there must be no way to get at samples.
        1 => Some(lib(|| fr.blocks().read_next_or_eof(Vec::new()).map(|_| ()))),
        2 => Some(lib(|| fr.samples().next().map_or(Ok(()), |x| x.map(|_| ())))),
        _ => Some(lib(move || fr.into_samples().next().map_or(Ok(()), |x| x.map(|_| ())))),
    };
    let rec = m.done();
    ensure!(rec.calls == 0, "read-too-far", "{} made {} read calls on a metadata-only reader", if audio.is_some() { "asking for audio" } else { "into_inner" }, rec.calls);
    match audio {
        None => {}
        Some(Err(Pan::Lib(m))) => { cx.log.ev(57, 0, 0, || format!("asking for audio: panic {}", m)); cx.count("audio_refused", 1) }
        Some(x) => return fail("audio-from-metadata-reader", format!("asking a metadata-only reader for audio gave {:?}", x)),
    }
    Ok(())
}

pub fn c12(cx: &mut Cx) -> Res<()> {
    let s = stream(cx, StreamOpts { size: Some(Size::Tiny), meta: MetaLevel::Rich, ..StreamOpts::default() });
    cx.st.nontrivial = true;
    match cx.src.weighted(&[3000, 3000, 2000, 5000, 25]) {
        0 => c12_reader(cx, &s),
        1 => c12_blocks(cx, &s),
        2 => c12_packets(cx, &s),
        4 => classify::full_block(cx, &s),
        _ => c12_damaged(cx, &s, false),
    }
}

fn c12_reader(cx: &mut Cx, s: &Stream) -> Res<()> {
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    let r = SimReader::bytes(&s.bytes, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let rvc = !cx.src.chance(1, 4);
    let mut fr = match open(cx, r, options(false, rvc))? {
        Ok(f) => f,
        Err(e) => return fail("refused", format!("opening a well-formed stream failed: {:?}", e)),
    };
    same_open(cx, &fr, &s.si, if rvc { s.vorbis() } else { None })?;
    // What follows is read in alignment.
    let mut it = fr.blocks();
    match next_block(cx, &mut it, Vec::new())? {
        Ok(Some(b)) => { ensure!(!s.frames.is_empty(), "misaligned", "audio found in a stream without any"); same_audio(0, &observe(&b)?, &s.frames[0])? }
        Ok(None) => ensure!(s.frames.is_empty(), "misaligned", "no audio found after the metadata"),
        Err(e) => return fail("misaligned", format!("the first frame after the metadata: {:?}", e)),
    }
    drop(it);
    same_open(cx, &fr, &s.si, if rvc { s.vorbis() } else { None })?;
    account(cx, &obs);
    Ok(())
}

fn c12_blocks(cx: &mut Cx, s: &Stream) -> Res<()> {
    let chunks = gen_chunks(&mut cx.src, &s.boundaries());
    let (mut br, obs) = buffered(&s.bytes, chunks, vec![], &cx.log);
    let h = call("read_be_u32", || br.read_be_u32())?;
    ensure!(matches!(h, Ok(0x664c_6143)), "wrong-bytes", "header read as {:?}", h.ok());
    if cx.src.chance(1, 3) {
        let mut r = cx.src.sub();
        let n = s.meta.len();
        no_panic("MetadataBlockReader", lib(|| walk(&mut r, "MetadataBlockReader", MetadataBlockReader::new(&mut br), n, n, |i, b| match b {
            Ok(ref b) => same_block(b, &s.meta[i].content),
            Err(e) => fail("refused", format!("metadata block {}: {:?}", i, e)),
        })))??;
        cx.log.ev(58, n as u64, 0, || format!("{} metadata blocks taken in several ways", n));
    } else {
        let mut it = MetadataBlockReader::new(&mut br);
        for (i, m) in s.meta.iter().enumerate() {
            let (h, left) = (it.size_hint(), s.meta.len() - i);
            ensure!(h.0 <= left && h.1.map_or(true, |h| h >= left), "size-hint", "size_hint {:?} with {} blocks left", h, left);
            match call("MetadataBlockReader::next", || it.next())? {
                Some(Ok(ref b)) => same_block(b, &m.content)?,
                Some(Err(e)) => return fail("refused", format!("metadata block {} of type {}: {:?}", i, m.btype, e)),
                None => return fail("missing-metadata", format!("block {} of {} was not reported", i, s.meta.len())),
            }
            cx.log.ev(56, i as u64, m.end as u64, || format!("metadata block {} ok", i));
        }
        ensure!(call("next", || it.next())?.is_none(), "extra-metadata", "a block after the last one");
    }
    let n = (s.bytes.len() - s.audio).min(8);
    let mut tail = vec![0u8; n];
    let x = call("read_into", || br.read_into(&mut tail))?;
    ensure!(x.is_ok() && tail == s.bytes[s.audio..s.audio + n], "misaligned", "after the metadata: {:?} {:?}, stored {:?}", x, tail, &s.bytes[s.audio..s.audio + n]);
    account(cx, &obs);
    Ok(())
}

fn c12_packets(cx: &mut Cx, s: &Stream) -> Res<()> {
    for (i, m) in s.meta.iter().enumerate() {
        let tail = cx.src.usize(0, 3);
        let mut p = s.bytes[m.start..m.end].to_vec();
        for _ in 0..tail { p.push(0xff) }
        let with_header = cx.src.chance(1, 2);
        let mut c = Cursor::new(&p[..]);
        let x = if with_header {
            call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut c))?
        } else {
            c.set_position(4);
            call("read_metadata_block", || metadata::read_metadata_block(&mut c, m.btype, (m.end - m.start - 4) as u32))?
        };
        match x {
            Ok(ref b) => same_block(b, &m.content)?,
            Err(e) => return fail("refused", format!("metadata packet {} of type {}: {:?}", i, m.btype, e)),
        }
        ensure!(c.position() == (m.end - m.start) as u64, "misaligned", "a metadata block of {} bytes was consumed to {}", m.end - m.start, c.position());
        cx.log.ev(57, i as u64, p.len() as u64, || format!("metadata packet {} ok", i));
    }
    Ok(())
}

/// Is this the class of error for that reason? The end of the stream inside a
/// malformed block may be noticed before or after what is malformed.
pub fn same_class(e: &Error, w: Why) -> Res<()> {
    let good = match w {
        Why::Eof => true,
        Why::Unsupported => matches!(*e, Error::Unsupported(_)),
        _ => matches!(*e, Error::FormatError(_)),
    };
    ensure!(good || is_eof(e), "wrong-class", "what is {} was reported as {:?}", match w { Why::Unsupported => "not supported", _ => "malformed" }, e);
    Ok(())
}

fn set24(b: &mut [u8], at: usize, v: usize) { b[at] = (v >> 16) as u8; b[at + 1] = (v >> 8) as u8; b[at + 2] = v as u8 }
fn add32(b: &mut [u8], at: usize, d: i64) {
    if at + 4 > b.len() { return }
    let v = u32::from_le_bytes(b[at..at + 4].try_into().unwrap()).wrapping_add(d as u32);
    b[at..at + 4].copy_from_slice(&v.to_le_bytes());
}

/// Rearranged, contradictory or damaged metadata: accepted exactly if the
/// reference parser accepts it, with the same values.
/// With `classes` there is one alteration, and the class of the error counts.
pub fn c12_damaged(cx: &mut Cx, s: &Stream, classes: bool) -> Res<()> {
    // Blocks as bodies, so that they can be rearranged.
    let mut blocks: Vec<(u8, Vec<u8>)> = s.meta.iter().map(|m| (m.btype, s.bytes[m.start + 4..m.end].to_vec())).collect();
    if !blocks.iter().any(|b| b.0 == 4) && cx.src.chance(2, 3) {
        let (v, c) = { let Cx { ref mut src, ref mut st, .. } = *cx; gen_vorbis(src, true, &mut |k| bump(&mut st.counts, k, 1)) };
        let raw: Vec<Vec<u8>> = c.into_iter().map(|c| c.into_bytes()).collect();
        blocks.push((4, encode_vorbis(v.as_bytes(), &raw)));
    }
    let mut magic = *b"fLaC";
    let mut lens: Vec<i64> = vec![0; 40];
    let mut last_at = None;
    let mut truncate = None;
    for _ in 0..if classes { 1 } else { cx.src.usize(1, 2) } {
        let k = blocks.len() as u64;
        let vc = blocks.iter().position(|b| b.0 == 4);
        match cx.src.weighted(&[2, 2, 2, 2, 4, 4, 1, 1, 1, 2, 1]) {
            0 => { cx.count("second_streaminfo", 1); let b = blocks[0].clone(); let at = cx.src.usize(0, blocks.len()); blocks.insert(at, b) }
            1 => if let Some(i) = vc { cx.count("second_vorbis", 1); let b = blocks[i].clone(); let at = cx.src.usize(1, blocks.len()); blocks.insert(at, b) },
            2 => { cx.count("streaminfo_moved", 1); let b = blocks.remove(0); if !cx.src.chance(1, 2) && !blocks.is_empty() { let at = cx.src.usize(0, blocks.len()); blocks.insert(at, b) } if blocks.is_empty() { blocks.push((1, vec![0; 5])) } }
            3 => {
                cx.count("length_field", 1);
                let i = cx.src.draw(k.min(40)) as usize;
                lens[i] = [1i64, -1, 4, -4, 2000, -8, 33, 100_000][cx.src.draw(8) as usize];
            }
            4 => {
                cx.count("streaminfo_fields", 1);
                let r = &mut cx.src;
                if let Some(b) = blocks.iter_mut().find(|b| b.0 == 0 && b.1.len() == 34) {
                    let b = &mut b.1;
                    match r.weighted(&[1, 1, 1, 1, 1, 1]) {
                        0 => { let v = r.range(0, 17) as u16; b[0..2].copy_from_slice(&v.to_be_bytes()) }
                        1 => { let v = r.range(14, 5000) as u16; b[2..4].copy_from_slice(&v.to_be_bytes()) }
                        2 => { let v = r.range(0, 3) as usize; set24(b, 4, v * 700) }
                        3 => { let v = r.range(0, 3) as usize; set24(b, 7, v * 700) }
                        4 => { let v = r.pick(&[0u32, 655_350, 655_351, 655_349, 1, 1_048_575]); b[10] = (v >> 12) as u8; b[11] = (v >> 4) as u8; b[12] = (b[12] & 15) | ((v << 4) as u8) }
                        _ => { let i = r.usize(0, 33); b[i] ^= 1 << r.draw(8) }
                    }
                }
            }
            5 => if let Some(i) = vc {
                cx.count("vorbis_lengths", 1);
                let r = &mut cx.src;
                let b = &mut blocks[i].1;
                let vl = if b.len() >= 4 { u32::from_le_bytes(b[..4].try_into().unwrap()) as usize } else { 0 };
                let d = r.pick(&[1i64, -1, 2, 4, -4, 8, 255, 65536, 0x7fff_ffff, 0xffff_fff0]);
                match r.weighted(&[2, 3, 3, 2, 2, 2, 1]) {
                    6 => {
                        // Room for far more entries than there are, in a long vendor string.
                        let d = if r.chance(1, 8) { 65536i64 } else { r.pick(&[256i64, 512, 1, 128]) };
                        if b.len() >= 8 && vl <= b.len() - 8 {
                            let rest = b.split_off(4 + vl);
                            b.truncate(4);
                            b.resize(4 + d as usize * 4 + 64 + vl, b'v');
                            let n = b.len() as u32 - 4;
                            b[..4].copy_from_slice(&n.to_le_bytes());
                            b.extend_from_slice(&rest);
                            add32(b, 4 + n as usize, d);
                        }
                    }
                    0 => add32(b, 0, d),
                    1 => add32(b, 4usize.saturating_add(vl), d),
                    2 => {
                        // One of the comment lengths.
                        let mut p = vl.saturating_add(8);
                        let mut at = Vec::new();
                        while p + 4 <= b.len() { at.push(p); p = p.saturating_add(4 + u32::from_le_bytes(b[p..p + 4].try_into().unwrap()) as usize) }
                        if !at.is_empty() { let p = at[r.draw(at.len() as u64) as usize]; add32(b, p, d) }
                    }
                    3 => { let n = r.usize(1, 5); for _ in 0..n { b.push(r.draw(256) as u8) } }
                    4 => { let n = r.usize(1, 6).min(b.len()); let l = b.len() - n; b.truncate(l) }
                    _ => if !b.is_empty() { let i = r.usize(0, b.len() - 1); b[i] = r.pick(&[b'=', 0xff, 0x1f, 0x7e, 0x7d, 0x20, 0x80, 0, 0xc0]) },
                }
            },
            6 => { cx.count("block_type", 1); let i = cx.src.draw(k) as usize; blocks[i].0 = cx.src.pick(&[127u8, 0, 4, 2, 1, 7, 126, 6]) }
            7 => last_at = Some(cx.src.draw(k) as usize),
            8 => { cx.count("bad_magic", 1); let v = cx.src.draw(3); match v { 0 => magic = [b'I', b'D', b'3', 4], 1 => magic[3] ^= 32, _ => { let i = cx.src.draw(4) as usize; magic[i] ^= 1 << cx.src.draw(8) } } }
            9 => { cx.count("short_block", 1); let i = cx.src.draw(k) as usize; let n = cx.src.usize(0, 9).min(blocks[i].1.len()); blocks[i].1.truncate(n) }
            _ => truncate = Some(cx.src.sub()),
        }
    }
    let mut out = magic.to_vec();
    let k = blocks.len();
    for (i, (t, body)) in blocks.iter().enumerate() {
        let start = out.len();
        put_block(&mut out, *t, last_at.map_or(i + 1 == k, |l| l == i), body);
        if i < lens.len() && lens[i] != 0 { let v = (body.len() as i64 + lens[i]).max(0) as usize; set24(&mut out, start + 1, v & 0xff_ffff) }
    }
    out.extend_from_slice(&s.bytes[s.audio..]);
    if let Some(mut r) = truncate { let n = r.below(out.len() as u64 + 1) as usize; out.truncate(n) }
    // Block by block, from memory.
    if cx.src.chance(1, 3) {
        let mut at = 4;
        for _ in 0..12 {
            let want = parse_block(&out, at);
            let mut c = Cursor::new(&out[..]);
            c.set_position(at as u64);
            let got = call("read_metadata_block_with_header", || metadata::read_metadata_block_with_header(&mut c))?;
            cx.log.ev(58, got.is_ok() as u64, at as u64, || format!("block at {}: {:?}", at, got.as_ref().err()));
            match (got, want) {
                (Ok(ref g), Ok(ref w)) => {
                    same_block(g, &w.content)?;
                    ensure!(c.position() == w.end as u64, "misaligned", "the block at {} was consumed to {}, it ends at {}", at, c.position(), w.end);
                    at = w.end;
                    if w.last { break }
                }
                (Err(ref e), Err(w)) => { if classes { same_class(e, w)? } break }
                (Ok(_), Err(w)) => return fail("accepted", format!("a metadata block at {} that breaks the format ({:?}) was accepted", at, w)),
                (Err(e), Ok(_)) => return fail("refused", format!("a well-formed metadata block at {} was refused: {:?}", at, e)),
            }
        }
        return Ok(());
    }
    let want = parse_open(&out);
    cx.count(match want { Ok(_) => "damage_still_valid", Err(Why::Eof) => "damage_cut", Err(_) => "damage_refused" }, 1);
    let mut bounds: Vec<usize> = vec![4, 42];
    if let Ok(ref w) = want { for b in &w.blocks { bounds.push(b.end) } }
    bounds.sort();
    let chunks = gen_chunks(&mut cx.src, &bounds);
    let r = SimReader::bytes(&out, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let got = open(cx, r, FlacReaderOptions::default())?;
    account(cx, &obs);
    match (got, want) {
        (Ok(ref mut f), Ok(ref w)) => {
            same_open(cx, f, &w.si, w.vorbis.as_ref().map(|v| (&v.0, v.1.iter().collect())))?;
            let x = { let mut it = f.blocks(); next_block(cx, &mut it, Vec::new())? };
            match (crate::model::decode_frame(&out, w.audio), x) {
                (crate::model::MRes::Frame(m), Ok(Some(b))) => { let o = observe(&b)?; ensure!(o.bs == m.bs && o.ch == m.ch && (m.odd || o.data == m.data), "misaligned", "the first block differs") }
                (crate::model::MRes::Frame(_), x) => return fail("misaligned", format!("the first frame: {:?}", x.map(|_| ()))),
                (crate::model::MRes::Eof, Ok(None)) => {}
                (crate::model::MRes::Eof, x) => return fail("misaligned", format!("no audio follows, but {:?}", x.map(|_| ()))),
                (crate::model::MRes::Bad(_), Ok(Some(_))) => return fail("misaligned", "a block where no frame is"),
                _ => {}
            }
            Ok(())
        }
        (Err(ref e), Err(w)) => if classes { same_class(e, w) } else { Ok(()) },
        (Ok(_), Err(w)) => fail("accepted", format!("a stream whose metadata breaks the format ({:?}) was opened", w)),
        (Err(e), Ok(_)) => fail("refused", format!("a stream with well-formed metadata was refused: {:?}", e)),
    }
}
