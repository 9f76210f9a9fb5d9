//! Opening by path, over the simulated file system.

use super::meta::same_open;
use super::*;
use crate::simfs::{self, Fs, EINTR};
use std::fs::File;
use std::os::unix::ffi::OsStrExt;

/// ENOENT, EACCES, EMFILE, ENFILE, EISDIR, ELOOP, EIO, ENXIO, ENOTDIR, EPERM, ENOMEM, ETIMEDOUT, ENAMETOOLONG.
const OPEN_ERRNO: [i32; 13] = [2, 13, 24, 23, 21, 40, 5, 6, 20, 1, 12, 110, 36];
/// EIO, EAGAIN, EBADF, EISDIR, ESTALE, ETIMEDOUT, ENOMEM, EINVAL, ENOTCONN.
const READ_ERRNO: [i32; 9] = [5, 11, 9, 21, 116, 110, 12, 22, 107];

pub fn c20(cx: &mut Cx) -> Res<()> {
    let kind = cx.src.weighted(&[10, 2, 2]);
    let r = match kind {
        0 => one_file(cx),
        1 => bad_open(cx),
        _ => many(cx),
    };
    let left = simfs::take();
    r?;
    if let Some(f) = left { ensure!(f.wrong.is_empty(), "descriptor", "{}", f.wrong[0]) }
    Ok(())
}

/// The names of files, and others that a helpful program might take them for.
const NAMES: [&[u8]; 14] = [b"a.flac", b"a", b"A.FLAC", b"a.fla", b"a.bak", b"a.flac.bak", b"dir/a.flac", b"a ", b"a.ogg", b".flac",
    b"\xc3\xa4.flac", b"a\xff.flac", b"track.01", b"~a.flac"];

fn path(name: &[u8]) -> Vec<u8> { let mut v = b"/sim-fs/".to_vec(); v.extend_from_slice(name); v }

/// A name, with some of its neighbours present.
fn gen_path(cx: &mut Cx, fs: &mut Fs, neighbours: &[u8]) -> Vec<u8> {
    let name = cx.src.pick(&NAMES);
    let p = path(name);
    if cx.src.chance(1, 2) {
        let mut near: Vec<Vec<u8>> = NAMES.iter().map(|n| path(n)).collect();
        near.push([&p[..], b".flac"].concat());
        near.push([&p[..], b".fla"].concat());
        near.push(p.to_ascii_lowercase());
        near.push(p.to_ascii_uppercase());
        if let Some(i) = name.iter().rposition(|&c| c == b'.') { near.push([&p[..8 + i], b".flac"].concat()) }
        if let Some(i) = name.iter().rposition(|&c| c == b'/') { near.push(path(&name[i + 1..])) }
        for n in near { if n != p { fs.files.insert(n, neighbours.to_vec()); } }
        cx.count("with_neighbours", 1);
    }
    fs.asked = vec![p.clone()];
    p
}

fn finish(cx: &mut Cx) -> Res<Fs> {
    let f = simfs::take().expect("installed");
    for (k, v) in &f.faults { bump(&mut cx.st.faults, k, *v) }
    cx.st.reads += f.reads;
    cx.st.sim_ns += f.reads * 1_000 + f.open_calls * 1_000;
    if let Some(w) = f.wrong.first() { return fail("descriptor", w.clone()) }
    ensure!(f.leaked == 0, "descriptor-leak", "{} of {} descriptors were never closed", f.leaked, f.opens);
    ensure!(f.closes == f.opens, "descriptor", "{} opens but {} closes", f.opens, f.closes);
    Ok(f)
}

fn open_path(cx: &mut Cx, path: &[u8], dflt: bool, o: FlacReaderOptions) -> Res<Result<FlacReader<File>, Error>> {
    let os = std::ffi::OsStr::from_bytes(path);
    let (path, how) = match std::str::from_utf8(path) { Ok(p) => (p, cx.src.draw(4)), Err(_) => ("", 3 + cx.src.draw(2)) };
    let x = call("FlacReader::open", || match (dflt, how) {
        (true, 0) => FlacReader::<File>::open(path),
        (true, 1) => FlacReader::<File>::open(path.to_string()),
        (true, 2) => FlacReader::<File>::open(std::path::PathBuf::from(path)),
        (true, 3) => FlacReader::<File>::open(os),
        (true, _) => FlacReader::<File>::open(std::path::Path::new(os)),
        (false, 0) => FlacReader::<File>::open_ext(path, o),
        (false, 1) => FlacReader::<File>::open_ext(path.to_string(), o),
        (false, 2) => FlacReader::<File>::open_ext(std::path::PathBuf::from(path), o),
        (false, 3) => FlacReader::<File>::open_ext(os, o),
        (false, _) => FlacReader::<File>::open_ext(std::path::Path::new(os), o),
    })?;
    cx.log.ev(50, x.is_ok() as u64, 0, || match x { Ok(_) => "open -> ok".into(), Err(ref e) => format!("open -> {:?}", e) });
    Ok(x)
}

fn os_code(e: &Error) -> Option<i32> { match *e { Error::IoError(ref e) => e.raw_os_error(), _ => None } }

fn one_file(cx: &mut Cx) -> Res<()> {
    let rich = cx.src.chance(1, 3);
    let size = [Size::Tiny, Size::Small, Size::Medium][cx.src.weighted(&[4, 3, 1])];
    let s = stream(cx, StreamOpts { size: Some(size), meta: if rich { MetaLevel::Rich } else { MetaLevel::Light }, ..StreamOpts::default() });
    let bounds = s.boundaries();
    let mut fs = Fs::new(&cx.log);
    let mut bytes = s.bytes.clone();
    let mut cut = None;
    let mut bad = None;
    // (offset, errno) of a lasting or single read failure.
    match cx.src.weighted(&[4, 5, 2, 1, 1]) {
        0 => {}
        1 => { let at = gen_offset(&mut cx.src, &bounds, 0, bytes.len()); bad = Some((at, cx.src.pick(&READ_ERRNO))) }
        2 => { let at = gen_offset(&mut cx.src, &bounds, 0, bytes.len()); cut = Some(at); if cx.src.chance(1, 2) { bytes.truncate(at) } else { fs.read_faults.push_back((at as u64, 0, u64::MAX)) } }
        3 => { bytes[cx.src.draw(4) as usize] ^= 1 << cx.src.draw(8); cx.count("not_a_flac_file", 1) }
        _ => { bytes.clear(); cut = Some(0); cx.count("empty_file", 1) }
    }
    let spoiled = bytes.len() >= 4 && &bytes[..4] != b"fLaC";
    // Interruptions anywhere, and interrupted opens.
    if cx.src.chance(1, 2) {
        for _ in 0..cx.src.usize(1, 4) { let at = gen_offset(&mut cx.src, &bounds, 0, s.bytes.len()) as u64; let times = match cx.src.weighted(&[60, 4, 1]) { 0 => cx.src.range(1, 4), 1 => cx.src.range(5, 300), _ => cx.src.range(1_000, 3_000) }; fs.read_faults.push_back((at, EINTR, times)) }
    }
    if cx.src.chance(1, 4) { for _ in 0..cx.src.usize(1, 3) { fs.open_errs.push_back(EINTR) } }
    if let Some((at, e)) = bad { fs.read_faults.push_back((at as u64, e, if cx.src.chance(1, 2) { 1 } else { u64::MAX })) }
    let mut v: Vec<_> = fs.read_faults.drain(..).collect();
    v.sort_by_key(|f| (f.0, f.1 != EINTR));
    cx.note(|| format!("file of {} bytes, read faults (offset, errno, times) {:?}", bytes.len(), v));
    let fault_places = v.len();
    fs.read_faults = v.into();
    fs.chunks = gen_chunks(&mut cx.src, &bounds);
    let full = matches!(fs.chunks, Chunks::Full);
    if cx.src.chance(1, 6) { fs.close_err = cx.src.pick(&[5, EINTR, 122]) }
    fs.read_only = cx.src.pick(&[13, 0, 30, 1, 26]);
    fs.pipe = cx.src.chance(1, 4);
    let p = gen_path(cx, &mut fs, &s.bytes);
    fs.files.insert(p.clone(), bytes.clone());
    simfs::install(fs);

    let dflt = cx.src.chance(1, 2);
    let mo = !dflt && cx.src.chance(1, 4);
    let rvc = dflt || cx.src.chance(1, 2);
    let x = open_path(cx, &p, dflt, options(mo, rvc))?;
    cx.st.nontrivial = true;
    // Where the metadata that was asked for ends.
    let need = if !mo { s.audio } else if !rvc { s.meta[0].end } else { s.vorbis_end().unwrap_or(s.audio) };
    let limit = bad.map(|b| b.0).or(cut).unwrap_or(usize::MAX);
    let fr = match x {
        Err(e) => {
            cx.count("open_failed", 1);
            if spoiled && limit >= 4 { ensure!(matches!(e, Error::FormatError(_)), "wrong-error", "a file that is not FLAC gave {:?}", e) }
            else {
                ensure!(limit < need, "open-failed", "opening failed with {:?}; the metadata ends at {}, faults from {}", e, need, limit);
                check_err(&e, bad, cut)?;
            }
            drop(e);
            finish(cx)?;
            return Ok(());
        }
        Ok(f) => f,
    };
    ensure!(!spoiled, "wrong-open", "a file that is not FLAC was opened");
    ensure!(limit >= need, "swallowed", "opening succeeded although the file could be read only up to byte {} and the metadata ends at {}", limit, need);
    same_open(cx, &fr, &s.si, if rvc { s.vorbis() } else { None })?;
    simfs::expect_open(1)?;
    if mo {
        end_reader(cx, fr)?;
        finish(cx)?;
        return Ok(());
    }
    let done: Vec<Frame> = s.frames.iter().filter(|f| f.end <= limit).cloned().collect();
    let mut g = Got { blocks: vec![], samples: vec![], end: End::Limit, err: None };
    let bufs = gen_bufs(&mut cx.src);
    let mut pool = BufPool::new(bufs, cx.src.sub());
    let mode = cx.src.pick(&[Mode::Blocks, Mode::Samples, Mode::IntoSamples]);
    let stop = if cx.src.chance(1, 5) { cx.src.usize(0, 3) } else { usize::MAX };
    let mut fr = Some(fr);
    match mode {
        Mode::Samples | Mode::IntoSamples => {
            let mut take = |it: &mut dyn Iterator<Item = Result<i32, Error>>| -> Res<()> {
                let r = lib(|| for x in it { match x { Ok(v) => g.samples.push(v), Err(e) => { g.err = Some(e); break } } if g.samples.len() > 40_000_000 { break } });
                no_panic("samples", r)
            };
            if mode == Mode::Samples { take(&mut fr.as_mut().unwrap().samples())? } else { let mut it = fr.take().unwrap().into_samples(); take(&mut it)?; simfs::expect_open(1)?; drop(it) }
        }
        _ => {
            let f = fr.as_mut().unwrap();
            let mut it = f.blocks();
            while g.blocks.len() <= s.frames.len() && g.blocks.len() < stop {
                match next_block(cx, &mut it, pool.get())? {
                    Ok(Some(b)) => { g.blocks.push(observe(&b)?); pool.put(b.into_buffer()) }
                    Ok(None) => { g.end = End::Eof; break }
                    Err(e) => { g.end = End::Err(eobs(&e)); g.err = Some(e); break }
                }
            }
        }
    }
    if mode != Mode::Blocks { g.end = match g.err { None => End::Eof, Some(ref e) => End::Err(eobs(e)) } }
    if let Some(f) = fr { simfs::expect_open(1)?; end_reader(cx, f)? }
    let stopped = mode == Mode::Blocks && g.err.is_none() && g.end == End::Limit;
    if stopped {
        let n = g.blocks.len();
        ensure!(n <= done.len(), "extra-block", "{} blocks although only {} can be read", n, done.len());
        for (i, (b, f)) in g.blocks.iter().zip(&done).enumerate() { same_audio(i, b, f)? }
    } else {
        expect_prefix(cx, &g, &done, mode)?;
        match g.err {
            None => {
                let clean = limit >= s.bytes.len() && bad.is_none() || (bad.is_none() && (limit == s.audio || s.frames.iter().any(|f| f.end == limit)));
                ensure!(clean, "swallowed", "decoding ended cleanly although the file could be read only up to byte {} ({:?})", limit, bad);
            }
            Some(ref e) => {
                ensure!(limit != usize::MAX, "wrong-end", "decoding a sound file failed with {:?}", e);
                check_err(e, bad, cut)?;
            }
        }
    }
    let f = finish(cx)?;
    if full {
        // Reading is buffered: there is no need to wrap the file in a BufReader.
        let faults: u64 = f.faults.iter().filter(|(k, _)| k.starts_with("read_") || k.starts_with("zero_")).map(|x| x.1).sum();
        let most = bytes.len() as u64 / 256 + 4 + 3 * (faults + fault_places as u64);
        ensure!(f.reads <= most, "unbuffered", "{} read system calls for a file of {} bytes that was always delivered in full", f.reads, bytes.len());
        if bytes.len() > 8192 { cx.count("large_files_read_buffered", 1) }
    }
    Ok(())
}

fn check_err(e: &Error, bad: Option<(usize, i32)>, cut: Option<usize>) -> Res<()> {
    if let Some((at, code)) = bad { ensure!(os_code(e) == Some(code), "changed-error", "read at byte {} failed with errno {}; reported as {:?}", at, code, e) }
    else if let Some(at) = cut { ensure!(is_eof(e), "wrong-error", "the file ends at byte {}; reported as {:?}", at, e) }
    Ok(())
}

/// Ends a reader's life in one of the ways a caller can.
fn end_reader(cx: &mut Cx, fr: FlacReader<File>) -> Res<()> {
    match cx.src.draw(3) {
        0 => drop(fr),
        1 => { let f: File = call("into_inner", move || fr.into_inner())?; simfs::expect_open(1)?; drop(f) }
        _ => { let b = Ship::new(Box::new(fr)); std::thread::spawn(move || drop(b.land())).join().ok(); }
    }
    simfs::expect_open(0)
}

fn bad_open(cx: &mut Cx) -> Res<()> {
    let mut fs = Fs::new(&cx.log);
    let code = cx.src.pick(&OPEN_ERRNO);
    for _ in 0..cx.src.usize(0, 3) { fs.open_errs.push_back(EINTR) }
    fs.open_errs.push_back(code);
    let dflt = cx.src.chance(1, 2);
    let (mo, rvc) = (cx.src.chance(1, 2), cx.src.chance(1, 2));
    let nul = cx.src.chance(1, 6);
    // What opening any other file would give.
    let s = stream(cx, StreamOpts { size: Some(Size::Tiny), ..StreamOpts::default() });
    let p = gen_path(cx, &mut fs, &s.bytes);
    if !nul && cx.src.chance(1, 2) { fs.files.insert(p.clone(), s.bytes.clone()); }
    simfs::install(fs);
    let x = open_path(cx, if nul { b"/sim-fs/a\0b.flac" } else { &p }, dflt, options(mo, rvc))?;
    cx.st.nontrivial = true;
    match x {
        Ok(_) => return fail("swallowed", format!("opening succeeded although the system call failed with errno {}", code)),
        Err(ref e) if nul => ensure!(matches!(*e, Error::IoError(_)), "wrong-error", "a path that no file can have gave {:?}", e),
        Err(ref e) => ensure!(os_code(e) == Some(code), "changed-error", "open failed with errno {}; reported as {:?}", code, e),
    }
    cx.count("failing_opens", 1);
    drop(x);
    let f = finish(cx)?;
    ensure!(f.opens == 0, "descriptor", "a descriptor was opened");
    Ok(())
}

/// Several files at once, closed in any order.
fn many(cx: &mut Cx) -> Res<()> {
    let n = cx.src.usize(2, 4);
    let ss: Vec<Stream> = (0..n).map(|_| stream(cx, StreamOpts { size: Some(Size::Tiny), min_frames: 1, ..StreamOpts::default() })).collect();
    let mut fs = Fs::new(&cx.log);
    for (i, s) in ss.iter().enumerate() { fs.files.insert(format!("/sim-fs/{}.flac", i).into_bytes(), s.bytes.clone()); }
    fs.chunks = gen_chunks(&mut cx.src, &ss[0].boundaries());
    fs.read_only = cx.src.pick(&[13, 0, 30]);
    fs.pipe = cx.src.chance(1, 4);
    simfs::install(fs);
    let mut rs = vec![];
    for i in 0..n {
        match open_path(cx, format!("/sim-fs/{}.flac", i).as_bytes(), true, FlacReaderOptions::default())? {
            Ok(f) => rs.push(Some((f, 0usize))),
            Err(e) => return fail("open-failed", format!("opening a sound file failed: {:?}", e)),
        }
        simfs::expect_open(i + 1)?;
    }
    cx.st.nontrivial = true;
    cx.count("files_open_together", n as u64);
    let mut live = n;
    while live > 0 {
        let i = cx.src.usize(0, n - 1);
        let i = (0..n).map(|k| (i + k) % n).find(|&k| rs[k].is_some()).unwrap();
        let mut end = cx.src.chance(1, 12);
        if let Some((ref mut f, ref mut k)) = rs[i] {
            let mut it = f.blocks();
            match next_block(cx, &mut it, Vec::new())? {
                Ok(Some(b)) => {
                    ensure!(*k < ss[i].frames.len(), "extra-block", "file {} gave more blocks than it has", i);
                    same_audio(*k, &observe(&b)?, &ss[i].frames[*k])?;
                    *k += 1;
                }
                Ok(None) => { ensure!(*k == ss[i].frames.len(), "missing-block", "file {} ended after {} blocks", i, k); end = true }
                Err(e) => return fail("wrong-end", format!("file {}: {:?}", i, e)),
            }
        }
        if end { rs[i] = None; live -= 1; simfs::expect_open(live)? }
    }
    finish(cx)?;
    Ok(())
}
