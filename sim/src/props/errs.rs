//! The errors that a run under faults ends with, as values: what they say, what
//! they compare equal to, what caused them; printed to a sink that may fail.

use super::damage::chain;
use super::hostile::{gen_faults, probe_gen, small_stream};
use super::*;
use std::error::Error as StdError;
use std::fmt::{self, Write};
use std::io::{self, ErrorKind};

/// The error of a caller's reader: it has a cause of its own, and printing it
/// may fail or panic.
#[derive(Debug)]
struct Deep { id: u64, inner: SimErr, how: u8 }

impl fmt::Display for Deep {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("deep ")?;
        match self.how {
            1 => Err(fmt::Error),
            2 => std::panic::panic_any(SimPanic),
            _ => write!(f, "error {}", self.id),
        }
    }
}

impl StdError for Deep {
    fn source(&self) -> Option<&(dyn StdError + 'static)> { Some(&self.inner) }
}

#[derive(Clone, Debug, PartialEq)]
enum Want { Spec(ErrSpec), Deep(u64, u8, ErrorKind), Eof, AnyIo, Format(&'static str), Unsupported(&'static str), Malformed, Any }

struct Case { e: Error, want: Want }

unsafe impl Send for Case {}

/// A text sink with room for so many bytes. Once it is full it fails for good,
/// or only refuses what does not fit, or refuses one write and goes on.
struct Sink { room: usize, how: usize, got: String, failed: bool }

impl Sink {
    fn new(room: usize, how: usize) -> Sink { Sink { room, how, got: String::new(), failed: false } }
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if (self.failed && self.how == 0) || s.len() > self.room {
            self.failed = true;
            if self.how == 2 { self.room = usize::MAX }
            return Err(fmt::Error);
        }
        self.room -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

pub fn c22(cx: &mut Cx) -> Res<()> {
    let mut cases: Vec<Case> = Vec::new();
    for _ in 0..cx.src.usize(2, 7) {
        match cx.src.weighted(&[3, 4, 3, 2, 2, 2, 3, 1]) {
            0 => synthetic(cx, &mut cases),
            1 => failing(cx, &mut cases)?,
            2 => twice(cx, &mut cases)?,
            3 => utf8(cx, &mut cases)?,
            4 => primitive(cx, &mut cases)?,
            5 => deep(cx, &mut cases)?,
            7 => other_file(cx, &mut cases)?,
            _ => { if !cases.is_empty() { let i = cx.src.usize(0, cases.len() - 1); again(&cases[i].e).map(|e| { let want = cases[i].want.clone(); cases.push(Case { e, want }) }); } }
        }
    }
    for i in 0..cases.len() { one(cx, &cases[i])? }
    for a in &cases { for b in &cases { pair(&a.e, &b.e)? } }
    if cx.src.chance(1, 10) { moved(cx, &mut cases)? }
    Ok(())
}

/// The same reason at another address, in either variant.
fn again(e: &Error) -> Option<Error> {
    // Reasons have static lifetime: a few of them are copied once, for good.
    static COPIES: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(Vec::new());
    let copy = |r: &'static str| -> &'static str {
        let mut c = COPIES.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(&x) = c.iter().find(|&&x| x == r) { return x }
        let x: &'static str = Box::leak(r.to_string().into_boxed_str());
        c.push(x);
        x
    };
    match *e {
        Error::FormatError(r) => Some(Error::FormatError(copy(r))),
        Error::Unsupported(r) => Some(Error::Unsupported(copy(r))),
        Error::IoError(_) => None,
    }
}

const REASONS: [&str; 9] = ["frame CRC mismatch", "frame header CRC mismatch", "frame CRC mismatch ", "", "é\u{2014}\u{1f3b5}", "{} %s \n\0",
    "unexpected number of samples", "Ill-formed FLAC stream: frame CRC mismatch", "unsupported feature"];

fn synthetic(cx: &mut Cx, cases: &mut Vec<Case>) {
    let r = cx.src.pick(&REASONS);
    cx.count("errors_made", 1);
    let (e, want) = match cx.src.weighted(&[3, 3, 2, 1]) {
        0 => (Error::FormatError(r), Want::Format(r)),
        1 => (Error::Unsupported(r), Want::Unsupported(r)),
        2 => { let s = gen_err(&mut cx.src); (Error::from(s.make()), Want::Spec(s)) }
        _ => (Error::from(String::from_utf8(vec![b'a', 0xff]).unwrap_err()), Want::Malformed),
    };
    cases.push(Case { e, want });
}

/// A stream and the failure of its reader somewhere in it.
fn failing(cx: &mut Cx, cases: &mut Vec<Case>) -> Res<()> {
    let s = small_stream(cx);
    let bounds = s.boundaries();
    let chunks = gen_chunks(&mut cx.src, &bounds);
    let at = gen_offset(&mut cx.src, &bounds, 0, s.bytes.len() - 1);
    let mode = gen_mode(&mut cx.src);
    let bufs = gen_bufs(&mut cx.src);
    let (r, want) = if cx.src.chance(1, 4) {
        bump(&mut cx.st.faults, "cut", 1);
        (SimReader::bytes(&s.bytes[..at], chunks, vec![], &cx.log), Want::AnyIo)
    } else {
        let spec = gen_err(&mut cx.src);
        (SimReader::bytes(&s.bytes, chunks, vec![Fault { at: at as u64, kind: FaultKind::Err(spec), count: FOREVER }], &cx.log), Want::Spec(spec))
    };
    cx.note(|| format!("{} bytes, {:?} at {}, read as {:?}", s.bytes.len(), want, at, mode));
    let (e, obs) = run(cx, r, mode, bufs, s.frames.len())?;
    account(cx, &obs);
    if let Some(e) = e {
        // Where a stream that is cut ends is for C05 to judge; that it ends
        // with UnexpectedEof where it ends with an I/O error is enough here.
        let want = if want == Want::AnyIo { if matches!(e, Error::IoError(_)) { Want::Eof } else { Want::Any } } else { want };
        cases.push(Case { e, want });
    }
    Ok(())
}

/// Not a FLAC stream. One that starts with an ID3 tag is told apart.
fn other_file(cx: &mut Cx, cases: &mut Vec<Case>) -> Res<()> {
    let mut b = small_stream(cx).bytes;
    let version = cx.src.draw(256) as u8;
    match cx.src.draw(4) {
        0 | 1 => { b.splice(0..0, [b'I', b'D', b'3', version, 0, 0, 0, 0, 0, 0]); }
        2 => { let i = cx.src.usize(0, 3); b[i] ^= 1 << cx.src.draw(8) }
        _ => { let o = cx.src.pick(&[*b"RIFF", *b"OggS", *b"ID2\x03", *b"id3\x03", *b"\0ID3", [0, 0, 0, 0], *b"IE3\x04"]); b[..4].copy_from_slice(&o) }
    }
    let id3 = b.starts_with(b"ID3");
    cx.count(if id3 { "id3_tag_first" } else { "not_flac" }, 1);
    let chunks = gen_chunks(&mut cx.src, &[1, 2, 3, 4, 10]);
    let r = SimReader::bytes(&b, chunks, vec![], &cx.log);
    let obs = r.obs.clone();
    let e = match open(cx, r, FlacReaderOptions::default())? { Ok(_) => return fail("accepted", format!("a file that starts with {:?} was opened", &b[..4])), Err(e) => e };
    account(cx, &obs);
    ensure!(matches!(e, Error::FormatError(r) if r.contains("ID3") == id3), "wrong-reason", "a file that starts with {:?} was refused as {:?}", &b[..4], e);
    cases.push(Case { e, want: Want::Malformed });
    Ok(())
}

fn run(cx: &mut Cx, r: SimReader, mode: Mode, bufs: Bufs, n: usize) -> Res<(Option<Error>, Shared)> {
    let obs = r.obs.clone();
    let e = match open(cx, r, FlacReaderOptions::default())? {
        Err(e) => Some(e),
        Ok(fr) => decode(cx, fr, mode, bufs, n)?.err,
    };
    Ok((e, obs))
}

/// Input that is wrong, delivered in two ways: the same error.
fn twice(cx: &mut Cx, cases: &mut Vec<Case>) -> Res<()> {
    let s = small_stream(cx);
    let mut b = s.bytes.clone();
    match cx.src.weighted(&[3, 2, 2]) {
        0 => {
            let at = cx.src.range(0, 30);
            let f = probe_gen(cx, |src, p| wild_frame(src, Odd::Once(at), p));
            let k = cx.src.usize(0, s.frames.len());
            b.truncate(if k < s.frames.len() { s.frames[k].start } else { s.bytes.len() });
            b.extend_from_slice(&f);
            b.extend_from_slice(&vec![0; 4200]);
        }
        1 => { let at = cx.src.usize(s.audio.min(b.len() - 1), b.len() - 1); b[at] ^= 1 << cx.src.range(0, 7) }
        _ => { let at = cx.src.usize(0, s.audio - 1); b[at] ^= 1 << cx.src.range(0, 7) }
    }
    bump(&mut cx.st.faults, "damage", 1);
    let n = if b[..s.audio] == s.bytes[..s.audio] { chain(&b, s.audio).frames.len() } else { b.len() / 10 + 1 };
    let mode = gen_mode(&mut cx.src);
    let mut es: Vec<Option<Error>> = Vec::new();
    for _ in 0..2 {
        let bounds = s.boundaries();
        let chunks = gen_chunks(&mut cx.src, &bounds);
        let faults = gen_faults(cx, &bounds, b.len(), 0).into_iter().filter(|f| f.kind == FaultKind::Intr && f.count < 100).collect();
        let bufs = gen_bufs(&mut cx.src);
        cx.note(|| format!("{} bytes, {:?}, faults {:?}, read as {:?}", b.len(), chunks, faults, mode));
        let r = SimReader::bytes(&b, chunks, faults, &cx.log);
        let (e, obs) = run(cx, r, mode, bufs, n)?;
        account(cx, &obs);
        es.push(e);
    }
    match (es.pop().unwrap(), es.pop().unwrap()) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            let same = match (&x, &y) {
                (Error::IoError(a), Error::IoError(b)) => a.kind() == b.kind() && x != y,
                _ => x == y,
            };
            ensure!(same, "another-error", "the same bytes, delivered in two ways, ended with {:?} and with {:?}", x, y);
            let (p, q) = (format!("{}", x), format!("{}", y));
            ensure!(p == q, "another-error", "the same failure was described as {:?} and as {:?}", p, q);
            cx.count("errors_met_twice", 1);
            for e in [x, y] {
                let want = match e { Error::IoError(_) => Want::Eof, _ => Want::Any };
                cases.push(Case { e, want });
            }
        }
        (x, y) => return fail("another-error", format!("the same bytes, delivered in two ways, ended with {:?} and with {:?}", x, y)),
    }
    Ok(())
}

/// Text that is not UTF-8.
fn utf8(cx: &mut Cx, cases: &mut Vec<Case>) -> Res<()> {
    let bad: &[&[u8]] = &[&[0xff], &[0xc3], &[0xed, 0xa0, 0x80], b"A=\x80", &[0xf0, 0x9f, 0x8e]];
    let w = bad[cx.src.usize(0, bad.len() - 1)];
    let body = if cx.src.chance(1, 2) { encode_vorbis(w, &[]) } else { encode_vorbis(b"v", &[[b"T=".as_ref(), w].concat()]) };
    let r = SimReader::bytes(&body, gen_chunks(&mut cx.src, &[4, 8]), vec![], &cx.log);
    let obs = r.obs.clone();
    let mut r = BufferedReader::new(r);
    let n = body.len() as u32;
    let e = call("read_metadata_block", || metadata::read_metadata_block(&mut r, 4, n).map(|_| ()))?;
    account(cx, &obs);
    match e {
        Err(e) => cases.push(Case { e, want: Want::Malformed }),
        Ok(_) => return fail("accepted", "text that is not UTF-8 was accepted"),
    }
    Ok(())
}

/// A primitive's io::Error becomes an Error as try! does it.
fn primitive(cx: &mut Cx, cases: &mut Vec<Case>) -> Res<()> {
    let spec = gen_err(&mut cx.src);
    let at = cx.src.range(0, 9);
    let b: Vec<u8> = (0..12).collect();
    let cut = cx.src.chance(1, 3);
    let faults = if cut { vec![] } else { vec![Fault { at, kind: FaultKind::Err(spec), count: 1 }] };
    let r = SimReader::bytes(if cut { &b[..at as usize] } else { &b }, gen_chunks(&mut cx.src, &[]), faults, &cx.log);
    let obs = r.obs.clone();
    let mut r = BufferedReader::new(r);
    fn all<R: ReadBytes>(r: &mut R) -> Result<(), Error> {
        let mut b = [0; 3];
        r.read_into(&mut b)?;
        r.read_be_u32()?;
        r.skip(2)?;
        r.read_le_u32().map(|_| ()).or_else(|e| Err(Error::from(e)))?;
        Ok(())
    }
    let x = call("the primitives", || all(&mut r))?;
    account(cx, &obs);
    if let Err(e) = x { cases.push(Case { e, want: if cut { Want::Eof } else { Want::Spec(spec) } }) }
    Ok(())
}

struct DeepReader { left: usize, data: Vec<u8>, id: u64, how: u8, kind: ErrorKind }

impl io::Read for DeepReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.left == 0 { return Err(io::Error::new(self.kind, Deep { id: self.id, inner: SimErr(self.id + 1), how: self.how })) }
        let n = self.left.min(b.len());
        let at = self.data.len() - self.left;
        b[..n].copy_from_slice(&self.data[at..at + n]);
        self.left -= n;
        Ok(n)
    }
}

fn deep(cx: &mut Cx, cases: &mut Vec<Case>) -> Res<()> {
    let s = stream(cx, StreamOpts { size: Some(Size::Tiny), meta: MetaLevel::Light, ..StreamOpts::default() });
    let n = gen_offset(&mut cx.src, &s.boundaries(), 0, s.bytes.len() - 1);
    let how = cx.src.weighted(&[4, 2, 1]) as u8;
    let kind = cx.src.pick(&KINDS);
    let id = cx.src.draw(1 << 20);
    bump(&mut cx.st.faults, "nested_error", 1);
    cx.log.ev(90, n as u64, how as u64, || format!("a nested error ({:?}, printing it {}) after {} bytes", kind, ["works", "fails", "panics"][how as usize], n));
    let r = DeepReader { left: n, data: s.bytes[..n].to_vec(), id, how, kind };
    let e = call("decoding", || -> Result<(), Error> {
        let mut fr = FlacReader::new(r)?;
        for x in fr.samples() { x?; }
        Ok(())
    })?;
    if let Err(e) = e { cases.push(Case { e, want: Want::Deep(id, how, kind) }) }
    Ok(())
}

fn deep_of(e: &io::Error) -> Option<&Deep> { e.get_ref().and_then(|r| r.downcast_ref::<Deep>()) }

fn one(cx: &mut Cx, c: &Case) -> Res<()> {
    let e = &c.e;
    cx.st.nontrivial = true;
    let good = match (&c.want, e) {
        (Want::Spec(s), Error::IoError(x)) => s.matches(x),
        (Want::Deep(id, how, kind), Error::IoError(x)) => x.kind() == *kind && deep_of(x).map_or(false, |d| d.id == *id && d.how == *how),
        (Want::Eof, Error::IoError(x)) => x.kind() == ErrorKind::UnexpectedEof,
        (Want::Format(r), Error::FormatError(x)) => r == x,
        (Want::Unsupported(r), Error::Unsupported(x)) => r == x,
        (Want::Malformed, Error::FormatError(_)) => true,
        (Want::Any, Error::FormatError(_)) | (Want::Any, Error::Unsupported(_)) => true,
        _ => false,
    };
    ensure!(good, "another-error", "{:?} was reported as {:?}", c.want, e);
    cx.count(match e { Error::IoError(_) => "errors_io", Error::FormatError(_) => "errors_format", Error::Unsupported(_) => "errors_unsupported" }, 1);

    // What it says.
    let how = match c.want { Want::Deep(_, how, _) => how, _ => 0 };
    let (reason, made) = match *e {
        Error::IoError(ref x) => (if how == 0 { x.to_string() } else { String::new() }, matches!(c.want, Want::Eof)),
        Error::FormatError(r) | Error::Unsupported(r) => (r.to_string(), !matches!(c.want, Want::Format(_) | Want::Unsupported(_))),
    };
    ensure!(!made || !reason.is_empty(), "no-reason", "an error without a reason: {:?}", e);
    let mut full = Sink::new(usize::MAX, 0);
    let r = lib(|| write!(full, "{}", e));
    match (how, r) {
        (0, Ok(Ok(()))) => {}
        (1, Ok(Err(_))) => {}
        (2, Err(Pan::Sim)) => {}
        (_, r) => return fail("display", format!("displaying {:?} (whose reason {} displayed) gave {:?}", e.kind_name(), ["can be", "fails to be", "panics when"][how as usize], r)),
    }
    ensure!(full.got.contains(&reason), "reason-lost", "the reason is {:?}, the text {:?}", reason, full.got);
    if how > 0 { return cause(e, how) }
    let text = full.got;
    cx.log.ev(91, text.len() as u64, hash_bytes(0, text.as_bytes()), || format!("error: {}", text));
    let s = call("to_string", || e.to_string())?;
    ensure!(s == text, "display", "{:?} and then {:?}", text, s);
    // The sink fails somewhere.
    for _ in 0..2 {
        let room = cx.src.usize(0, text.len() + 1);
        let how = cx.src.usize(0, 2);
        let mut k = Sink::new(room, how);
        let r = call("Display::fmt", || write!(k, "{}", e))?;
        if k.failed { bump(&mut cx.st.faults, "sink_failed", 1) }
        ensure!(r.is_err() == k.failed, "display", "displaying {:?} to a sink that {} gave {:?}", text, if k.failed { "failed" } else { "did not fail" }, r);
        ensure!(text.starts_with(&k.got) && (k.failed || k.got == text), "display", "{:?} became {:?} when the sink failed", text, k.got);
    }
    // The debugging text must not fail; what it says is not specified.
    call("Debug::fmt", || format!("{:?}{:#?}", e, e).len())?;
    // Through a box, as applications do it.
    let b: Box<dyn StdError + Send + Sync> = match again(e) { Some(x) => Box::new(x), None => return cause(e, 0) };
    ensure!(b.to_string() == text, "display", "{:?}, in a box {:?}", text, b.to_string());
    ensure!(b.downcast_ref::<Error>() == Some(e), "equality", "{:?} and a copy of it are not equal", e);
    cause(e, 0)
}

trait KindName { fn kind_name(&self) -> &'static str; }
impl KindName for Error {
    fn kind_name(&self) -> &'static str { match *self { Error::IoError(_) => "an I/O error", Error::FormatError(_) => "a format error", Error::Unsupported(_) => "an unsupported feature" } }
}

#[allow(deprecated)]
fn cause(e: &Error, how: u8) -> Res<()> {
    let mut c = None;
    call("cause", || c = e.cause())?;
    match (e, c) {
        (Error::IoError(x), Some(c)) => {
            // The type of what `cause` gives cannot be asked for: its words can.
            if how == 0 {
                let (p, q) = (format!("{} {:?}", c, c), format!("{} {:?}", x, x));
                ensure!(p == q, "cause", "the cause of {} is {}", q, p);
            }
            if let Some(d) = deep_of(x) {
                let inner = c.cause().map(|i| i.to_string());
                ensure!(inner == Some(d.inner.to_string()), "cause", "the chain of causes is broken: {:?}", inner);
            }
        }
        (Error::IoError(_), None) => return fail("cause", "an I/O error has no cause"),
        (_, Some(c)) => return fail("cause", format!("{} has the cause {}", e.kind_name(), c)),
        _ => {}
    }
    if how == 0 { call("description", || e.description().len())?; }
    Ok(())
}

fn pair(a: &Error, b: &Error) -> Res<()> {
    let want = match (a, b) {
        (Error::FormatError(x), Error::FormatError(y)) => x == y,
        (Error::Unsupported(x), Error::Unsupported(y)) => x == y,
        _ => false,
    };
    let (got, not) = call("PartialEq", || (a == b, a != b))?;
    ensure!(got == want && not != got, "equality", "{} and {}: == gives {}, != gives {}; it should be {}", brief(a), brief(b), got, not, want);
    Ok(())
}

fn brief(e: &Error) -> String {
    match *e { Error::IoError(ref x) => format!("I/O error {:?}", x.kind()), Error::FormatError(r) => format!("format error {:?}", r), Error::Unsupported(r) => format!("unsupported {:?}", r) }
}

/// On another thread it is the same error.
fn moved(cx: &mut Cx, cases: &mut Vec<Case>) -> Res<()> {
    cx.count("errors_moved_to_a_thread", 1);
    let all = std::mem::take(cases);
    let mut sub = Cx::new(Src::from_tape(vec![]), cx.thorough, false);
    let t = std::thread::spawn(move || {
        for c in &all { one(&mut sub, c)? }
        for a in &all { for b in &all { pair(&a.e, &b.e)? } }
        Ok(())
    });
    match t.join() { Ok(r) => r, Err(_) => fail("panic", "a thread that looked at an error panicked") }
}
