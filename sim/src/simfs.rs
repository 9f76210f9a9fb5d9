//! The simulated file system: this program's own `open64`, `open`, `openat`,
//! `read` and `close` take the place of libc's for everything linked into it
//! (the standard library included). Descriptors of simulated files are real
//! memory files, so any other system call works on them, too.

use crate::cx::Log;
use crate::reader::Chunks;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

pub const EINTR: i32 = 4;

pub struct Fs {
    pub files: BTreeMap<Vec<u8>, Vec<u8>>,
    /// The only paths that may be opened, if any are listed.
    pub asked: Vec<Vec<u8>>,
    /// How far the FIFOs have been read.
    pub taken: BTreeMap<Vec<u8>, u64>,
    pub paths: BTreeMap<i32, Vec<u8>>,
    /// Errors of the next `open` calls (EINTR is retried by the standard library).
    pub open_errs: VecDeque<i32>,
    pub chunks: Chunks,
    /// (offset, errno, times); errno 0 is a zero-length read.
    pub read_faults: VecDeque<(u64, i32, u64)>,
    pub close_err: i32,
    /// If not 0, files may only be read; the error of opening them otherwise.
    pub read_only: i32,
    /// The paths name FIFOs: no size, no seeking.
    pub pipe: bool,
    pub log: Log,
    // Observations.
    pub open_fds: BTreeMap<i32, u64>,
    pub closed: BTreeSet<i32>,
    pub opens: u64,
    pub open_calls: u64,
    pub closes: u64,
    pub reads: u64,
    pub faults: BTreeMap<String, u64>,
    pub wrong: Vec<String>,
    pub leaked: u64,
    /// The descriptors that were open at the start.
    pub before: [u64; 4],
    pub budget: u64,
}

impl Fs {
    pub fn new(log: &Log) -> Fs {
        Fs { files: BTreeMap::new(), asked: vec![], taken: BTreeMap::new(), paths: BTreeMap::new(), open_errs: VecDeque::new(), chunks: Chunks::Full, read_faults: VecDeque::new(), close_err: 0, read_only: 0, pipe: false,
             log: log.clone(), open_fds: BTreeMap::new(), closed: BTreeSet::new(), opens: 0, open_calls: 0, closes: 0, reads: 0,
             faults: BTreeMap::new(), wrong: vec![], leaked: 0, before: [0; 4], budget: 3_000_000 }
    }
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static FS: Mutex<Option<Fs>> = Mutex::new(None);

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_CLOSE: c_long = 3;
const SYS_LSEEK: c_long = 8;
const SYS_FCNTL: c_long = 72;
const F_GETFD: c_int = 1;
const SYS_OPENAT: c_long = 257;
const SYS_MEMFD: c_long = 319;
const SYS_PIPE2: c_long = 293;
const F_SETFL: c_int = 4;
const F_SETPIPE_SZ: c_int = 1031;
const O_NONBLOCK: c_int = 0o4000;
const O_CLOEXEC: c_int = 0o2000000;
const AT_FDCWD: c_long = -100;
const O_ACCMODE: c_int = 3;
const O_CREAT: c_int = 0o100;
const O_TRUNC: c_int = 0o1000;

fn fs() -> std::sync::MutexGuard<'static, Option<Fs>> { FS.lock().unwrap_or_else(|e| e.into_inner()) }

/// Which of the first 256 descriptors are open.
fn open_set() -> [u64; 4] {
    let mut v = [0u64; 4];
    for fd in 0..256 { if unsafe { syscall(SYS_FCNTL, fd as c_int, F_GETFD) } >= 0 { v[fd / 64] |= 1 << (fd % 64) } }
    v
}

pub fn install(mut f: Fs) {
    f.before = open_set();
    *fs() = Some(f);
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Ends the simulation, closing what is still open.
pub fn take() -> Option<Fs> {
    ACTIVE.store(false, Ordering::SeqCst);
    let mut f = fs().take()?;
    f.leaked = f.open_fds.len() as u64;
    for fd in f.open_fds.keys() { unsafe { syscall(SYS_CLOSE, *fd); } }
    // Descriptors made by other system calls (dup, fcntl) count, too.
    let now = open_set();
    if let Some(i) = (0..256).find(|i| now[i / 64] >> (i % 64) & 1 == 1 && f.before[i / 64] >> (i % 64) & 1 == 0) {
        f.wrong.push("a descriptor made from the file's was never closed".into());
        unsafe { syscall(SYS_CLOSE, i as c_int); }
    }
    Some(f)
}

/// The number of descriptors that must be open now.
pub fn expect_open(n: usize) -> crate::cx::Res<()> {
    let g = fs();
    let f = g.as_ref().expect("installed");
    if f.open_fds.len() != n {
        return crate::cx::fail(if f.open_fds.len() > n { "descriptor-leak" } else { "descriptor" },
            format!("{} descriptors are open, {} expected", f.open_fds.len(), n));
    }
    Ok(())
}

/// The read end of a pipe that holds the data, and that nobody writes to any more.
unsafe fn full_pipe(data: &[u8]) -> Option<c_int> {
    if data.len() > 1 << 20 { return None }
    let mut p = [0 as c_int; 2];
    if syscall(SYS_PIPE2, p.as_mut_ptr(), O_CLOEXEC) != 0 { return None }
    if data.len() > 1 << 16 { syscall(SYS_FCNTL, p[1], F_SETPIPE_SZ, 1 << 20 as c_int); }
    syscall(SYS_FCNTL, p[1], F_SETFL, O_NONBLOCK);
    let mut off = 0;
    while off < data.len() {
        let n = syscall(SYS_WRITE, p[1], data.as_ptr().add(off), data.len() - off);
        if n <= 0 { break }
        off += n as usize;
    }
    syscall(SYS_CLOSE, p[1]);
    if off < data.len() { syscall(SYS_CLOSE, p[0]); return None }
    Some(p[0])
}

unsafe fn fail_with(e: i32) { *__errno_location() = e }

/// Some(fd or -1) if the path belongs to the simulation.
unsafe fn sim_open(path: *const c_char, flags: c_int) -> Option<c_int> {
    if !ACTIVE.load(Ordering::SeqCst) { return None }
    let key = CStr::from_ptr(path).to_bytes();
    if !key.starts_with(b"/sim-fs/") { return None }
    let prev = crate::alloc::pause();
    let p = String::from_utf8_lossy(key).into_owned();
    let mut g = fs();
    let r = match g.as_mut() {
        None => None,
        Some(f) => {
            f.open_calls += 1;
            if !f.asked.is_empty() && !f.asked.iter().any(|a| a == key) { f.wrong.push(format!("another file was opened: {}", p)) }
            let log = f.log.clone();
            if let Some(e) = f.open_errs.pop_front() {
                *f.faults.entry(format!("open_errno_{}", e)).or_insert(0) += 1;
                log.ev(60, e as u64, 0, || format!("open({}) -> errno {}", p, e));
                fail_with(e);
                Some(-1)
            } else if flags & O_ACCMODE != 0 && f.read_only != 0 && f.files.contains_key(key) {
                // Read permission only, or a file system mounted read-only.
                *f.faults.entry("open_for_writing_refused".into()).or_insert(0) += 1;
                let e = f.read_only;
                log.ev(60, e as u64, 1, || format!("open({}, for writing) -> errno {}", p, e));
                fail_with(e);
                Some(-1)
            } else if let Some(data) = f.files.get_mut(key) {
                if flags & O_TRUNC != 0 { data.clear(); f.wrong.push("the file was truncated".into()) }
                // What was read from a FIFO is gone.
                let from = f.taken.get(key).map_or(0, |n| *n);
                let mut start = 0;
                let fd = match if f.pipe { full_pipe(&data[from as usize..]) } else { None } {
                    Some(fd) => { start = from; *f.faults.entry("opened_a_fifo".into()).or_insert(0) += 1; fd }
                    None => {
                        let fd = syscall(SYS_MEMFD, b"sim\0".as_ptr(), 1 as c_uint) as c_int;
                        if fd < 0 { std::process::abort() }
                        let mut off = 0;
                        while off < data.len() {
                            let n = syscall(SYS_WRITE, fd, data.as_ptr().add(off), data.len() - off);
                            if n <= 0 { std::process::abort() }
                            off += n as usize;
                        }
                        syscall(SYS_LSEEK, fd, 0 as c_long, 0 as c_int);
                        fd
                    }
                };
                f.open_fds.insert(fd, start);
                f.paths.insert(fd, key.to_vec());
                f.closed.remove(&fd);
                f.opens += 1;
                log.ev(61, 0, 0, || format!("open({}) -> descriptor", p));
                Some(fd)
            } else {
                if flags & O_CREAT != 0 { f.wrong.push("a file was created".into()) }
                log.ev(60, 2, 0, || format!("open({}) -> ENOENT", p));
                fail_with(2);
                Some(-1)
            }
        }
    };
    drop(g);
    crate::alloc::resume(prev);
    r
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim_open(path, flags) { Some(r) => r, None => syscall(SYS_OPENAT, AT_FDCWD, path, flags, mode) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match sim_open(path, flags) { Some(r) => r, None => syscall(SYS_OPENAT, dir as c_long, path, flags, mode) as c_int }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int { openat(dir, path, flags, mode) }

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, len: usize) -> isize {
    if !ACTIVE.load(Ordering::SeqCst) { return syscall(SYS_READ, fd, buf, len) as isize }
    let prev = crate::alloc::pause();
    let r = sim_read(fd, buf, len);
    crate::alloc::resume(prev);
    match r {
        Some(Ok(n)) => n,
        Some(Err(e)) => { fail_with(e); -1 }
        None => syscall(SYS_READ, fd, buf, len) as isize,
    }
}

unsafe fn sim_read(fd: c_int, buf: *mut u8, len: usize) -> Option<Result<isize, i32>> {
    let mut g = fs();
    let f = g.as_mut()?;
    if !f.open_fds.contains_key(&fd) {
        if f.closed.contains(&fd) { f.wrong.push("read from a closed descriptor".into()); return Some(Err(9)) }
        return None;
    }
    f.reads += 1;
    if f.reads > f.budget { drop(g); std::process::abort() }
    let pos = match syscall(SYS_LSEEK, fd, 0 as c_long, 1 as c_int) { p if p >= 0 => p as u64, _ => f.open_fds[&fd] };
    let log = f.log.clone();
    let mut n = len;
    while let Some(x) = f.read_faults.front_mut() {
        if x.0 > pos { n = n.min((x.0 - pos) as usize); break }
        if x.2 == 0 { f.read_faults.pop_front(); continue }
        if x.2 != u64::MAX { x.2 -= 1 }
        let e = x.1;
        let k = if e == 0 { "zero_read".to_string() } else { format!("read_errno_{}", e) };
        *f.faults.entry(k).or_insert(0) += 1;
        log.ev(62, pos, e as u64, || format!("read at {} -> errno {}", pos, e));
        return Some(if e == 0 { Ok(0) } else { Err(e) });
    }
    match f.chunks {
        Chunks::Full => {}
        Chunks::One => n = n.min(1),
        Chunks::Fixed(k) => n = n.min(k.max(1)),
        Chunks::Random(m, ref mut r) => n = n.min(1 + r.below(m as u64) as usize),
        Chunks::Bounds(ref v) => {
            let i = v.partition_point(|&b| b as u64 <= pos);
            if let Some(&b) = v.get(i) { n = n.min((b as u64 - pos) as usize) }
        }
        Chunks::Mixed(ref mut r) => n = match r.below(3) { 0 => n.min(1), 1 => n.min(1 + r.below(600) as usize), _ => n },
    }
    if n < len { *f.faults.entry("short_read".into()).or_insert(0) += 1 }
    let got = syscall(SYS_READ, fd, buf, n) as isize;
    if got > 0 {
        f.open_fds.insert(fd, pos + got as u64);
        if f.pipe { if let Some(p) = f.paths.get(&fd) { f.taken.insert(p.clone(), pos + got as u64); } }
    }
    log.ev(63, pos, got as u64, || format!("read at {} -> {} bytes", pos, got));
    Some(Ok(got))
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if ACTIVE.load(Ordering::SeqCst) {
        let prev = crate::alloc::pause();
        let mut g = fs();
        let mut res = None;
        if let Some(f) = g.as_mut() {
            if f.open_fds.remove(&fd).is_some() {
                f.closes += 1;
                f.closed.insert(fd);
                let e = f.close_err;
                let log = f.log.clone();
                log.ev(64, e as u64, 0, || format!("close -> {}", if e == 0 { "ok".to_string() } else { format!("errno {}", e) }));
                if e != 0 { *f.faults.entry(format!("close_errno_{}", e)).or_insert(0) += 1 }
                syscall(SYS_CLOSE, fd);
                res = Some(e);
            } else if f.closed.contains(&fd) {
                f.wrong.push("a descriptor was closed twice".into());
                res = Some(9);
            }
        }
        drop(g);
        crate::alloc::resume(prev);
        match res {
            Some(0) => return 0,
            Some(e) => { fail_with(e); return -1 }
            None => {}
        }
    }
    syscall(SYS_CLOSE, fd) as c_int
}

/// The seam must really be in the path of the standard library.
pub fn selftest() -> Result<(), String> {
    use std::io::Read;
    let mut f = Fs::new(&Log::default());
    f.files.insert(b"/sim-fs/self".to_vec(), b"hello world".to_vec());
    f.open_errs.push_back(EINTR);
    f.chunks = Chunks::Fixed(4);
    install(f);
    let r = (|| -> Result<(), String> {
        let mut h = std::fs::File::open("/sim-fs/self").map_err(|e| e.to_string())?;
        let mut b = [0u8; 11];
        let n = h.read(&mut b).map_err(|e| e.to_string())?;
        if n != 4 || &b[..4] != b"hell" { return Err("short read not seen".into()) }
        Ok(())
    })();
    let f = take().unwrap();
    r?;
    if f.opens != 1 || f.open_calls != 2 || f.closes != 1 || f.reads != 1 {
        return Err(format!("the system-call seam is not in the path: {} opens, {} reads, {} closes", f.opens, f.reads, f.closes));
    }
    Ok(())
}
