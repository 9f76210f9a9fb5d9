//! Steps inside the code under test: basic blocks, loads and stores, counted by
//! the instrumentation of the "stepped" build (see steps.c). A seeded allowance
//! decides after which step the running thread is preempted. In the other builds
//! nothing is counted.

use std::cell::{Cell, RefCell};

pub const ON: bool = cfg!(dst_steps);

#[cfg(dst_steps)]
extern "C" {
    fn dst_steps_arm(a: i32) -> i32;
    fn dst_steps_allow(n: u64);
    fn dst_steps_total() -> u64;
    fn dst_steps_reset();
}
#[cfg(not(dst_steps))]
mod off {
    pub unsafe fn dst_steps_arm(_: i32) -> i32 { 0 }
    pub unsafe fn dst_steps_allow(_: u64) {}
    pub unsafe fn dst_steps_total() -> u64 { 0 }
    pub unsafe fn dst_steps_reset() {}
}
#[cfg(not(dst_steps))]
use off::*;

type Handler = Box<dyn FnMut() -> u64>;

thread_local! { static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) } }

/// Whether this thread is in the code under test from here on; returns what it was.
pub fn arm(a: bool) -> bool { unsafe { dst_steps_arm(a as i32) != 0 } }

pub fn total() -> u64 { unsafe { dst_steps_total() } }

/// From now on, `h` is called after `first` steps of this thread; it returns
/// after how many more it is called again.
pub fn preempt(first: u64, h: Handler) {
    HANDLER.with(|x| *x.borrow_mut() = Some(h));
    unsafe { dst_steps_reset(); dst_steps_allow(first.max(1)) }
}

pub fn free() {
    unsafe { dst_steps_allow(u64::MAX) }
    HANDLER.with(|x| x.borrow_mut().take());
}

// ---------------------------------------------------------------- bounded work

/// What any one operation may take, and what it may take for each byte the
/// reader delivered to it; about ten times what claxon needs.
const WORK_BASE: u64 = 1_000_000_000;
const WORK_BYTE: u64 = 1_000;
/// The exit code of a process that went beyond.
pub const WORK_EXIT: i32 = 86;

thread_local! {
    static LIMITED: Cell<bool> = const { Cell::new(false) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static MOST: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

extern "C" { fn _exit(code: i32) -> !; }

/// From now on the work of every operation of this thread is bounded.
pub fn limit_work(on: bool) {
    if !ON { return }
    LIMITED.with(|l| l.set(on));
    if on {
        MOST.with(|m| m.set((0, 0)));
        const PERIOD: u64 = 1 << 22;
        preempt(PERIOD, Box::new(|| {
            if total() - STEPS.with(|s| s.get()) > WORK_BASE + WORK_BYTE * BYTES.with(|b| b.get()) { unsafe { _exit(WORK_EXIT) } }
            PERIOD
        }))
    } else {
        free()
    }
}

/// An operation begins.
pub fn begin_op() {
    if LIMITED.with(|l| l.get()) {
        STEPS.with(|s| s.set(total()));
        BYTES.with(|b| b.set(0));
    }
}

/// An operation has ended.
pub fn end_op() {
    if LIMITED.with(|l| l.get()) {
        let d = total() - STEPS.with(|s| s.get());
        let b = BYTES.with(|b| b.get());
        MOST.with(|m| { let (x, y) = m.get(); m.set((x.max(d), if b > 4096 { y.max(d / b) } else { y })) });
    }
}

/// The most steps of one operation, and per byte in operations on more than 4096.
pub fn most() -> (u64, u64) { MOST.with(|m| m.get()) }

/// The reader has delivered this much.
pub fn delivered(n: usize) { BYTES.with(|b| b.set(b.get() + n as u64)) }

#[no_mangle]
pub extern "C" fn dst_steps_expired() -> u64 {
    HANDLER.with(|x| match x.try_borrow_mut() {
        Ok(mut h) => match *h { Some(ref mut f) => f().max(1), None => u64::MAX },
        Err(_) => u64::MAX,
    })
}
