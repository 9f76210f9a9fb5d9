//! The simulated allocator: fills fresh and freed memory with the pattern of
//! the current world, puts a red zone behind every allocation, and accounts for
//! what the code under test allocates. Per-thread, so parallel use is safe.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct SimAlloc;

const RZ: usize = 32;
const POISON_MAX: usize = 32 << 20;
/// A single allocation beyond this fails, as on a small machine.
const ALLOC_MAX: usize = 1 << 30;

struct Acc {
    on: Cell<bool>,
    poison: Cell<u8>,
    live: Cell<i64>,
    peak: Cell<i64>,
    count: Cell<u64>,
    total: Cell<u64>,
    largest: Cell<u64>,
}

thread_local! {
    static ACC: Acc = const { Acc {
        on: Cell::new(false), poison: Cell::new(0xa5), live: Cell::new(0), peak: Cell::new(0),
        count: Cell::new(0), total: Cell::new(0), largest: Cell::new(0),
    } };
}

pub static REDZONE_BROKEN: AtomicBool = AtomicBool::new(false);

fn padded(l: Layout) -> Layout {
    Layout::from_size_align(l.size() + RZ, l.align()).unwrap()
}

unsafe fn arm(p: *mut u8, l: Layout, fill: bool) {
    let (on, b) = ACC.try_with(|a| (a.on.get(), a.poison.get())).unwrap_or((false, 0xa5));
    if fill && on && l.size() <= POISON_MAX {
        std::ptr::write_bytes(p, b, l.size());
    }
    std::ptr::write_bytes(p.add(l.size()), b, RZ);
    *p.add(l.size() + RZ - 1) = !b;
    if on {
        let _ = ACC.try_with(|a| {
            let live = a.live.get() + l.size() as i64;
            a.live.set(live);
            if live > a.peak.get() { a.peak.set(live) }
            a.count.set(a.count.get() + 1);
            a.total.set(a.total.get() + l.size() as u64);
            if l.size() as u64 > a.largest.get() { a.largest.set(l.size() as u64) }
        });
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_MAX { return std::ptr::null_mut() }
        let p = System.alloc(padded(l));
        if !p.is_null() { arm(p, l, true) }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_MAX { return std::ptr::null_mut() }
        let p = System.alloc_zeroed(padded(l));
        if !p.is_null() { arm(p, l, false) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let z = std::slice::from_raw_parts(p.add(l.size()), RZ);
        let b = z[0];
        if z[..RZ - 1].iter().any(|&x| x != b) || z[RZ - 1] != !b {
            REDZONE_BROKEN.store(true, Ordering::SeqCst);
        }
        let _ = ACC.try_with(|a| {
            if a.on.get() {
                a.live.set(a.live.get() - l.size() as i64);
                if l.size() <= 1 << 20 {
                    std::ptr::write_bytes(p, a.poison.get().wrapping_add(1), l.size());
                }
            }
        });
        System.dealloc(p, padded(l))
    }
}

/// What was allocated between `begin` and `end` on this thread.
#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub count: u64, pub total: u64, pub peak: u64, pub largest: u64,
    /// Allocated and not freed again (negative: the opposite).
    pub live: i64,
}

pub fn set_world(poison: u8) {
    ACC.with(|a| a.poison.set(poison));
}

pub fn begin() {
    ACC.with(|a| {
        a.live.set(0); a.peak.set(0); a.count.set(0); a.total.set(0); a.largest.set(0);
        a.on.set(true);
    });
}

pub fn end() -> Usage {
    ACC.with(|a| {
        a.on.set(false);
        Usage { count: a.count.get(), total: a.total.get(), peak: a.peak.get().max(0) as u64, largest: a.largest.get(), live: a.live.get() }
    })
}

/// Suspends accounting and poisoning while harness code runs inside the
/// library (the simulated reader); returns the previous state.
pub fn pause() -> bool {
    ACC.with(|a| a.on.replace(false))
}
pub fn resume(prev: bool) {
    ACC.with(|a| a.on.set(prev));
}
pub fn take_redzone() -> bool {
    REDZONE_BROKEN.swap(false, Ordering::SeqCst)
}
