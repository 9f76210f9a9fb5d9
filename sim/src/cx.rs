//! The context of one simulated run: its choices, its event log and its
//! statistics.

use crate::rng::Src;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Short and stable: the minimiser keeps it fixed.
    pub class: String,
    pub detail: String,
}

pub type Res<T> = Result<T, Violation>;

pub fn fail<T>(class: &str, detail: impl Into<String>) -> Res<T> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !($c) { return $crate::cx::fail($class, format!($($a)*)) } };
}

#[derive(Default)]
pub struct LogInner { pub on: bool, pub lines: Vec<String>, pub hash: u64, pub events: u64 }

/// The event log of a run. Every event is hashed; the text is kept only when
/// the run is being traced.
#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<LogInner>>);

impl Log {
    pub fn ev(&self, tag: u64, a: u64, b: u64, text: impl FnOnce() -> String) {
        let mut l = self.0.lock().unwrap_or_else(|e| e.into_inner());
        l.hash = (l.hash ^ tag.wrapping_mul(0x9e37_79b9_7f4a_7c15)).rotate_left(23)
            .wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ a.wrapping_mul(0x94d0_49bb_1331_11eb) ^ b.rotate_left(40);
        l.events += 1;
        if l.on && l.lines.len() < 4000 { let t = text(); l.lines.push(t) }
    }
    pub fn on(&self) -> bool {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).on
    }
    pub fn hash(&self) -> u64 { self.0.lock().unwrap_or_else(|e| e.into_inner()).hash }
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub reads: u64,
    pub nontrivial: bool,
}

pub fn bump(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    if let Some(v) = m.get_mut(k) { *v += n } else { m.insert(k.to_string(), n); }
}

pub struct Cx {
    pub src: Src,
    pub thorough: bool,
    pub log: Log,
    pub st: Stats,
}

impl Cx {
    pub fn new(src: Src, thorough: bool, trace: bool) -> Cx {
        let log = Log::default();
        log.0.lock().unwrap().on = trace;
        Cx { src, thorough, log, st: Stats::default() }
    }
    pub fn count(&mut self, k: &str, n: u64) { bump(&mut self.st.counts, k, n) }
    pub fn note(&self, text: impl FnOnce() -> String) {
        // Descriptions do not enter the hash: the draws already determine them.
        let mut l = self.log.0.lock().unwrap_or_else(|e| e.into_inner());
        if l.on { let t = text(); l.lines.push(t) }
    }
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    }
    h ^ b.len() as u64
}

pub fn hash_i32(mut h: u64, v: &[i32]) -> u64 {
    for &x in v { h = (h ^ x as u32 as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29) }
    h ^ v.len() as u64
}
