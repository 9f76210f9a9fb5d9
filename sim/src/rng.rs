//! The only source of choice in a run: a PRNG behind a tape of draws.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u64;
        (lo as i128 + self.below(span) as i128) as i64
    }
    pub fn bits(&mut self, n: u32) -> u64 {
        if n == 0 { 0 } else { self.next() >> (64 - n) }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next()
}

/// Draws come either from the PRNG (and are recorded) or from a tape.
pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// When set, every draw is appended to this file at once, so the tape of a
    /// run that kills its process survives.
    pub spill: Option<std::fs::File>,
    /// Values for the first draws of a run (scheduled special runs).
    pub forced: Vec<u64>,
}

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: vec![], pos: 0, rec: vec![], spill: None, forced: vec![] }
    }
    pub fn from_tape(tape: Vec<u64>) -> Src {
        Src { rng: None, tape, pos: 0, rec: vec![], spill: None, forced: vec![] }
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.rng {
            Some(ref mut r) => {
                let v = r.below(n);
                if self.pos < self.forced.len() { self.forced[self.pos].min(n - 1) } else { v }
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(ref mut f) = self.spill {
            use std::io::Write;
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
        v
    }
    /// Inclusive range; the low end is the simplest value.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; false is the simplest value.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u64) as usize]
    }
    /// Index drawn with the given weights; the first index is the simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, &w) in ws.iter().enumerate() {
            if v < w { return i }
            v -= w;
        }
        ws.len() - 1
    }
    /// A PRNG for bulk data, seeded by one draw.
    pub fn sub(&mut self) -> Rng {
        Rng::new(self.draw(1 << 32))
    }
}
