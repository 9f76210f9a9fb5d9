//! Bit writer, bit reader over a whole byte array, and bitwise checksums; all
//! independent of the code under test.

pub struct BitW { pub out: Vec<u8>, acc: u64, n: u32 }

impl BitW {
    pub fn new() -> BitW { BitW { out: Vec::new(), acc: 0, n: 0 } }
    pub fn put(&mut self, v: u64, bits: u32) {
        let mut left = bits;
        while left > 0 {
            let take = left.min(8 - self.n);
            let part = (v >> (left - take)) & ((1 << take) - 1);
            self.acc = (self.acc << take) | part;
            self.n += take;
            left -= take;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    pub fn put_signed(&mut self, v: i64, bits: u32) {
        let mask = if bits >= 64 { !0 } else { (1u64 << bits) - 1 };
        self.put(v as u64 & mask, bits)
    }
    pub fn unary(&mut self, mut q: u64) {
        while q >= 32 { self.put(0, 32); q -= 32; }
        self.put(1, q as u32 + 1)
    }
    pub fn align(&mut self) { while self.n != 0 { self.put(0, 1) } }
    pub fn align_with(&mut self, fill: u64) { let k = (8 - self.n) % 8; self.put(fill & ((1 << k) - 1), k) }
}

pub struct BitR<'a> { pub b: &'a [u8], pub bit: usize }

impl<'a> BitR<'a> {
    pub fn get(&mut self, n: u32) -> Option<u64> {
        if self.bit + n as usize > self.b.len() * 8 { return None }
        let mut v = 0u64;
        let mut left = n as usize;
        while left > 0 {
            let off = self.bit & 7;
            let take = left.min(8 - off);
            let byte = self.b[self.bit >> 3] as u64;
            v = (v << take) | ((byte >> (8 - off - take)) & ((1 << take) - 1));
            self.bit += take;
            left -= take;
        }
        Some(v)
    }
    pub fn signed(&mut self, n: u32) -> Option<i64> {
        let v = self.get(n)?;
        if n == 0 { return Some(0) }
        Some(((v << (64 - n)) as i64) >> (64 - n))
    }
    pub fn unary(&mut self) -> Option<u64> {
        let mut q = 0;
        loop {
            if self.bit & 7 == 0 && self.bit / 8 < self.b.len() && self.b[self.bit / 8] == 0 {
                self.bit += 8;
                q += 8;
                continue;
            }
            if self.get(1)? == 1 { return Some(q) }
            q += 1;
        }
    }
}

pub fn crc8(b: &[u8]) -> u8 {
    let mut r = 0u8;
    for &x in b {
        r ^= x;
        for _ in 0..8 { r = if r & 0x80 != 0 { (r << 1) ^ 0x07 } else { r << 1 } }
    }
    r
}

pub fn crc16(b: &[u8]) -> u16 {
    let mut r = 0u16;
    for &x in b {
        r ^= (x as u16) << 8;
        for _ in 0..8 { r = if r & 0x8000 != 0 { (r << 1) ^ 0x8005 } else { r << 1 } }
    }
    r
}

/// The variable-length coding of frame and sample numbers.
pub fn varint(v: u64) -> Vec<u8> {
    if v < 0x80 { return vec![v as u8] }
    let mut n = 2;
    while n < 7 && v >= 1u64 << (5 * n + 1) { n += 1 }
    let mut out = vec![0u8; n];
    let mut x = v;
    for i in (1..n).rev() {
        out[i] = 0x80 | (x & 0x3f) as u8;
        x >>= 6;
    }
    let lead = if n == 7 { 0xfe } else { !((1u16 << (8 - n)) - 1) as u8 };
    out[0] = lead | x as u8;
    out
}
