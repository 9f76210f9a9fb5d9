//! The reference: an independent frame decoder and metadata parser over a byte
//! array. It reads the format by position, checks every rule the format has,
//! and computes in 64 bits.

use crate::bits::*;
use crate::gen::{Content, Si};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why { Eof, Sync, Crc, Structure, Unsupported }

#[derive(Clone, Debug)]
pub struct MFrame {
    pub start: usize,
    pub end: usize,
    pub header_len: usize,
    pub bs: u32,
    pub ch: u32,
    pub bps: u32,
    pub variable: bool,
    pub number: u64,
    pub data: Vec<i32>,
    /// Something no encoder writes: a value outside its width, or a number
    /// coding beyond 36 bits. The format does not say what it decodes to.
    pub odd: bool,
}

#[derive(Clone, Debug)]
pub enum MRes { Eof, Frame(MFrame), Bad(Why) }

struct Header { len: usize, bs: u32, ca: u32, bpsc: u32, variable: bool, number: u64 }

fn parse_header(b: &[u8]) -> Result<Header, Why> {
    let at = |i: usize| b.get(i).copied().ok_or(Why::Eof);
    let (b0, b1) = (at(0)?, at(1)?);
    if b0 != 0xff || b1 & 0xfc != 0xf8 { return Err(Why::Sync) }
    if b1 & 2 != 0 { return Err(Why::Structure) }
    let b2 = at(2)?;
    let (bc, sc) = (b2 >> 4, b2 & 15);
    if bc == 0 || sc == 15 { return Err(Why::Structure) }
    let b3 = at(3)?;
    let (ca, bpsc) = ((b3 >> 4) as u32, (b3 >> 1 & 7) as u32);
    if ca > 10 || bpsc == 3 || bpsc == 7 || b3 & 1 != 0 { return Err(Why::Structure) }
    let lead = at(4)?;
    let ones = lead.leading_ones() as usize;
    if ones == 1 || ones == 8 { return Err(Why::Structure) }
    let extra = if ones == 0 { 0 } else { ones - 1 };
    let mut number = if ones == 0 { lead as u64 } else if ones >= 7 { 0 } else { (lead & (0x7f >> ones)) as u64 };
    let mut p = 5;
    for _ in 0..extra {
        let x = at(p)?;
        p += 1;
        if x & 0xc0 != 0x80 { return Err(Why::Structure) }
        number = number << 6 | (x & 0x3f) as u64;
    }
    let variable = b1 & 1 == 1;
    if !variable && number > 0x7fff_ffff { return Err(Why::Structure) }
    let bs = match bc {
        1 => 192,
        2..=5 => 576 << (bc - 2),
        6 => { let v = at(p)? as u32 + 1; p += 1; v }
        7 => { let v = (at(p)? as u32) << 8 | at(p + 1)? as u32; p += 2; if v == 0xffff { return Err(Why::Structure) } v + 1 }
        _ => 256 << (bc - 8),
    };
    match sc { 12 => { at(p)?; p += 1 } 13 | 14 => { at(p + 1)?; p += 2 } _ => {} }
    let c = at(p)?;
    if crc8(&b[..p]) != c { return Err(Why::Crc) }
    Ok(Header { len: p + 1, bs, ca, bpsc, variable, number })
}

pub fn decode_frame(all: &[u8], start: usize) -> MRes {
    if start >= all.len() { return MRes::Eof }
    match frame(&all[start..], start) {
        Ok(f) => MRes::Frame(f),
        Err(w) => MRes::Bad(w),
    }
}

fn frame(b: &[u8], start: usize) -> Result<MFrame, Why> {
    let h = parse_header(b)?;
    let bps = match h.bpsc { 0 => return Err(Why::Unsupported), 1 => 8, 2 => 12, 4 => 16, 5 => 20, _ => 24u32 };
    let n_sub = if h.ca < 8 { h.ca + 1 } else { 2 };
    let mut r = BitR { b, bit: h.len * 8 };
    let mut odd = false;
    let mut subs: Vec<Vec<i64>> = Vec::new();
    for c in 0..n_sub {
        let w = match (h.ca, c) { (8, 1) | (9, 0) | (10, 1) => bps + 1, _ => bps };
        subs.push(subframe(&mut r, h.bs as usize, w, &mut odd)?);
    }
    let body_end = (r.bit + 7) / 8;
    if body_end + 2 > b.len() { return Err(Why::Eof) }
    let c = (b[body_end] as u16) << 8 | b[body_end + 1] as u16;
    if crc16(&b[..body_end]) != c { return Err(Why::Crc) }
    let n = h.bs as usize;
    match h.ca {
        8 => { let (l, s) = (subs[0].clone(), subs[1].clone()); for i in 0..n { subs[1][i] = l[i] - s[i] } }
        9 => { let (s, r) = (subs[0].clone(), subs[1].clone()); for i in 0..n { subs[0][i] = s[i] + r[i] } }
        10 => {
            let (m, s) = (subs[0].clone(), subs[1].clone());
            for i in 0..n {
                let m2 = m[i] * 2 + (s[i] & 1);
                subs[0][i] = (m2 + s[i]) >> 1;
                subs[1][i] = (m2 - s[i]) >> 1;
            }
        }
        _ => {}
    }
    let (lo, hi) = (-(1i64 << (bps - 1)), (1i64 << (bps - 1)) - 1);
    if subs.iter().any(|s| s.iter().any(|&x| x < lo || x > hi)) { odd = true }
    let data = subs.iter().flat_map(|s| s.iter().map(|&x| x as i32)).collect();
    Ok(MFrame { start, end: start + body_end + 2, header_len: h.len, bs: h.bs, ch: n_sub, bps, variable: h.variable, number: h.number, data, odd })
}

pub fn subframe(r: &mut BitR, bs: usize, bps: u32, odd: &mut bool) -> Result<Vec<i64>, Why> {
    let e = || Why::Eof;
    if r.get(1).ok_or_else(e)? != 0 { return Err(Why::Structure) }
    let code = r.get(6).ok_or_else(e)? as u32;
    let ok = code <= 1 || (8..=12).contains(&code) || code >= 32;
    if !ok { return Err(Why::Structure) }
    let wasted = if r.get(1).ok_or_else(e)? == 1 { r.unary().ok_or_else(e)? + 1 } else { 0 };
    if wasted >= bps as u64 { return Err(Why::Structure) }
    let wasted = wasted as u32;
    let b = bps - wasted;
    let mut v: Vec<i64> = Vec::with_capacity(bs);
    match code {
        0 => { let x = r.signed(b).ok_or_else(e)?; v.resize(bs, x) }
        1 => for _ in 0..bs { v.push(r.signed(b).ok_or_else(e)?) },
        _ => {
            let order = if code < 32 { code as usize - 8 } else { code as usize - 31 };
            if order > bs { return Err(Why::Structure) }
            for _ in 0..order { v.push(r.signed(b).ok_or_else(e)?) }
            let mut coef: Vec<i64> = Vec::new();
            let mut shift = 0;
            if code >= 32 {
                let p = r.get(4).ok_or_else(e)? as u32 + 1;
                if p == 16 { return Err(Why::Structure) }
                let s = r.signed(5).ok_or_else(e)?;
                if s < 0 { return Err(Why::Unsupported) }
                shift = s as u32;
                for _ in 0..order { coef.push(r.signed(p).ok_or_else(e)?) }
            } else {
                coef.extend_from_slice(match order { 0 => &[][..], 1 => &[1], 2 => &[2, -1], 3 => &[3, -3, 1], _ => &[4, -6, 4, -1] });
            }
            let res = residual(r, bs, order, odd)?;
            let (lo, hi) = (-(1i64 << (b - 1)), (1i64 << (b - 1)) - 1);
            for x in res {
                let n = v.len();
                let mut p: i128 = 0;
                for (k, c) in coef.iter().enumerate() { p += *c as i128 * v[n - 1 - k] as i128 }
                let y = (p >> shift) + x as i128;
                if y < lo as i128 || y > hi as i128 { *odd = true }
                // Once out of range the value no longer means anything; keep it small.
                v.push(y as i32 as i64);
            }
        }
    }
    for x in v.iter_mut() { *x = (*x << wasted) as i32 as i64 }
    Ok(v)
}

fn residual(r: &mut BitR, bs: usize, warm: usize, odd: &mut bool) -> Result<Vec<i64>, Why> {
    let e = || Why::Eof;
    let method = r.get(2).ok_or_else(e)?;
    if method > 1 { return Err(Why::Structure) }
    let porder = r.get(4).ok_or_else(e)? as u32;
    if bs % (1 << porder) != 0 { return Err(Why::Structure) }
    let plen = bs >> porder;
    if plen < warm { return Err(Why::Structure) }
    let (kb, esc) = if method == 0 { (4, 15) } else { (5, 31) };
    let mut out = Vec::with_capacity(bs - warm);
    for p in 0..1usize << porder {
        let k = r.get(kb).ok_or_else(e)?;
        if k == esc { return Err(Why::Unsupported) }
        for _ in 0..if p == 0 { plen - warm } else { plen } {
            let q = r.unary().ok_or_else(e)?;
            let rem = r.get(k as u32).ok_or_else(e)?;
            let z = (q as u128) << k | rem as u128;
            if z > u32::MAX as u128 { *odd = true }
            let z = z as u64 & 0xffff_ffff;
            out.push(if z & 1 == 1 { -((z >> 1) as i64) - 1 } else { (z >> 1) as i64 });
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- metadata

#[derive(Clone, Debug)]
pub struct MBlock { pub start: usize, pub end: usize, pub btype: u8, pub last: bool, pub content: Content }

fn be(b: &[u8], at: usize, n: usize) -> Option<u64> {
    if at + n > b.len() { return None }
    Some(b[at..at + n].iter().fold(0, |a, &x| a << 8 | x as u64))
}
fn le32(b: &[u8], at: usize) -> Option<u64> {
    if at + 4 > b.len() { return None }
    Some(b[at..at + 4].iter().rev().fold(0, |a, &x| a << 8 | x as u64))
}

/// Parses the block whose header is at `at`.
pub fn parse_block(b: &[u8], at: usize) -> Result<MBlock, Why> {
    let h = be(b, at, 4).ok_or(Why::Eof)?;
    let last = h >> 31 == 1;
    let btype = (h >> 24 & 0x7f) as u8;
    let len = (h & 0xff_ffff) as usize;
    let (end, content) = parse_body(b, at + 4, btype, len)?;
    Ok(MBlock { start: at, end, btype, last, content })
}

pub fn parse_body(b: &[u8], at: usize, btype: u8, len: usize) -> Result<(usize, Content), Why> {
    let end = at + len;
    let c = match btype {
        0 => {
            if len != 34 { return Err(Why::Structure) }
            if end > b.len() { return Err(Why::Eof) }
            let g = |o: usize, n: usize| be(b, at + o, n).unwrap();
            let packed = g(10, 8);
            let si = Si {
                min_bs: g(0, 2) as u16, max_bs: g(2, 2) as u16, min_fs: g(4, 3) as u32, max_fs: g(7, 3) as u32,
                rate: (packed >> 44) as u32, ch: (packed >> 41 & 7) as u32 + 1, bps: (packed >> 36 & 31) as u32 + 1,
                samples: packed & 0xf_ffff_ffff, md5: b[at + 18..at + 34].try_into().unwrap(),
            };
            if si.min_bs > si.max_bs || si.min_bs < 16 { return Err(Why::Structure) }
            if si.max_fs != 0 && si.min_fs > si.max_fs { return Err(Why::Structure) }
            if si.rate == 0 || si.rate > 655_350 { return Err(Why::Structure) }
            Content::StreamInfo(si)
        }
        2 => {
            if len < 4 { return Err(Why::Structure) }
            if len > 10 << 20 { return Err(Why::Unsupported) }
            if end > b.len() { return Err(Why::Eof) }
            Content::App { id: be(b, at, 4).unwrap() as u32, data: b[at + 4..end].to_vec() }
        }
        4 => {
            if len < 8 { return Err(Why::Structure) }
            if len > 10 << 20 { return Err(Why::Unsupported) }
            vorbis(b, at, len)?
        }
        1 | 3 | 5 | 6 => { if end > b.len() { return Err(Why::Eof) } Content::Padding(len as u32) }
        127 => return Err(Why::Structure),
        _ => { if end > b.len() { return Err(Why::Eof) } Content::Reserved }
    };
    Ok((end, c))
}

fn vorbis(b: &[u8], at: usize, len: usize) -> Result<Content, Why> {
    let end = at + len;
    let s = |x: &[u8]| String::from_utf8(x.to_vec()).map_err(|_| Why::Structure);
    let vl = le32(b, at).ok_or(Why::Eof)? as usize;
    if vl > len - 8 { return Err(Why::Structure) }
    let p = at + 4;
    if p + vl > b.len() { return Err(Why::Eof) }
    let vendor = s(&b[p..p + vl])?;
    let mut p = p + vl;
    let n = le32(b, p).ok_or(Why::Eof)? as usize;
    p += 4;
    if n > (len - 8 - vl) / 4 { return Err(Why::Structure) }
    let mut comments = Vec::new();
    for _ in 0..n {
        if p + 4 > end { return Err(Why::Structure) }
        let cl = le32(b, p).ok_or(Why::Eof)? as usize;
        p += 4;
        if cl > end - p { return Err(Why::Structure) }
        if p + cl > b.len() { return Err(Why::Eof) }
        let c = &b[p..p + cl];
        p += cl;
        if cl == 0 { comments.push(String::new()); continue }
        let eq = c.iter().position(|&x| x == b'=').ok_or(Why::Structure)?;
        if c[..eq].iter().any(|&x| x < 0x20 || x > 0x7d) { return Err(Why::Structure) }
        comments.push(s(c)?);
    }
    if p != end { return Err(Why::Structure) }
    Ok(Content::Vorbis { vendor, comments })
}

/// What opening a stream for audio must report.
#[derive(Clone, Debug)]
pub struct MOpen { pub si: Si, pub vorbis: Option<(String, Vec<String>)>, pub audio: usize, pub blocks: Vec<MBlock> }

pub fn parse_open(b: &[u8]) -> Result<MOpen, Why> {
    if b.len() < 4 { return Err(Why::Eof) }
    if &b[..4] != b"fLaC" { return Err(Why::Structure) }
    let mut at = 4;
    let mut blocks: Vec<MBlock> = Vec::new();
    let mut vorbis = None;
    loop {
        let m = parse_block(b, at)?;
        at = m.end;
        match m.content {
            Content::StreamInfo(_) => if !blocks.is_empty() { return Err(Why::Structure) },
            _ if blocks.is_empty() => return Err(Why::Structure),
            Content::Vorbis { ref vendor, ref comments } => {
                if vorbis.is_some() { return Err(Why::Structure) }
                vorbis = Some((vendor.clone(), comments.iter().filter(|c| !c.is_empty()).cloned().collect()));
            }
            _ => {}
        }
        let last = m.last;
        blocks.push(m);
        if last { break }
    }
    let si = match blocks[0].content { Content::StreamInfo(ref s) => s.clone(), _ => unreachable!() };
    Ok(MOpen { si, vorbis, audio: at, blocks })
}
