//! Generator of well-formed FLAC streams over the whole supported format, with
//! the samples and metadata they encode; and of malformed but checksummed
//! ("wild") frames.

use crate::bits::*;
use crate::rng::{Rng, Src};

#[derive(Clone, Debug, PartialEq)]
pub struct Si {
    pub min_bs: u16, pub max_bs: u16, pub min_fs: u32, pub max_fs: u32,
    pub rate: u32, pub ch: u32, pub bps: u32, pub samples: u64, pub md5: [u8; 16],
}

impl Si {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = BitW::new();
        w.put(self.min_bs as u64, 16);
        w.put(self.max_bs as u64, 16);
        w.put(self.min_fs as u64, 24);
        w.put(self.max_fs as u64, 24);
        w.put(self.rate as u64, 20);
        w.put(self.ch as u64 - 1, 3);
        w.put(self.bps as u64 - 1, 5);
        w.put(self.samples, 36);
        for &b in &self.md5 { w.put(b as u64, 8) }
        w.out
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    StreamInfo(Si),
    Padding(u32),
    App { id: u32, data: Vec<u8> },
    Vorbis { vendor: String, comments: Vec<String> },
    Reserved,
}

#[derive(Clone, Debug)]
pub struct Meta { pub start: usize, pub end: usize, pub btype: u8, pub content: Content }

#[derive(Clone, Debug)]
pub struct Frame {
    pub start: usize,
    pub end: usize,
    pub header_len: usize,
    /// Sample number of the first sample.
    pub time: u64,
    pub bs: u32,
    pub ch: u32,
    pub bps: u32,
    /// Channel-major samples.
    pub data: Vec<i32>,
}

impl Frame {
    pub fn interleaved(&self, out: &mut Vec<i32>) {
        let bs = self.bs as usize;
        for i in 0..bs { for c in 0..self.ch as usize { out.push(self.data[c * bs + i]) } }
    }
}

#[derive(Clone, Debug)]
pub struct Stream {
    pub bytes: Vec<u8>,
    pub si: Si,
    pub meta: Vec<Meta>,
    pub audio: usize,
    pub frames: Vec<Frame>,
    pub variable: bool,
}

impl Stream {
    /// Offsets at which something begins or ends.
    pub fn boundaries(&self) -> Vec<usize> {
        let mut v = vec![0, 4];
        for m in &self.meta { v.push(m.start + 4); v.push(m.end) }
        for f in &self.frames { v.push(f.start + f.header_len); v.push(f.end) }
        v.sort();
        v.dedup();
        v
    }
    pub fn vorbis(&self) -> Option<(&String, Vec<&String>)> {
        self.meta.iter().find_map(|m| match m.content {
            Content::Vorbis { ref vendor, ref comments } =>
                Some((vendor, comments.iter().filter(|c| !c.is_empty()).collect())),
            _ => None,
        })
    }
    /// The same stream with other letters in the texts of its Vorbis comment.
    pub fn twin(&self, r: &mut Rng) -> Stream {
        let mut t = self.clone();
        for m in t.meta.iter_mut() {
            if let Content::Vorbis { ref mut vendor, ref mut comments } = m.content {
                let mut alter = |s: &mut String, from: usize| {
                    let (a, b) = s.split_at(from);
                    let b: String = b.chars().map(|c| if c.is_ascii_alphanumeric() && r.below(3) == 0 { match c { 'z' => 'a', 'Z' => 'A', '9' => '0', c => (c as u8 + 1) as char } } else { c }).collect();
                    let x = format!("{}{}", a, b);
                    *s = x;
                };
                alter(vendor, 0);
                for c in comments.iter_mut() { if let Some(i) = c.find('=') { alter(c, i + 1) } }
                let raw: Vec<Vec<u8>> = comments.iter().map(|c| c.clone().into_bytes()).collect();
                let e = encode_vorbis(vendor.as_bytes(), &raw);
                t.bytes[m.start + 4..m.end].copy_from_slice(&e);
            }
        }
        t
    }
    pub fn vorbis_end(&self) -> Option<usize> {
        self.meta.iter().find_map(|m| match m.content {
            Content::Vorbis { .. } => Some(m.end),
            _ => None,
        })
    }
}

pub type Probe<'a> = &'a mut dyn FnMut(&'static str);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size { Tiny, Small, Medium, Large }

#[derive(Clone, Copy)]
pub struct StreamOpts {
    pub size: Option<Size>,
    pub meta: MetaLevel,
    pub min_frames: u64,
    /// Keep blocks so small that per-byte sweeps are affordable.
    pub numbers_big: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum MetaLevel { Light, Rich }

impl Default for StreamOpts {
    fn default() -> StreamOpts {
        StreamOpts { size: None, meta: MetaLevel::Light, min_frames: 0, numbers_big: false }
    }
}

const RATES: [(u32, u64); 11] = [
    (88_200, 1), (176_400, 2), (192_000, 3), (8_000, 4), (16_000, 5), (22_050, 6),
    (24_000, 7), (32_000, 8), (44_100, 9), (48_000, 10), (96_000, 11),
];

const BPS: [u32; 5] = [16, 8, 12, 20, 24];

pub fn gen_size(src: &mut Src) -> Size {
    [Size::Tiny, Size::Small, Size::Medium, Size::Large][src.weighted(&[45, 35, 17, 3])]
}

fn block_size(src: &mut Src, size: Size) -> u32 {
    match size {
        Size::Tiny => src.range(1, 24) as u32,
        Size::Small => match src.weighted(&[3, 2, 2]) {
            0 => src.range(16, 200) as u32,
            1 => src.pick(&[192, 256, 16, 32, 64, 128]),
            _ => src.range(200, 700) as u32,
        },
        Size::Medium => match src.weighted(&[3, 2]) {
            0 => src.pick(&[576, 1152, 2304, 4608, 256, 512, 1024, 2048, 4096]),
            _ => src.range(300, 5000) as u32,
        },
        Size::Large => match src.weighted(&[2, 2, 1]) {
            0 => src.pick(&[8192, 16384, 32768]),
            1 => src.pick(&[65535, 65534, 65280, 32767, 32769, 49152]),
            _ => src.range(5000, 65535) as u32,
        },
    }
}

/// A starting number near the edges of the variable-length coding.
fn start_number(src: &mut Src, max: u64) -> u64 {
    let v = match src.weighted(&[10, 4, 6, 1]) {
        0 => 0,
        1 => src.range(0, 300),
        3 => { let b = src.range(8, 36) as u32; (1u64 << (b - 1)) | src.range(0, (1u64 << (b - 1)) - 1) }
        _ => {
            let bits = src.pick(&[7u32, 11, 16, 21, 26, 31, 32, 35, 36, 8]);
            let base = 1u64 << bits;
            let d = src.range(0, 6);
            (base + d).saturating_sub(3)
        }
    };
    v.min(max)
}

pub fn gen_stream(src: &mut Src, o: StreamOpts, probe: Probe) -> Stream {
    let size = match o.size { Some(s) => s, None => gen_size(src) };
    let n_frames = match size {
        Size::Tiny => src.range(o.min_frames, 6.max(o.min_frames)),
        Size::Small => src.range(o.min_frames.max(1), 6.max(o.min_frames)),
        Size::Medium => src.range(o.min_frames.max(1), 4.max(o.min_frames)),
        Size::Large => src.range(o.min_frames.max(1), 2.max(o.min_frames)),
    };
    let ch = match src.weighted(&[3, 5, 2]) {
        0 => 1,
        1 => 2,
        _ => src.range(3, 8) as u32,
    };
    let bps = src.pick(&BPS);
    let (rate, rate_code) = match src.weighted(&[6, 1, 1, 1]) {
        0 => { let r = RATES[(src.draw(11) as usize + 8) % 11]; (r.0, Some(r.1)) }
        1 => (src.range(1, 255) as u32 * 1000, None),
        2 => (src.range(1, 65535) as u32, None),
        _ => (src.range(1, 65535) as u32 * 10, None),
    };
    let variable = src.chance(2, 5);

    // Block sizes and the numbering.
    let mut sizes: Vec<u32> = Vec::new();
    let nominal;
    if variable {
        for _ in 0..n_frames { sizes.push(block_size(src, size)) }
        nominal = 0;
    } else {
        nominal = block_size(src, size).max(16);
        for _ in 0..n_frames { sizes.push(nominal) }
        if n_frames > 0 && src.chance(1, 2) {
            let last = src.range(1, nominal as u64) as u32;
            *sizes.last_mut().unwrap() = last;
            probe("gen_short_last_block");
        }
    }
    let number0 = if variable {
        let total: u64 = sizes.iter().map(|&s| s as u64).sum();
        start_number(src, (1 << 36) - 1 - total)
    } else {
        start_number(src, (1 << 31) - 1 - n_frames)
    };
    let number0 = if o.numbers_big || !src.chance(1, 2) { number0 } else { 0 };

    let (min_bs, max_bs) = if variable {
        let mx = sizes.iter().cloned().max().unwrap_or(16).max(16);
        let body = if sizes.len() > 1 { &sizes[..sizes.len() - 1] } else { &sizes[..] };
        let mn = body.iter().cloned().min().unwrap_or(16).max(16).min(mx);
        // A variable-blocking stream must not look like a fixed one; it may,
        // though, when all its blocks happen to have one size.
        (mn, mx)
    } else {
        (nominal, nominal)
    };

    // Frames first: the streaminfo may state their sizes.
    let mut frames = Vec::new();
    let mut fbytes: Vec<u8> = Vec::new();
    let mut number = number0;
    let mut time = if variable { number0 } else { number0 * nominal as u64 };
    for &bs in &sizes {
        let start = fbytes.len();
        let (bytes, header_len, data) =
            gen_frame(src, variable, number, bs, ch, bps, rate, rate_code, size, probe);
        fbytes.extend_from_slice(&bytes);
        frames.push(Frame { start, end: fbytes.len(), header_len, time, bs, ch, bps, data });
        time += bs as u64;
        number += if variable { bs as u64 } else { 1 };
    }
    let known = src.chance(1, 2);
    let (min_fs, max_fs) = if known && !frames.is_empty() {
        (frames.iter().map(|f| f.end - f.start).min().unwrap() as u32,
         frames.iter().map(|f| f.end - f.start).max().unwrap() as u32)
    } else {
        (0, 0)
    };
    let mut r = src.sub();
    let mut md5 = [0u8; 16];
    // All zeros: the encoder did not compute it.
    if !src.chance(1, 4) { for b in md5.iter_mut() { *b = r.next() as u8 } }
    let total: u64 = sizes.iter().map(|&s| s as u64).sum();
    let samples = if src.chance(2, 3) { total } else { 0 };
    let si = Si { min_bs: min_bs as u16, max_bs: max_bs as u16, min_fs, max_fs, rate, ch, bps, samples, md5 };
    let (mut bytes, meta) = gen_meta(src, &si, o.meta, probe);
    let audio = bytes.len();
    bytes.extend_from_slice(&fbytes);
    for f in frames.iter_mut() { f.start += audio; f.end += audio }
    Stream { bytes, si, meta, audio, frames, variable }
}

// ---------------------------------------------------------------- metadata

pub fn rand_utf8(r: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    while s.len() < len {
        let c = match r.below(12) {
            0 => char::from_u32(r.range(0x80, 0x7ff) as u32),
            1 => char::from_u32(r.range(0x800, 0xffff) as u32),
            2 => char::from_u32(r.range(0x10000, 0x10ffff) as u32),
            3 => Some('='),
            4 => char::from_u32(r.range(0, 0x1f) as u32),
            _ => char::from_u32(r.range(0x20, 0x7e) as u32),
        };
        if let Some(c) = c { s.push(c) }
    }
    s
}

fn rand_name(r: &mut Rng, len: usize) -> String {
    (0..len).map(|_| loop {
        let c = r.range(0x20, 0x7d) as u8 as char;
        if c != '=' { break c }
    }).collect()
}

pub fn encode_vorbis(vendor: &[u8], comments: &[Vec<u8>]) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
    v.extend_from_slice(vendor);
    v.extend_from_slice(&(comments.len() as u32).to_le_bytes());
    for c in comments {
        v.extend_from_slice(&(c.len() as u32).to_le_bytes());
        v.extend_from_slice(c);
    }
    v
}

fn gen_len(src: &mut Src, rich: bool) -> usize {
    match src.weighted(&[4, 3, 2, if rich { 2 } else { 0 }, if rich { 1 } else { 0 }]) {
        0 => src.usize(0, 8),
        1 => src.usize(0, 100),
        2 => src.usize(100, 1000),
        3 => { let b = src.pick(&[2048usize, 4096, 6144]); b - 60 + src.usize(0, 120) }
        _ => src.usize(5000, 80_000),
    }
}

/// Names that real files use, which code may treat in a special way.
const NAMES: [&str; 30] = ["ARTIST", "TITLE", "ALBUM", "ALBUMARTIST", "DATE", "GENRE", "TRACKNUMBER", "TRACKTOTAL", "DISCNUMBER", "COMMENT",
    "DESCRIPTION", "COMPOSER", "COPYRIGHT", "LICENSE", "ORGANIZATION", "PERFORMER", "ISRC", "VERSION", "CONTACT", "LOCATION", "ENCODER", "CUESHEET",
    "LYRICS", "METADATA_BLOCK_PICTURE", "COVERART", "COVERARTMIME", "REPLAYGAIN_TRACK_GAIN", "REPLAYGAIN_ALBUM_PEAK", "WAVEFORMATEXTENSIBLE_CHANNEL_MASK", "MUSICBRAINZ_TRACKID"];
const VALUES: [&str; 14] = ["0", "1", "7/12", "2026-11-19", "", " ", "-6.25 dB", "true", "0x0003", "AAAAAwAAAAlpbWFnZS9wbmc=", "Queen", "a=b", "line\nline\r\n", "\u{feff}x\0"];
const VENDORS: [&str; 8] = ["reference libFLAC 1.3.2 20170101", "reference libFLAC 1.2.1 20070917", "reference libFLAC 1.3.1 20141125", "Lavf57.25.100", "Lavf58.29.100",
    "Lavf57.83.100", "Xiph.Org libVorbis I 20020717", "Flake#0.11"];

pub fn gen_vorbis(src: &mut Src, rich: bool, probe: Probe) -> (String, Vec<String>) {
    let vlen = if src.chance(1, 4) { gen_len(src, rich) } else { src.usize(0, 40) };
    let mut r = src.sub();
    let vendor = if src.chance(1, 4) { src.pick(&VENDORS).to_string() } else { rand_utf8(&mut r, vlen) };
    if rich && src.chance(1, 30) {
        // Many entries, with next to nothing in them.
        let n = if src.chance(1, 40) { probe("gen_64k_comments"); src.usize(65_535, 65_540) } else { src.pick(&[8usize, 30, 100, 255, 256, 300, 1000]) };
        let most = src.pick(&[0u64, 1, 2, 4]);
        probe("gen_many_comments");
        let vendor = if src.chance(1, 2) { String::new() } else { vendor };
        let comments = (0..n).map(|i| match r.below(4) { k if k >= most => String::new(), 0 => "=".into(), 1 => "a=".into(), _ => format!("n={}", i) }).collect();
        return (vendor, comments);
    }
    let n = if rich { src.weighted(&[2, 3, 3, 3, 2, 2, 1, 1]) } else { src.weighted(&[2, 2, 1]) };
    let mut comments: Vec<String> = Vec::new();
    let mut names: Vec<String> = vec!["ARTIST".into(), "title".into(), "X".into(), "".into()];
    for _ in 0..n {
        match src.weighted(&[5, 2, 2, 2]) {
            3 => {
                let name = src.pick(&NAMES);
                let val = if src.chance(1, 2) { src.pick(&VALUES).to_string() } else { let vl = src.usize(0, 60); rand_utf8(&mut r, vl) };
                names.push(name.to_string());
                comments.push(format!("{}={}", name, val));
            }
            0 => {
                let name = names[src.draw(names.len() as u64) as usize].clone();
                let flip = src.sub_case();
                let name: String = name.chars().map(|c| if flip & 1 == 1 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
                let vl = gen_len(src, rich && n < 3);
                let val = rand_utf8(&mut r, vl);
                comments.push(format!("{}={}", name, val));
            }
            1 => {
                probe("gen_empty_comment");
                comments.push(String::new())
            }
            _ => {
                let nl = src.usize(0, 12);
                let mut name = rand_name(&mut r, nl);
                if src.chance(1, 3) { name.push('}'); name.insert(0, ' ') }
                names.push(name.clone());
                let vl = src.usize(0, 60);
                let val = rand_utf8(&mut r, vl);
                comments.push(format!("{}={}", name, val));
            }
        }
    }
    (vendor, comments)
}

impl Src {
    fn sub_case(&mut self) -> u64 { self.draw(2) }
}

/// Appends one metadata block (header and body) to `out`.
pub fn put_block(out: &mut Vec<u8>, btype: u8, last: bool, body: &[u8]) -> (usize, usize) {
    let start = out.len();
    out.push(btype | if last { 0x80 } else { 0 });
    let l = body.len() as u32;
    out.extend_from_slice(&[(l >> 16) as u8, (l >> 8) as u8, l as u8]);
    out.extend_from_slice(body);
    (start, out.len())
}

/// A body and content for one random non-streaminfo block.
pub fn gen_block(src: &mut Src, rich: bool, allow_vorbis: bool, probe: Probe) -> (u8, Vec<u8>, Content) {
    let kind = src.weighted(&[3, 3, 1, if allow_vorbis { 6 } else { 0 }, 1, 1, 1]);
    match kind {
        3 => {
            let (vendor, comments) = gen_vorbis(src, rich, probe);
            let raw: Vec<Vec<u8>> = comments.iter().map(|c| c.clone().into_bytes()).collect();
            (4, encode_vorbis(vendor.as_bytes(), &raw), Content::Vorbis { vendor, comments })
        }
        1 => {
            let n = gen_len(src, rich);
            let mut r = src.sub();
            let id = if src.chance(1, 3) { u32::from_be_bytes(*src.pick(&[b"riff", b"aiff", b"w64 ", b"ATCH", b"peem", b"fLaC", b"ID3\x03", b"\0\0\0\0", b"\xff\xff\xff\xff"])) } else { r.next() as u32 };
            let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            let mut b = id.to_be_bytes().to_vec();
            b.extend_from_slice(&data);
            (2, b, Content::App { id, data })
        }
        k => {
            let n = gen_len(src, rich);
            let mut r = src.sub();
            let zero = k == 0 && r.below(2) == 0;
            let body: Vec<u8> = (0..n).map(|_| if zero { 0 } else { r.next() as u8 }).collect();
            match k {
                0 => (1, body, Content::Padding(n as u32)),
                2 => (3, body, Content::Padding(n as u32)),
                4 => (5, body, Content::Padding(n as u32)),
                5 => (6, body, Content::Padding(n as u32)),
                _ => {
                    let t = src.range(7, 126) as u8;
                    (t, body, Content::Reserved)
                }
            }
        }
    }
}

pub fn gen_meta(src: &mut Src, si: &Si, level: MetaLevel, probe: Probe) -> (Vec<u8>, Vec<Meta>) {
    let rich = level == MetaLevel::Rich;
    let mut n = if rich { src.weighted(&[1, 2, 3, 3, 2, 2]) } else { src.weighted(&[4, 3, 1]) };
    let many = rich && src.chance(1, 150);
    if many { n = src.usize(6, 400); probe("many_metadata_blocks") }
    let mut blocks: Vec<(u8, Vec<u8>, Content)> = vec![(0, si.encode(), Content::StreamInfo(si.clone()))];
    let mut have_vorbis = false;
    for _ in 0..n {
        let b = gen_block(src, rich && !many, !have_vorbis, probe);
        if b.0 == 4 { have_vorbis = true }
        blocks.push(b);
    }
    let mut out = b"fLaC".to_vec();
    let mut meta = Vec::new();
    let k = blocks.len();
    for (i, (t, body, content)) in blocks.into_iter().enumerate() {
        let (start, end) = put_block(&mut out, t, i + 1 == k, &body);
        meta.push(Meta { start, end, btype: t, content });
    }
    (out, meta)
}

// ---------------------------------------------------------------- frames

fn lim(bps: u32) -> (i64, i64) {
    (-(1i64 << (bps - 1)), (1i64 << (bps - 1)) - 1)
}

/// One channel of target audio within `bps` bits.
pub fn signal(src: &mut Src, bps: u32, bs: usize, big: bool) -> Vec<i64> {
    let kind = if big { src.weighted(&[2, 2, 4, 4]) } else { src.weighted(&[2, 2, 4, 4, 3, 2, 2]) };
    let wasted = if src.chance(1, 5) { src.range(1, bps as u64 - 1) as u32 } else { 0 };
    let b = bps - wasted;
    let (lo, hi) = lim(b);
    let mut r = src.sub();
    let mut v: Vec<i64> = Vec::with_capacity(bs);
    match kind {
        0 => v.resize(bs, 0),
        1 => { let c = match r.below(4) { 0 => lo, 1 => hi, _ => r.range(lo, hi) }; v.resize(bs, c) }
        2 => {
            let a = (1i64 << r.below(b as u64)).min(hi.max(1));
            for _ in 0..bs { v.push(r.range(-a, a).clamp(lo, hi)) }
        }
        3 => {
            // A smooth walk with a little noise.
            let mut x = r.range(lo, hi);
            let mut d = 0i64;
            let step = (hi / 64).max(1);
            for _ in 0..bs {
                d = (d + r.range(-step, step)) * 15 / 16;
                x += d;
                if x > hi { x = hi; d = -d / 2 }
                if x < lo { x = lo; d = -d / 2 }
                v.push(x);
            }
        }
        4 => for _ in 0..bs { v.push(r.range(lo, hi)) },
        5 => for i in 0..bs { v.push(if (i as u64 + r.below(2)) % 2 == 0 { lo } else { hi }) },
        _ => for _ in 0..bs {
            v.push(if r.below(9) == 0 { r.range(lo, hi) } else { 0 })
        },
    }
    if wasted > 0 { for x in v.iter_mut() { *x <<= wasted } }
    v
}

fn header(
    src: &mut Src, variable: bool, number: u64, bs: u32, ca: u64, bps: u32, rate: u32, rate_code: Option<u64>,
    probe: Probe,
) -> Vec<u8> {
    // Every coding the block size and the sample rate allow.
    let mut bsc: Vec<(u64, Vec<u8>)> = Vec::new();
    if bs == 192 { bsc.push((1, vec![])) }
    for k in 0..4u64 { if bs == 576 << k { bsc.push((2 + k, vec![])) } }
    for k in 0..8u64 { if bs == 256 << k { bsc.push((8 + k, vec![])) } }
    if bs <= 256 { bsc.push((6, vec![(bs - 1) as u8])) }
    bsc.push((7, vec![((bs - 1) >> 8) as u8, (bs - 1) as u8]));
    let (bcode, btail) = bsc[src.draw(bsc.len() as u64) as usize].clone();
    let mut src_codes: Vec<(u64, Vec<u8>)> = vec![(0, vec![])];
    if let Some(c) = rate_code { src_codes.push((c, vec![])) }
    if rate % 1000 == 0 && rate <= 255_000 { src_codes.push((12, vec![(rate / 1000) as u8])) }
    if rate <= 65535 { src_codes.push((13, vec![(rate >> 8) as u8, rate as u8])) }
    if rate % 10 == 0 && rate <= 655_350 { src_codes.push((14, vec![((rate / 10) >> 8) as u8, (rate / 10) as u8])) }
    let (scode, stail) = src_codes[src.draw(src_codes.len() as u64) as usize].clone();
    probe(match bcode { 6 => "hdr_bs8", 7 => "hdr_bs16", _ => "hdr_bs_table" });
    probe(match scode { 0 => "hdr_rate_si", 12 => "hdr_rate8", 13 => "hdr_rate16", 14 => "hdr_rate16x10", _ => "hdr_rate_table" });
    let bpsc = match bps { 8 => 1, 12 => 2, 16 => 4, 20 => 5, _ => 6u64 };
    let mut w = BitW::new();
    w.put(0b11_1111_1111_1110, 14);
    w.put(0, 1);
    w.put(variable as u64, 1);
    w.put(bcode, 4);
    w.put(scode, 4);
    w.put(ca, 4);
    w.put(bpsc, 3);
    w.put(0, 1);
    let mut h = w.out;
    let n = varint(number);
    probe(["num1", "num2", "num3", "num4", "num5", "num6", "num7"][n.len() - 1]);
    h.extend_from_slice(&n);
    h.extend_from_slice(&btail);
    h.extend_from_slice(&stail);
    h.push(crc8(&h));
    h
}

fn gen_frame(
    src: &mut Src, variable: bool, number: u64, bs: u32, ch: u32, bps: u32, rate: u32, rate_code: Option<u64>,
    size: Size, probe: Probe,
) -> (Vec<u8>, usize, Vec<i32>) {
    let big = size == Size::Large || (size == Size::Medium && bs > 3000);
    let n = bs as usize;
    let assign = if ch == 2 { src.weighted(&[2, 3, 3, 3]) as u64 } else { 0 };
    let (ca, subs, chans): (u64, Vec<(Vec<i64>, u32)>, Vec<Vec<i64>>) = if assign == 0 {
        let chans: Vec<Vec<i64>> = (0..ch).map(|_| signal(src, bps, n, big)).collect();
        (ch as u64 - 1, chans.iter().map(|c| (c.clone(), bps)).collect(), chans)
    } else {
        let l = signal(src, bps, n, big);
        // The right channel is often close to the left one, sometimes its opposite.
        let r = match src.weighted(&[3, 3, 1, 1]) {
            0 => signal(src, bps, n, big),
            1 => {
                let mut g = src.sub();
                let (lo, hi) = lim(bps);
                l.iter().map(|&x| (x + g.range(-3, 3)).clamp(lo, hi)).collect()
            }
            2 => { let (lo, hi) = lim(bps); l.iter().map(|&x| (-x - 1).clamp(lo, hi)).collect() }
            _ => l.clone(),
        };
        let side: Vec<i64> = l.iter().zip(&r).map(|(a, b)| a - b).collect();
        let mid: Vec<i64> = l.iter().zip(&r).map(|(a, b)| (a + b) >> 1).collect();
        let subs = match assign {
            1 => { probe("left_side"); vec![(l.clone(), bps), (side, bps + 1)] }
            2 => { probe("right_side"); vec![(side, bps + 1), (r.clone(), bps)] }
            _ => { probe("mid_side"); vec![(mid, bps), (side, bps + 1)] }
        };
        (7 + assign, subs, vec![l, r])
    };
    let h = header(src, variable, number, bs, ca, bps, rate, rate_code, probe);
    let header_len = h.len();
    let mut w = BitW::new();
    w.out = h;
    for (s, b) in &subs { put_subframe(src, &mut w, s, *b, big, probe) }
    // The padding up to the byte boundary is ignored by decoders.
    w.align();
    let mut out = w.out;
    let c = crc16(&out);
    out.push((c >> 8) as u8);
    out.push(c as u8);
    let data: Vec<i32> = chans.iter().flat_map(|c| c.iter().map(|&x| x as i32)).collect();
    (out, header_len, data)
}

fn put_header(w: &mut BitW, code: u64, wasted: u32) {
    w.put(0, 1);
    w.put(code, 6);
    if wasted == 0 { w.put(0, 1) } else { w.put(1, 1); w.unary(wasted as u64 - 1) }
}

pub fn put_subframe(src: &mut Src, w: &mut BitW, s: &[i64], bps: u32, big: bool, probe: Probe) {
    // Wasted bits: any number up to the common trailing zeros may be declared.
    let tz = s.iter().fold(63, |a, &x| a.min(if x == 0 { 63 } else { x.trailing_zeros() })).min(bps - 1);
    let wasted = if tz > 0 && src.chance(3, 4) { src.range(0, tz as u64 - 1) as u32 } else { 0 };
    let wasted = if wasted > 0 || (tz > 0 && src.chance(1, 2)) { tz - wasted } else { 0 };
    let b = bps - wasted;
    if wasted > 0 { probe("wasted_bits") }
    let v: Vec<i64> = s.iter().map(|&x| x >> wasted).collect();
    let n = v.len();
    let constant = v.iter().all(|&x| x == v[0]);
    let kind = if constant { src.weighted(&[4, 1, 2, 2]) } else { 1 + src.weighted(&[2, 5, 6]) };
    if kind == 0 {
        probe("constant");
        put_header(w, 0, wasted);
        w.put_signed(v[0], b);
        return;
    }
    if kind == 2 {
        let order = src.usize(0, 4.min(n));
        if let Some(res) = residual_fixed(&v, order) {
            if let Some(plan) = plan_residual(src, &res, n, order, big, probe) {
                probe(["fixed0", "fixed1", "fixed2", "fixed3", "fixed4"][order]);
                put_header(w, 8 + order as u64, wasted);
                for &x in &v[..order] { w.put_signed(x, b) }
                put_residual(w, &res, &plan);
                return;
            }
        }
    }
    if kind == 3 && n >= 1 {
        let max = 32.min(n);
        let order = match src.weighted(&[4, 3, 1]) {
            0 => src.usize(1, max.min(12)),
            1 => src.usize(1, max),
            _ => src.pick(&[12usize, 13, 32, 1]).min(max),
        };
        let prec = if src.chance(1, 2) { src.pick(&[12u32, 15, 1, 14]) } else { src.range(1, 15) as u32 };
        let shift = src.range(0, 15) as u32;
        let style = src.weighted(&[3, 2, 1]);
        let mut r = src.sub();
        let (clo, chi) = lim(prec);
        let coef: Vec<i64> = (0..order).map(|i| match style {
            // Sum to about one after the shift: "predict the previous sample".
            0 => if i == 0 { (1i64 << shift).min(chi) } else { r.range(-1, 1).clamp(clo, chi) },
            1 => r.range(clo, chi),
            _ => if r.below(2) == 0 { clo } else { chi },
        }).collect();
        if let Some(res) = residual_lpc(&v, &coef, shift) {
            if let Some(plan) = plan_residual(src, &res, n, order, big, probe) {
                probe(if order > 12 { "lpc_high" } else { "lpc_low" });
                if order == 32 { probe("lpc32") }
                put_header(w, 32 + order as u64 - 1, wasted);
                for &x in &v[..order] { w.put_signed(x, b) }
                w.put(prec as u64 - 1, 4);
                w.put(shift as u64, 5);
                for &c in &coef { w.put_signed(c, prec) }
                put_residual(w, &res, &plan);
                return;
            }
        }
    }
    probe("verbatim");
    put_header(w, 1, wasted);
    for &x in &v { w.put_signed(x, b) }
}

fn residual_fixed(v: &[i64], order: usize) -> Option<Vec<i64>> {
    let c: &[i64] = match order { 0 => &[], 1 => &[1], 2 => &[2, -1], 3 => &[3, -3, 1], _ => &[4, -6, 4, -1] };
    let mut out = Vec::with_capacity(v.len());
    for i in order..v.len() {
        let p: i64 = c.iter().enumerate().map(|(k, c)| c * v[i - 1 - k]).sum();
        out.push(v[i] - p);
    }
    fits(out)
}

fn residual_lpc(v: &[i64], coef: &[i64], shift: u32) -> Option<Vec<i64>> {
    let order = coef.len();
    let mut out = Vec::with_capacity(v.len());
    for i in order..v.len() {
        let p: i64 = coef.iter().enumerate().map(|(k, c)| c * v[i - 1 - k]).sum();
        out.push(v[i] - (p >> shift));
    }
    fits(out)
}

fn fits(v: Vec<i64>) -> Option<Vec<i64>> {
    if v.iter().all(|&x| x >= -(1 << 31) && x < 1 << 31) { Some(v) } else { None }
}

pub fn zigzag(x: i64) -> u64 {
    if x < 0 { (-2 * x - 1) as u64 } else { 2 * x as u64 }
}

struct ResPlan { rice2: bool, porder: u32, params: Vec<u32>, bs: usize, warm: usize }

fn plan_residual(src: &mut Src, res: &[i64], bs: usize, warm: usize, big: bool, probe: Probe) -> Option<ResPlan> {
    let mut orders = vec![0u32];
    for k in 1..=15 { if bs % (1 << k) == 0 && bs >> k >= warm.max(1) { orders.push(k) } }
    let porder = match src.weighted(&[3, 2, 1]) {
        0 => 0,
        1 => orders[src.draw(orders.len() as u64) as usize],
        _ => *orders.last().unwrap(),
    };
    if porder > 8 { probe("partition_order_above_8") }
    if porder == 15 { probe("partition_order_15") }
    let qcap = if src.chance(1, 250) { probe("long_quotients_tried"); 70_000 } else if big { 40 } else { src.pick(&[40u64, 8, 300, 2500, 1]) };
    let extra = src.draw(4) as u32;
    let mut rice2 = src.chance(1, 3);
    let mut r = src.sub();
    let n_part = 1usize << porder;
    let plen = bs >> porder;
    let mut params = Vec::new();
    let mut pos = 0;
    let mut maxk = 0;
    for p in 0..n_part {
        let len = if p == 0 { plen - warm } else { plen };
        let mx = res[pos..pos + len].iter().map(|&x| zigzag(x)).max().unwrap_or(0);
        pos += len;
        let mut k = 0;
        while k < 30 && mx >> k > qcap { k += 1 }
        if len == 0 { k = r.below(15) as u32 }
        if mx >> k > qcap.max(5000) { return None }
        k = (k + if extra == 0 { 0 } else { r.below(extra as u64 + 1) as u32 }).min(30);
        maxk = maxk.max(k);
        params.push(k);
    }
    if maxk > 14 {
        if !rice2 && maxk <= 17 && src.chance(1, 2) {
            // Keep the short method by capping the parameters.
            for k in params.iter_mut() { *k = (*k).min(14) }
        } else {
            rice2 = true;
        }
    } else if rice2 && src.chance(1, 3) {
        for k in params.iter_mut() { *k = (*k + r.below(17) as u32).min(30) }
    }
    if plen == warm && warm > 0 { probe("partition_eq_warmup") }
    probe(if rice2 { "rice2" } else { "rice" });
    if rice2 && params.iter().any(|&k| k > 15) { probe("rice2_wide") }
    if !rice2 && params.iter().any(|&k| k > 8) { probe("rice_wide") }
    if porder > 0 { probe("partitioned") }
    // Refuse plans that would be silly in size.
    let mut cost = 0u64;
    pos = 0;
    for (p, &k) in params.iter().enumerate() {
        let len = if p == 0 { plen - warm } else { plen };
        for &x in &res[pos..pos + len] { cost += (zigzag(x) >> k) + 1 + k as u64 }
        pos += len;
    }
    if cost > 40 * bs as u64 + if qcap > 5000 { 400_000 } else { 60_000 } { return None }
    if qcap > 5000 { probe("long_quotients") }
    Some(ResPlan { rice2, porder, params, bs, warm })
}

fn put_residual(w: &mut BitW, res: &[i64], p: &ResPlan) {
    w.put(p.rice2 as u64, 2);
    w.put(p.porder as u64, 4);
    let plen = p.bs >> p.porder;
    let mut pos = 0;
    for (i, &k) in p.params.iter().enumerate() {
        w.put(k as u64, if p.rice2 { 5 } else { 4 });
        let len = if i == 0 { plen - p.warm } else { plen };
        for &x in &res[pos..pos + len] {
            let z = zigzag(x);
            w.unary(z >> k);
            w.put(z & ((1u64 << k) - 1), k);
        }
        pos += len;
    }
}

// ---------------------------------------------------------------- wild frames

/// Rewrites the header CRC-8 and the frame CRC-16 of a frame's bytes.
pub fn fix_crcs(f: &mut Vec<u8>, header_len: usize) {
    if header_len >= 1 && header_len <= f.len() {
        f[header_len - 1] = crc8(&f[..header_len - 1]);
    }
    if f.len() >= 2 {
        let n = f.len() - 2;
        let c = crc16(&f[..n]);
        f[n] = (c >> 8) as u8;
        f[n + 1] = c as u8;
    }
}

/// When a faulty encoder writes something forbidden.
pub enum Odd {
    /// At each opportunity with this chance in 64.
    Rate(u64),
    /// Only once, after so many opportunities.
    Once(u64),
    Never,
}

impl Odd {
    fn fire(&mut self, src: &mut Src) -> bool {
        match *self {
            Odd::Rate(r) => r > 0 && src.chance(r, 64),
            Odd::Once(0) => { *self = Odd::Never; true }
            Odd::Once(ref mut n) => { *n -= 1; false }
            Odd::Never => false,
        }
    }
    fn any(&self) -> bool { matches!(*self, Odd::Rate(r) if r > 0) }
}

/// A frame written element by element with values a sane encoder never writes,
/// and (mostly) right checksums.
pub fn wild_frame(src: &mut Src, mut odd: Odd, probe: Probe) -> Vec<u8> {
    let mut w = BitW::new();
    let odd = &mut odd;
    macro_rules! o { ($src:expr) => { odd.fire($src) } }
    if o!(src) { w.put(src.draw(1 << 14), 14) } else { w.put(0x3ffe, 14) }
    w.put(if o!(src) { 1 } else { 0 }, 1);
    let variable = src.chance(1, 2);
    w.put(variable as u64, 1);
    // Block size: mostly small; sometimes large and without any residual, so that
    // few bytes hold many samples; sometimes divisible by many powers of two.
    let shape = src.weighted(&[22, 2, 2]);
    let bs: usize;
    let (bcode, btail): (u64, Vec<u8>);
    if shape == 1 {
        let t = match src.weighted(&[3, 2, 2]) {
            0 => src.range(4096, 0xffff) as usize,
            1 => 0xffff,
            _ => src.pick(&[0xfffeusize, 0x7fff, 0x8000, 0xfeff, 0xff00, 4607, 4608, 0x3fff, 0x1fff]),
        };
        bs = t + 1; bcode = 7; btail = vec![(t >> 8) as u8, t as u8];
    } else if shape == 2 {
        let k = src.pick(&[8u32, 9, 7, 10, 6, 11, 12]);
        let t = ((1usize << k) * src.usize(1, 9) + if src.chance(1, 6) { src.usize(0, 8) } else { 0 }).min(16_384) - 1;
        bs = t + 1; bcode = 7; btail = vec![(t >> 8) as u8, t as u8];
    } else if o!(src) {
        let c = src.draw(16);
        let t = src.range(0, 0xffff) as usize;
        match c {
            0 => { bs = 1; bcode = 0; btail = vec![] }
            1 => { bs = 192; bcode = 1; btail = vec![] }
            2..=5 => { bs = 576 << (c - 2); bcode = c; btail = vec![] }
            6 => { bs = (t & 0xff) + 1; bcode = 6; btail = vec![t as u8] }
            7 => {
                let t = if src.chance(1, 3) { 0xffff } else { t };
                bs = t + 1; bcode = 7; btail = vec![(t >> 8) as u8, t as u8]
            }
            _ => { bs = 256 << (c - 8); bcode = c; btail = vec![] }
        }
    } else {
        let n = match src.weighted(&[3, 3, 1]) { 0 => src.usize(1, 16), 1 => src.usize(1, 64), _ => src.usize(1, 256) };
        bs = n; bcode = 6; btail = vec![(n - 1) as u8];
    }
    w.put(bcode, 4);
    let sr = if o!(src) { src.draw(16) } else { src.pick(&[9u64, 0, 12, 13, 14]) };
    w.put(sr, 4);
    let ca = if o!(src) { src.draw(16) } else { src.pick(&[0u64, 1, 8, 9, 10, 10, 2, 7]) };
    w.put(ca, 4);
    let bc = if o!(src) { src.draw(8) } else { src.pick(&[4u64, 6, 1, 2, 5]) };
    w.put(bc, 3);
    w.put(if o!(src) { 1 } else { 0 }, 1);
    let bps = match bc { 1 => 8, 2 => 12, 4 => 16, 5 => 20, 6 => 24, _ => 16u32 };
    let mut h = w.out;
    if o!(src) {
        probe("wild_varint");
        let k = src.usize(1, 8);
        let mut r = src.sub();
        let lead = src.pick(&[0xffu8, 0x80, 0xfe, 0xfd, 0xf8, 0xfc, 0xc0]);
        h.push(lead);
        for _ in 1..k { h.push(if r.below(6) == 0 { r.next() as u8 } else { 0x80 | (r.next() as u8 & 0x3f) }) }
    } else {
        let n = start_number(src, if variable { (1 << 36) - 1 } else { (1 << 31) + 2 });
        h.extend_from_slice(&varint(n));
    }
    h.extend_from_slice(&btail);
    match sr { 12 => h.push(src.draw(256) as u8), 13 | 14 => { h.push(src.draw(256) as u8); h.push(1) } _ => {} }
    h.push(0);
    let header_len = h.len();
    let mut w = BitW::new();
    w.out = h;
    let n_sub = match ca { 0..=7 => ca as usize + 1, _ => 2 };
    for c in 0..n_sub {
        let b = match (ca, c) { (8, 1) | (9, 0) | (10, 1) => bps + 1, _ => bps };
        wild_subframe(src, &mut w, bs, b, odd, shape, probe);
        if w.out.len() > 300_000 { break }
    }
    if o!(src) { let f = src.draw(128); w.align_with(f) } else { w.align() }
    let mut f = w.out;
    f.push(0);
    f.push(0);
    fix_crcs(&mut f, header_len);
    if o!(src) { let n = f.len(); f[n - 1] ^= 1 }
    if o!(src) { f[header_len - 1] ^= 0x10 }
    f
}

fn wild_value(r: &mut Rng, bits: u32) -> u64 {
    match r.below(5) {
        0 => 0,
        1 => (1u64 << bits) - 1,
        2 => 1u64 << (bits - 1),
        3 => (1u64 << (bits - 1)) - 1,
        _ => r.bits(bits),
    }
}

pub fn wild_subframe(src: &mut Src, w: &mut BitW, bs: usize, bps: u32, odd: &mut Odd, shape: usize, probe: Probe) {
    macro_rules! o { ($src:expr) => { odd.fire($src) } }
    w.put(if o!(src) { 1 } else { 0 }, 1);
    let code = if shape == 1 && !src.chance(1, 8) { 0 } else if shape == 2 && src.chance(1, 2) { src.pick(&[8u64, 9, 32, 33, 10, 34, 12, 38, 50, 63]) } else if o!(src) { src.draw(64) } else {
        match src.weighted(&[2, 2, 5, 6]) {
            0 => 0,
            1 => 1,
            2 => 8 + src.draw(5),
            _ => 32 + src.draw(32),
        }
    };
    // Keep the order within the block unless this is the oddity.
    let code = if code >= 32 && (code - 31) as usize > bs && !o!(src) { 32 + src.draw(bs.min(32) as u64) } else { code };
    let code = if (8..=12).contains(&code) && (code - 8) as usize > bs && !o!(src) { 8 } else { code };
    w.put(code, 6);
    let mut wasted = 0u64;
    if src.chance(1, 4) {
        wasted = match src.weighted(&[4, 2]) {
            0 => src.range(1, bps as u64 - 1),
            _ => if o!(src) { src.pick(&[bps as u64, bps as u64 + 1, 31, 32, 33, 64, 300]) } else { 1 },
        };
        w.put(1, 1);
        w.unary(wasted - 1);
    } else {
        w.put(0, 1);
    }
    let b = if wasted < bps as u64 { bps - wasted as u32 } else { 1 };
    let mut r = src.sub();
    match code {
        0 => { let v = if shape == 1 && src.chance(1, 3) { 0 } else { wild_value(&mut r, b) }; w.put(v, b) }
        1 => for _ in 0..bs.min(20_000) { let v = wild_value(&mut r, b); w.put(v, b) },
        8..=15 | 32..=63 => {
            let order = if code < 16 { (code - 8) as usize } else { (code - 31) as usize };
            for _ in 0..order { let v = wild_value(&mut r, b); w.put(v, b) }
            if code >= 32 {
                let prec = if o!(src) { 15 } else { src.draw(15) };
                w.put(prec, 4);
                let shift = if o!(src) { src.draw(32) } else { src.draw(16) };
                w.put(shift, 5);
                for _ in 0..order { let v = wild_value(&mut r, prec as u32 + 1); w.put(v, prec as u32 + 1) }
            }
            let method = if o!(src) { src.draw(4) } else { src.draw(2) };
            w.put(method, 2);
            let mut ok: Vec<u64> = vec![0];
            for k in 1..=15 { if bs % (1 << k) == 0 && bs >> k >= order { ok.push(k) } }
            // Partitions that fill the block, but are shorter than the warm-up.
            let short: Vec<u64> = (1..=15).filter(|&k| bs % (1 << k) == 0 && (bs >> k) < order).collect();
            let fewer = |src: &mut Src| { let i = if src.chance(1, 2) { 0 } else { src.draw(short.len() as u64) as usize }; short[i] };
            let porder = if odd.any() && !short.is_empty() && src.chance(1, if shape == 2 { 3 } else { 8 }) {
                probe("wild_porder_short");
                fewer(src)
            } else if shape == 2 && odd.any() && src.chance(1, 2) {
                probe("wild_porder_near");
                (bs.trailing_zeros() as u64 + 1 + src.draw(3)).min(15)
            } else if o!(src) {
                probe("wild_porder");
                if !short.is_empty() && src.chance(1, 3) { fewer(src) } else { src.draw(16) }
            } else { ok[src.draw(ok.len() as u64) as usize] };
            w.put(porder, 4);
            let n_part = 1usize << porder;
            let plen = bs >> porder;
            let style = src.weighted(&[3, 3, 1]);
            let escape = if o!(src) { src.usize(0, n_part - 1) } else { usize::MAX };
            for p in 0..n_part {
                let len = if p == 0 { plen.saturating_sub(order) } else { plen };
                let kb = if method == 1 { 5 } else { 4 };
                let top = if method == 1 { 31 } else { 15u64 };
                let k = match style { 0 => r.below(top), 1 => top - 1, _ => r.below(8).min(top - 1) };
                let k = if p == escape { top } else { k };
                w.put(k, kb);
                for _ in 0..len {
                    if w.out.len() > 300_000 { return }
                    let q = match style {
                        0 => r.below(4),
                        1 => r.below(6),
                        _ => if r.below(20) == 0 { r.below(70_000) } else { r.below(40) },
                    };
                    w.unary(q);
                    let rem = match r.below(3) { 0 => (1u64 << k) - 1, _ => r.bits(k as u32) };
                    w.put(rem, k as u32);
                }
            }
        }
        _ => {}
    }
}
