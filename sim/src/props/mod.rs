//! One simulation per property.

pub use crate::cx::*;
pub use crate::drive::*;
pub use crate::gen::*;
pub use crate::reader::*;
pub use crate::rng::{Rng, Src};
pub use claxon::frame::FrameReader;
pub use claxon::input::{BufferedReader, ReadBytes};
pub use claxon::metadata::{self, MetadataBlock, MetadataBlockReader};
pub use claxon::{Error, FlacReader, FlacReaderOptions};
pub use std::io::Cursor;
pub use std::sync::Arc;

mod audio;
mod back;
mod classify;
mod conc;
mod damage;
mod errs;
mod hostile;
mod long;
mod meta;
mod os;
mod prim;
mod retry;
mod sub;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Cx) -> Res<()>,
    pub quick: u64,
    pub thorough: u64,
    pub chunk: u64,
    /// The first so many runs are scheduled alone (they may be heavy).
    pub heavy: u64,
    pub forced: fn(u64) -> Vec<u64>,
    pub rule: &'static str,
    pub nontrivial: &'static str,
    pub simulated: &'static str,
    pub assumptions: &'static [&'static str],
}

fn none(_: u64) -> Vec<u64> { vec![] }

const READER: &str = "the reader (io::Read stub: chunking, faults, latency decided by the seed), the caller, the allocator's fill patterns";
const GEN: &[&str] = &["The stream generator and the reference decoder in /verif/sim/src encode and read FLAC correctly (they were written independently of claxon and agree with each other and with claxon)."];

pub fn all() -> Vec<Prop> {
    let base = Prop {
        id: "", run: audio::c01, quick: 0, thorough: 0, chunk: 400, heavy: 8, forced: none,
        rule: "", nontrivial: "", simulated: READER, assumptions: GEN,
    };
    macro_rules! p {
        ($id:expr, $run:expr, $q:expr, $t:expr, $chunk:expr, $rule:expr, $nt:expr $(, $k:ident : $v:expr)*) => {
            #[allow(clippy::needless_update)]
            Prop { id: $id, run: $run, quick: $q, thorough: $t, chunk: $chunk, rule: $rule, nontrivial: $nt, $($k: $v,)* ..Prop { ..base } }
        };
    }
    vec![
        p!("C01", audio::c01, 360_000, 7_200_000, 500, "a random well-formed stream is delivered under a random chunking and decoded through a random interface; some have more frames than 16 bits count, the first run more than 4 GiB.", "at least one block was decoded and compared.", forced: long::far_forced),
        p!("C02", audio::c02, 420_000, 8_400_000, 500, "a random stream, one I/O error at one offset (also inside metadata and exactly at boundaries).", "the error fired."),
        p!("C03", audio::c03, 270_000, 5_400_000, 500, "a random stream with bursts of ErrorKind::Interrupted.", "at least one interruption fired."),
        p!("C04", retry::c04, 900_000, 18_000_000, 500, "a random stream, several transient failures, a caller that retries.", "at least one failure fired and at least one block followed it or preceded it."),
        p!("C05", audio::c05, 300_000, 6_000_000, 300, "a random stream cut at several offsets.", "at least one cut was inside a frame or the metadata."),
        p!("C06", damage::c06, 360_000, 7_200_000, 500, "a random stream whose audio bytes are damaged.", "the damage changed at least one frame."),
        p!("C07", hostile::c07, 480_000, 9_600_000, 400, "a sequence of valid, damaged and malicious frames decoded twice, in two memory worlds.", "at least one block was delivered."),
        p!("C08", hostile::c08, 360_000, 7_200_000, 500, "malformed and malicious input with all fault kinds, through every interface; the first runs feed 512 MiB runs of zero bits.", "at least one operation returned something other than an immediate sync error.", forced: hostile::c08_forced, heavy: 16),
        p!("C09", hostile::c09, 450_000, 9_000_000, 300, "claimed sizes against an accounting allocator.", "at least one operation's allocations were measured.", forced: hostile::c09_forced, heavy: 16),
        p!("C10", audio::c10, 240_000, 4_800_000, 500, "a random stream arriving piecewise in simulated time.", "at least one block was delivered and its last read call checked."),
        p!("C11", meta::c11, 1_200_000, 24_000_000, 500, "random metadata, metadata-only options, and faults or damage after the desired blocks.", "opening was checked."),
        p!("C12", meta::c12, 900_000, 18_000_000, 500, "random metadata (well-formed or damaged) against the reference parser.", "a metadata section was parsed."),
        p!("C13", audio::c13, 900_000, 18_000_000, 500, "a random history of API calls on one reader.", "at least two iterators were used."),
        p!("C14", conc::c14, 100_000, 2_000_000, 100, "several decoders interleaved by a simulated scheduler (threads, nesting, migration).", "at least two decoders were interleaved.", simulated: "the thread scheduler (real threads that run one at a time as the seed decides), the reader, the caller"),
        p!("C15", damage::c15, 750_000, 15_000_000, 500, "packets of one or more streams through a simulated lossy network.", "at least one packet was delivered.", simulated: "the packet network (loss, duplication, reordering, damage), the container, the caller"),
        p!("C16", audio::c16, 360_000, 7_200_000, 500, "a random numbered stream with lost or damaged frames.", "at least one block time was checked."),
        p!("C17", prim::c17, 1_800_000, 36_000_000, 1000, "a random history of primitive operations on a random source.", "at least one operation returned data.", forced: long::far_forced, assumptions: &["The byte and bit model in /verif/sim/src/props/prim.rs is right."]),
        p!("C18", hostile::c18, 210_000, 4_200_000, 400, "misbehaving readers, each run in two memory worlds with red zones.", "the misbehaviour happened.", simulated: "the (misbehaving) reader, the allocator's fill patterns and red zones"),
        p!("C19", retry::c19, 900_000, 18_000_000, 500, "terminal outcomes and the calls after them.", "a terminal outcome was reached."),
        p!("C20", os::c20, 360_000, 7_200_000, 300, "open/read/close results of a simulated file system.", "a simulated file was opened or its opening failed as planned.", simulated: "the system calls open, read and close behind the standard library (memory files), the caller"),
        p!("C21", classify::c21, 300_000, 10_000_000, 500, "a faulty or newer encoder writes one reserved, forbidden or unsupported construct into a sound stream, delivered under a random schedule.", "an outcome was compared with the reference's classification.", simulated: "the (faulty) encoder, the reader, the caller"),
        p!("C22", errs::c22, 400_000, 8_000_000, 500, "errors that decoding ends with under injected failures, displayed to a sink that may fail, compared and followed to their causes.", "at least one error was examined.", simulated: "the reader and its (nested, unprintable) errors, the sink the error is displayed to, the caller"),
        p!("C23", sub::c23, 600_000, 12_000_000, 500, "subframes and other bits of an embedding format, decoded from a random reader under faults.", "a subframe was decoded.", simulated: "the embedding format's encoder and reader (chunking, faults), the caller"),
        p!("C24", back::c24, 600_000, 12_000_000, 500, "a random history on a reader that is then given back, dropped, or lost to a failure or panic.", "a reader was handed over and followed."),
    ]
}

// ---------------------------------------------------------------- helpers

pub fn stream(cx: &mut Cx, o: StreamOpts) -> Stream {
    let Cx { ref mut src, ref mut st, .. } = *cx;
    let s = gen_stream(src, o, &mut |k| bump(&mut st.counts, k, 1));
    cx.note(|| format!("stream: {} bytes, {} Hz, {} ch, {} bit, {} numbering, metadata ends at {}, frames {:?}", s.bytes.len(), s.si.rate, s.si.ch,
        s.si.bps, if s.variable { "sample" } else { "frame" }, s.audio, s.frames.iter().map(|f| (f.start, f.end, f.bs)).collect::<Vec<_>>()));
    s
}

/// An offset of interest: anywhere, near a boundary, or near a buffer edge.
pub fn gen_offset(src: &mut Src, bounds: &[usize], lo: usize, hi: usize) -> usize {
    let v = match src.weighted(&[3, 4, 2, 1]) {
        0 => src.usize(lo, hi),
        1 => {
            let b = bounds[src.draw(bounds.len() as u64) as usize] as i64;
            (b + [0i64, 1, -1, 2][src.weighted(&[4, 2, 2, 1])]).max(0) as usize
        }
        2 => { let k = src.usize(1, hi / 2048 + 1) * 2048; (k + src.usize(0, 2)).saturating_sub(1) }
        _ => src.usize(lo, hi.min(lo + 12)),
    };
    v.max(lo).min(hi)
}

pub fn options(metadata_only: bool, read_vorbis_comment: bool) -> FlacReaderOptions {
    let mut o = FlacReaderOptions::default();
    o.metadata_only = metadata_only;
    o.read_vorbis_comment = read_vorbis_comment;
    o
}

/// Opens for audio a stream that must open.
pub fn open_ok(cx: &Cx, r: SimReader) -> Res<FlacReader<SimReader>> {
    match open(cx, r, FlacReaderOptions::default())? {
        Ok(f) => Ok(f),
        Err(e) => fail("open-failed", format!("opening a well-formed stream failed: {:?}", e)),
    }
}
