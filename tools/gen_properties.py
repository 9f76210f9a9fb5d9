#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
            "hook_needed": hook,
        }})

p("C01", "Exact decoding whatever way the reader delivers the bytes",
  "For every well-formed FLAC stream that uses supported features, decoding yields exactly the encoded samples: every block in order with the right duration, channel count and per-channel samples, identically through blocks() and all Block accessors, samples() (channel-interleaved) and into_samples(), and then a clean end of stream. "
  "The result does not depend on how the reader splits the bytes over its read calls (one byte at a time, short reads, reads that stop at or straddle any header, frame or buffer boundary).",
  ["inputs", "schedules"], "all well-formed streams (every subframe type, predictor order, Rice method, channel assignment, block size, sample width, header coding) x all partitions of the bytes over read calls",
  "The tests decode four small files through std::fs::File, which always fills the buffer; no test delivers short reads to a frame, and the reference-decoder comparisons cover a handful of encoder settings.",
  ["src/frame.rs", "src/subframe.rs", "src/input.rs", "src/lib.rs"],
  [("buffered byte source and its refill", "src/input.rs BufferedReader"), ("bit reader carrying state over byte boundaries", "src/input.rs Bitstream"), ("frame decoding and channel decorrelation", "src/frame.rs FrameReader::read_next_or_eof"), ("subframe decoding and prediction", "src/subframe.rs decode"), ("interleaving iterator", "src/lib.rs FlacSamples::next")],
  ["FlacReader::blocks", "FlacReader::samples", "FlacReader::into_samples", "Block accessors"])

p("C02", "I/O errors surface unchanged, in place of nothing else",
  "When the reader fails with an I/O error at any point, the operation in progress reports precisely that error (same kind, OS code and payload) as an I/O error: it is never swallowed, replaced, or mistaken for end of stream or for a format error. "
  "Every block or sample whose bytes had been delivered before the failure is still returned first and is exact, and nothing partial is returned.",
  ["inputs", "fault_sequences", "crash_points"], "all well-formed streams x every byte offset at which a read can fail x every error kind x every delivery schedule, while opening and while decoding",
  "No test injects an I/O error; a Cursor or File never fails mid-stream in the suite.",
  ["src/input.rs", "src/error.rs", "src/lib.rs", "src/frame.rs", "src/crc.rs", "src/metadata.rs"],
  [("error propagation from the inner reader", "src/input.rs BufferedReader"), ("From<io::Error>", "src/error.rs"), ("checksum readers forwarding errors", "src/crc.rs")],
  ["FlacReader::new/new_ext result", "read_next_or_eof result", "sample iterator items"])

p("C03", "Interrupted reads are invisible",
  "A read that fails with ErrorKind::Interrupted (a signal, EINTR) is retried, as the contract of std::io::Read asks: opening a stream, reading or skipping metadata, and decoding audio give exactly the results of an uninterrupted run. "
  "This holds for any number of interruptions at any points.",
  ["inputs", "fault_sequences", "schedules"], "all streams x all placements and burst lengths of interrupted reads",
  "No test ever returns Interrupted from a reader.",
  ["src/input.rs"],
  [("refill of the buffered reader, used by every read primitive", "src/input.rs BufferedReader")],
  ["FlacReader results", "ReadBytes primitives on BufferedReader"])

p("C04", "Retrying after a transient failure never replays or invents audio",
  "After a transient read failure (timeout, would-block, or a zero-length read of a stream that later grows) the caller may call the block reader again, on the same or a new FrameReader over the same source, and every block then returned is a genuine frame of the stream, later than all blocks returned before: none is duplicated, reordered, stale or made up. "
  "If the failure hit exactly between two frames nothing is lost: the retry returns the next frame.",
  ["fault_sequences", "histories", "crash_points"], "all streams x all sets of transient failures (position, kind) x retry histories",
  "Needs a reader that fails and then recovers, and an operation history that goes on after the error; the suite has neither.",
  ["src/input.rs", "src/frame.rs", "src/lib.rs"],
  [("buffer position and fill level after a failed refill", "src/input.rs BufferedReader")],
  ["sequence of FrameReader::read_next_or_eof results across errors"],
  [{"name": "pos/num_valid", "meaning": "window of unread bytes in the buffer; must be empty after a failed refill", "where": "src/input.rs BufferedReader"}])

p("C05", "A truncated stream yields its exact prefix and then an explicit error",
  "If the stored stream ends early at any byte (crash while recording, lost tail), every complete frame before the cut is delivered exactly and no part of the incomplete frame is delivered. "
  "A cut inside the metadata makes opening fail, and a cut inside a frame makes decoding fail, with an UnexpectedEof I/O error; only a stream that ends exactly between two frames is reported as a clean end.",
  ["inputs", "crash_points"], "all well-formed streams x every cut position x delivery schedules",
  "The suite decodes only complete files (the fuzz samples check only for panics).",
  ["src/input.rs", "src/frame.rs", "src/lib.rs", "src/metadata.rs"],
  [("EOF at the start of a frame versus inside it", "src/input.rs read_be_u16_or_eof, src/frame.rs read_frame_header_or_eof"), ("UnexpectedEof on depletion", "src/input.rs BufferedReader, Cursor")],
  ["FlacReader::new result", "read_next_or_eof result", "sample iterator end"])

p("C06", "Damaged audio is detected, never delivered",
  "A block is delivered only if the exact bytes it was decoded from begin with a valid sync code and pass both the header CRC-8 and the frame CRC-16; damage to stored bytes (flipped bits, lost, zeroed, duplicated or swapped sectors, inserted or deleted bytes) in a frame is reported as an error instead. "
  "Frames before the damage are delivered exactly.",
  ["inputs", "fault_sequences"], "all well-formed streams x all placements and kinds of storage damage",
  "No test contains a frame with a wrong checksum in a decoded file, and the CRC unit tests check three short vectors each.",
  ["src/frame.rs", "src/crc.rs", "src/input.rs"],
  [("header CRC-8", "src/frame.rs read_frame_header_or_eof"), ("frame CRC-16", "src/frame.rs FrameReader::read_next_or_eof"), ("checksum state update on every byte", "src/crc.rs")],
  ["read_next_or_eof results on damaged streams"])

p("C07", "Decoded blocks do not depend on buffer or memory history",
  "The contents of a returned block are a function of the frame's bytes only: they never depend on what the recycled buffer contained, its length or capacity, on which blocks or errors came before, or on what freshly allocated memory contained. "
  "This also holds for malformed and malicious frames that are accepted, so no uninitialised or earlier data can leak into the output, and no accessor of the block shows anything beyond it: asking for a channel or a sample outside it panics, as documented. The empty block, with which callers start, has no channels, no samples and no buffer.",
  ["inputs", "histories", "fault_sequences"], "all streams including malformed ones x all buffer histories (fresh, recycled, pre-filled, too small, too large, from another stream) x all initial memory contents",
  "One regression test compares two fill patterns on 23 fixed fuzz files with one buffer size; it varies neither the buffer history, nor the allocator, nor faults in between.",
  ["src/frame.rs", "src/subframe.rs", "src/lib.rs"],
  [("buffer resizing", "src/frame.rs ensure_buffer_len"), ("every sample overwritten by every subframe decoder", "src/subframe.rs decode, decode_residual")],
  ["Block::channel", "Block::into_buffer", "FlacSamples items"])

p("C08", "No input and no fault sequence can panic, abort or hang the decoder",
  "For every byte stream, well-formed or malicious, and every sequence of reader faults, each public decoding and metadata operation returns a value or an error: it never panics (also with overflow checks on), never overflows the stack and never loops. "
  "Work is bounded by the input: the number of read calls an operation makes is at most the number of bytes and faults the reader delivered to it plus one, and its computation is bounded by a constant (the work of the largest possible block) plus a constant per byte delivered.",
  ["inputs", "fault_sequences"], "all byte strings (including structurally valid frames with out-of-range fields and correct checksums, and streams with hundreds of megabytes of zeros) x all fault sequences",
  "Only the 23 committed fuzz samples are replayed; they were found with checksums disabled and never see a failing reader.",
  ["src/subframe.rs", "src/frame.rs", "src/metadata.rs", "src/input.rs", "src/lib.rs"],
  [("range checks before shifts, slices and subtractions", "src/subframe.rs, src/frame.rs, src/metadata.rs"), ("wrapping arithmetic in prediction and decorrelation", "src/subframe.rs predict_*, src/frame.rs decode_*_side"), ("termination on zero-length reads", "src/input.rs BufferedReader")],
  ["every public operation"])

p("C09", "Memory use is bounded whatever the stream claims",
  "Whatever sizes a stream claims, opening it or reading its metadata never holds more than 256 MiB, and an application or Vorbis comment block that claims more than 10 MiB is refused as unsupported before anything of that size is allocated. "
  "Decoding a frame allocates at most twice the four bytes per sample its block needs (plus a small constant), and nothing at all when the recycled buffer already has the capacity. "
  "A reader that is dropped, at any point of a stream and after any error, releases what it held: nothing accumulates from one stream to the next.",
  ["inputs", "histories"], "all streams, including damaged and malicious ones x all buffer histories",
  "Two tests check two oversized Vorbis comment claims; application blocks, comment counts, frame buffers and recycling are not covered, and no test measures allocation.",
  ["src/metadata.rs", "src/frame.rs"],
  [("block size limits", "src/metadata.rs read_vorbis_comment_block, read_application_block"), ("comment count limit", "src/metadata.rs read_vorbis_comment_block"), ("buffer reuse", "src/frame.rs ensure_buffer_len, src/lib.rs FlacSamples::next")],
  ["allocator calls made during FlacReader::new, MetadataBlockReader::next, read_next_or_eof, and what is left of them after the reader is dropped"])

p("C10", "Audio is delivered as soon as its last byte has arrived",
  "Decoding is on demand and never reads ahead: a block (or sample) is returned without asking the reader for anything once the last byte of its frame has been delivered, opening for audio asks for nothing after the last metadata byte, and samples of an already decoded block are returned without reading. "
  "So on a live or stalled stream every frame becomes available at the moment its last byte arrives.",
  ["schedules", "fault_sequences", "inputs"], "all streams x all arrival schedules, including a source that stalls forever right after any frame",
  "Files never stall, so no test can tell whether the decoder waits for bytes it does not need.",
  ["src/input.rs", "src/frame.rs", "src/lib.rs"],
  [("refill only when the buffer is empty and a byte is needed", "src/input.rs BufferedReader"), ("no lookahead in the bit reader", "src/input.rs Bitstream")],
  ["read calls observed by the reader against returned blocks"])

p("C11", "Metadata-only opening reads only what was asked for",
  "With metadata_only set, opening returns as soon as the desired blocks are complete (the streaminfo, and the Vorbis comment if read_vorbis_comment is set) and asks the reader for nothing after them; it therefore succeeds with the same values whatever follows: missing, damaged or unreadable data. "
  "Only when a desired Vorbis comment is absent does it read up to the last metadata block. "
  "Such a reader never yields audio: asking it for blocks or samples panics, as documented, and reads nothing.",
  ["configurations", "inputs", "fault_sequences"], "all option combinations x all metadata layouts x all faults and damage after the desired blocks",
  "Two tests open one intact file with two option sets and look at the vendor string only.",
  ["src/lib.rs", "src/metadata.rs"],
  [("early-out of the metadata loop", "src/lib.rs FlacReader::new_ext, FlacReaderOptions::has_desired_blocks")],
  ["FlacReader::new_ext result", "read calls observed by the reader", "blocks/samples/into_samples of a metadata-only reader"])

p("C12", "Metadata is reported exactly as stored",
  "For every well-formed stream and every delivery schedule, the reported streaminfo fields, vendor string, tags (order, names, values, count, case-insensitive lookup of all values of a name) and metadata blocks (padding lengths, application ids and payloads) are exactly those stored, empty comments being skipped, and each block is consumed to exactly its declared length so that what follows is read in alignment; the iterators over tags and blocks give the same in whatever way they are used, and their size hints are right. "
  "Streams with a missing or second streaminfo, a second Vorbis comment, an inconsistent streaminfo or a Vorbis comment block whose lengths do not add up are refused.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "all metadata layouts and contents x all delivery schedules x stored-byte damage in the metadata",
  "The tests read the tags of three prepared files; block skipping across buffer boundaries, limits, and damaged blocks are sampled by a few files only.",
  ["src/metadata.rs", "src/lib.rs", "src/input.rs"],
  [("streaminfo parsing and validation", "src/metadata.rs read_streaminfo_block"), ("Vorbis comment parsing", "src/metadata.rs read_vorbis_comment_block"), ("skip across refills", "src/input.rs BufferedReader::skip"), ("uniqueness checks", "src/lib.rs FlacReader::new_ext")],
  ["FlacReader::streaminfo/vendor/tags/get_tag", "MetadataBlockReader items", "read_metadata_block_with_header"])

p("C13", "Any mix of iteration calls keeps the stream position consistent",
  "In any sequence of calls that mixes blocks(), samples(), dropping iterators part-way, and finally into_samples() on one reader, each new iterator continues with the frame after the last one decoded, so the only samples skipped are the unread ones of a block whose iterator was dropped, and no sample is repeated. It makes no difference how an iterator is used (next, nth, skip, take, count, last and so on give what repeated calls of next would), and its size hint is always right. "
  "The streaminfo and tags stay the same throughout.",
  ["histories", "schedules", "inputs"], "all operation sequences x all streams x all delivery schedules",
  "Tests use one iterator per reader from start to end.",
  ["src/lib.rs", "src/frame.rs", "src/input.rs"],
  [("iterators borrow the same buffered source", "src/lib.rs FlacReader::blocks/samples/into_samples"), ("frame-aligned position between calls", "src/frame.rs FrameReader::read_next_or_eof")],
  ["results of every call in the history"])

p("C14", "Decoders running side by side do not influence each other",
  "Any number of decoders interleaved in any way (on several threads and switched at any instruction in the middle of a frame, one inside another's reader, moved between threads, or exchanging recycled buffers) each produce exactly what they produce when run alone. Whoever may send the source to another thread may send its readers, iterators, blocks and errors there.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings, down to single loads and stores, x all streams, with faults in some of the decoders",
  "No test runs two decoders at once in a controlled interleaving.",
  ["src/frame.rs", "src/subframe.rs", "src/input.rs", "src/lib.rs"],
  [("all state owned by the reader value; no globals", "src/lib.rs FlacReader, src/input.rs BufferedReader")],
  ["per-decoder results under a simulated scheduler"])

p("C15", "Frames and metadata packets decode independently in containers",
  "When frames or metadata blocks arrive as separate packets or seekable chunks (Ogg, MP4), each intact packet decodes to exactly its own block whatever happened to the packets before it (lost, duplicated, reordered, damaged, cut short), with buffers recycled between them. "
  "Exactly the bytes of the frame or block are consumed from the source, a damaged or cut packet gives an error, never audio, and so does a metadata packet whose content contradicts its declared length.",
  ["fault_sequences", "schedules", "histories"], "all packetised streams x all network fault sequences x source types (Cursor, BufferedReader, &mut)",
  "The container examples are not tested at all.",
  ["src/frame.rs", "src/metadata.rs", "src/input.rs"],
  [("FrameReader over any ReadBytes, no cross-frame state", "src/frame.rs FrameReader"), ("Cursor source", "src/input.rs impl ReadBytes for io::Cursor"), ("stand-alone metadata block parsing", "src/metadata.rs read_metadata_block, read_metadata_block_with_header")],
  ["FrameReader::read_next_or_eof per packet", "FrameReader::into_inner position"])

p("C16", "Block times follow the stream's sample numbering",
  "For a stream decoded through FlacReader, Block::time() is the inter-channel sample number of the block's first sample: for consecutive blocks time plus duration equals the next block's time, including a shorter last block, for fixed and variable block sizes, and for any starting frame or sample number the format can code. "
  "Times of the blocks that are still delivered stay right when other frames are lost or damaged.",
  ["inputs", "fault_sequences", "histories"], "all streams (both blocking strategies, numbers up to 31 and 36 bits, short last blocks) x lost or damaged frames x iteration histories",
  "No test looks at Block::time().",
  ["src/frame.rs", "src/lib.rs"],
  [("coded frame or sample number", "src/frame.rs read_var_length_int, read_frame_header_or_eof"), ("conversion to a sample number", "src/frame.rs FrameReader::read_next_or_eof")],
  ["Block::time", "Block::duration"])

p("C17", "Byte and bit primitives deliver the source exactly once, in order",
  "Every sequence of ReadBytes operations (single bytes, fixed-width integers of either endianness, fills, skips) on BufferedReader, Cursor (wherever its owner has positioned it, also far behind its end) or a mutable reference, and of Bitstream operations, returns exactly the source's next bytes or bits, consumed exactly once, whatever the chunking of the source; end of stream is reported only at the real end. "
  "A single-byte read that failed transiently has consumed nothing, and after any failed operation no earlier byte is ever returned again.",
  ["histories", "schedules", "fault_sequences"], "all operation sequences x all chunkings x all fault placements",
  "The unit tests run short fixed sequences on a few bytes that fit one buffer fill.",
  ["src/input.rs"],
  [("refill, read_into and skip across refills", "src/input.rs BufferedReader"), ("bit carry", "src/input.rs Bitstream"), ("Cursor implementation", "src/input.rs")],
  ["ReadBytes methods", "Bitstream methods"])

p("C18", "A misbehaving source cannot breach memory safety or leak memory contents",
  "Whatever a safe reader implementation does (claims more bytes than the buffer holds, claims success without writing, scribbles and fails, panics mid-read and is used again), the decoder never reads or writes outside its buffers and never returns uninitialised or unrelated memory; it reports an error, panics cleanly, or uses only bytes of its own initialised buffers. "
  "Buffers handed to the reader are always initialised.",
  ["fault_sequences", "inputs", "histories"], "all streams x all contract violations of io::Read and ReadBytes implementations at all points",
  "All readers in the tests are well-behaved std types.",
  ["src/input.rs", "src/metadata.rs", "src/frame.rs"],
  [("unchecked indexing in the buffered reader", "src/input.rs BufferedReader::read_u8"), ("buffers of strings and application data", "src/metadata.rs read_vorbis_comment_block, read_application_block"), ("unchecked indexing in stereo_samples", "src/frame.rs StereoSamples")],
  ["returned data under two different memory fill patterns; allocation red zones"])

p("C19", "Terminal outcomes are final",
  "After a sample iterator has returned an error it returns only None and never touches the reader again; after the metadata block reader has returned an error or the last block it returns only None and reads nothing. "
  "After a clean end of stream, iterating further keeps reporting the end as long as the source has no more data.",
  ["fault_sequences", "histories"], "all streams x all faults (I/O errors, truncation, damage) x any number of further calls",
  "No test calls an iterator again after an error or after its end.",
  ["src/lib.rs", "src/metadata.rs"],
  [("has_failed flag", "src/lib.rs FlacSamples::next"), ("done flag", "src/metadata.rs MetadataBlockReader::next")],
  ["iterator items after the first terminal item", "read calls observed by the reader"],
  [{"name": "has_failed", "meaning": "sample iteration ended by an error", "where": "src/lib.rs FlacSamples"}, {"name": "done", "meaning": "metadata iteration finished", "where": "src/metadata.rs MetadataBlockReader"}])

p("C20", "Opening by path behaves like reading the file, under failing system calls",
  "FlacReader::open and open_ext give exactly the metadata and audio of the file's bytes under any sequence of short, interrupted or failing system calls; a failing open or read is reported as an I/O error with the operating system's error code. "
  "The file descriptor is closed exactly once on every path, including every failed open; permission to read suffices, the path may name a pipe or device (no size, no seeking), and the file is left as it was. "
  "Reading is buffered: when the system fills every request, there is at most one read call per 256 bytes of the file, plus a few.",
  ["fault_sequences", "configurations", "inputs"], "all files x all fault sequences of open and read system calls x option sets",
  "The tests open existing, readable files on a file system that does not fail.",
  ["src/lib.rs", "src/input.rs"],
  [("convenience constructors", "src/lib.rs FlacReader<fs::File>::open, open_ext")],
  ["open/open_ext results", "system calls seen by a simulated file system"])

p("C21", "What a faulty or newer encoder writes is classified correctly and never misread",
  "Wherever it occurs in a stream, and however the bytes are delivered, a value that the format reserves or forbids is rejected as a format error, and a feature that is in the format but not implemented is rejected as unsupported; it is never decoded as audio or metadata, confused with the end of the stream, or blamed on the other class. "
  "Format errors: reserved bits and codes of the frame header (sync code, reserved bits, block size, sample rate, channel assignment, sample width), numbers that are not a valid coded integer of at most 36 bits (31 for frame numbers), a block size over 65535, reserved subframe types and bits, more wasted bits than the sample width leaves, a reserved residual coding, partition orders that do not fit the block, predictor orders above the block size, the invalid predictor precision; in metadata, a missing, repeated or inconsistent streaminfo, the forbidden block type, and malformed comments. "
  "Unsupported: escape-coded (unencoded) residual partitions, negative predictor shifts, frame headers that leave the sample width to the streaminfo, and comment or application blocks over 10 MiB (up to and including 10 MiB they are read). "
  "Every frame before the construct is delivered exactly, and a stream that has none of these is never refused.",
  ["inputs", "schedules"], "all streams with one or more such constructs at any position (frame, subframe, partition, metadata block), with right checksums around them x all delivery schedules and interrupted reads", "The tests contain a few malformed files, each with one defect, read in one piece; the checks on reserved values sit in a dozen places that depend on earlier fields of the same frame.",
  ["src/frame.rs", "src/subframe.rs", "src/metadata.rs", "src/lib.rs"],
  [("reserved-value checks of frame headers", "src/frame.rs read_frame_header_or_eof, read_var_length_int"), ("reserved-value checks of subframes and residuals", "src/subframe.rs read_subframe_header, decode_residual, decode_lpc"), ("structure checks of metadata", "src/metadata.rs read_streaminfo_block, read_vorbis_comment_block; src/lib.rs new_ext")],
  ["error variants of FlacReader::new_ext, read_next_or_eof and the iterators"])

p("C22", "Errors say what went wrong, compare by it, and keep their cause",
  "Two errors are equal exactly if both are format errors, or both unsupported-feature errors, with the same reason; an I/O error is equal to nothing, itself included. "
  "The same malformed bytes end with the same error however they are delivered. A stream that starts with an ID3 tag is refused with a reason that says so. Every error's display text contains its reason (of an I/O error, the text of the io::Error); displaying it fails if and only if the sink, or the reader's own error when it is displayed, fails. "
  "An I/O error, wherever it struck, holds the very io::Error of the reader (kind, OS code, payload) and gives it as its cause, with the chain of causes behind it; other errors have no cause.",
  ["inputs", "schedules", "fault_sequences"], "all errors that all damaged or cut inputs and all failures of the reader at any byte lead to, under all delivery schedules, and all errors made by callers x failures of the sink at any byte", "Tests compare a few errors made by hand; they do not display them, follow their causes, or compare errors of two executions.",
  ["src/error.rs", "src/metadata.rs", "src/frame.rs", "src/lib.rs"], [("PartialEq, Display and Error impls; From conversions", "src/error.rs"), ("errors of decoding", "src/lib.rs new_ext, src/frame.rs read_next_or_eof, src/metadata.rs read_metadata_block")], ["Error trait impls", "errors of FlacReader, FrameReader, read_metadata_block and the ReadBytes primitives"])

p("C23", "Subframes decode on their own, to the bit",
  "A subframe decoded directly with subframe::decode from any ReadBytes (by code that has its own framing), at any bit position and for any sample width up to 32 bits, gives exactly the encoded samples whatever the buffer contained and however the bytes are delivered, and consumes exactly its bits: what follows in the same bit reader is read in alignment, and a new bit reader continues at the next byte. "
  "When the source fails inside it, that I/O error (UnexpectedEof where the source ends) is returned; a malformed subframe is a format error and an unimplemented feature is unsupported; nothing panics.",
  ["inputs", "schedules", "fault_sequences"], "all sequences of subframes of all types, widths and lengths with other bits between them x all delivery schedules x failures at any byte", "The tests decode a few short hand-written subframes from a cursor in memory.",
  ["src/subframe.rs", "src/input.rs"],
  [("subframe decoding", "src/subframe.rs decode, decode_residual, decode_rice_partition, predict_fixed, predict_lpc_*"), ("bit reader", "src/input.rs Bitstream")],
  ["result of subframe::decode, buffer contents, and the bits and bytes read after it"])

p("C24", "The source is given back as it is and let go of exactly once",
  "The reader belongs to the caller: at any point of any history (after failures, panics of the reader, the end of the stream, with metadata_only or not) into_inner of FlacReader, FrameReader and BufferedReader gives back the very reader that was put in; neither that, nor creating or dropping a reader or iterator, nor the accessors, read from it. "
  "A reader that is not given back is dropped exactly once: when its owner is dropped, or when opening fails or panics. "
  "What a FrameReader gives back stands directly behind the last frame it returned: a new FrameReader, or the caller, goes on there with nothing lost or repeated; the same holds for a MetadataBlockReader over a borrowed source.",
  ["histories", "fault_sequences", "schedules"], "all call histories x all delivery schedules and faults, including panicking readers", "The tests drop readers that nobody watches, and never take a source back in the middle of a stream.",
  ["src/lib.rs", "src/frame.rs", "src/input.rs", "src/metadata.rs"],
  [("ownership of the source", "src/lib.rs FlacReader::{new_ext, into_inner, into_samples}, src/input.rs BufferedReader::into_inner, src/frame.rs FrameReader::into_inner")],
  ["identity, drop count, read calls and position of the reader"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
