From 5b88fb2bc2aa43c95495b0f7dba6df8c2731d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 01/10] fix: do not serve stale bytes after a failed refill

When the inner reader failed, the buffer position was already reset to zero
but the number of valid bytes was not, so the next read returned bytes that
had been consumed before. Mark the buffer as empty before reading into it.
---
 src/input.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..4169b59 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -64,6 +64,19 @@ impl<R: io::Read> BufferedReader<R> {
     pub fn into_inner(self) -> R {
         self.inner
     }
+
+    /// Replenishes the depleted buffer, returns the number of bytes available.
+    ///
+    /// Must only be called when all bytes in the buffer have been consumed.
+    /// Returns 0 when the end of the stream has been reached.
+    fn refill(&mut self) -> io::Result<u32> {
+        // Mark the buffer as empty before reading into it. If the read fails,
+        // a later read must not see the bytes that were consumed already.
+        self.pos = 0;
+        self.num_valid = 0;
+        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
+        Ok(self.num_valid)
+    }
 }
 
 
@@ -133,10 +146,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8(&mut self) -> io::Result<u8> {
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-
-            if self.num_valid == 0 {
+            if try!(self.refill()) == 0 {
                 return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                           "Expected one more byte."))
             }
@@ -153,10 +163,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
     fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
-            self.pos = 0;
-            self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-
-            if self.num_valid == 0 {
+            if try!(self.refill()) == 0 {
                 return Ok(None);
             }
         }
@@ -177,9 +184,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-                if self.num_valid == 0 {
+                if try!(self.refill()) == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
                 }
@@ -198,10 +203,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
 
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
-                self.pos = 0;
-                self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-
-                if self.num_valid == 0 {
+                if try!(self.refill()) == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
                                               "Expected more bytes."))
                 }
-- 
2.43.0


From 0d2f50f2f4cbcb43cd56e26b27bccde5160ddbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 02/10] fix: retry reads that were interrupted

Per the contract of io::Read, ErrorKind::Interrupted is not fatal and the read
should be retried. Without this, a signal delivered in the middle of a frame
made the decoder lose that frame.
---
 src/input.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4169b59..5b7861c 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -74,8 +74,17 @@ impl<R: io::Read> BufferedReader<R> {
         // a later read must not see the bytes that were consumed already.
         self.pos = 0;
         self.num_valid = 0;
-        self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
-        Ok(self.num_valid)
+        loop {
+            match self.inner.read(&mut self.buf) {
+                Ok(count) => {
+                    self.num_valid = count as u32;
+                    return Ok(self.num_valid)
+                }
+                // An interrupted read is not an error, it should be retried.
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => {}
+                Err(err) => return Err(err),
+            }
+        }
     }
 }
 
-- 
2.43.0


From d0b3aa45020893039cc158a7d942d87cbf10696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 03/10] fix: do not trust the byte count returned by the inner
 reader

An io::Read implementation is safe code, it can return a count that exceeds
the size of the buffer. That count was the only thing that guarded unchecked
indexing into the buffer, so it could cause out of bounds reads.
---
 src/input.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input.rs b/src/input.rs
index 5b7861c..6789229 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -77,6 +77,13 @@ impl<R: io::Read> BufferedReader<R> {
         loop {
             match self.inner.read(&mut self.buf) {
                 Ok(count) => {
+                    // The unchecked indexing in `read_u8` relies on this, so do
+                    // not trust the inner reader here.
+                    if count > self.buf.len() {
+                        return Err(io::Error::new(io::ErrorKind::InvalidData,
+                                                  "Reader claims to have read more bytes \
+                                                   than fit in the buffer."))
+                    }
                     self.num_valid = count as u32;
                     return Ok(self.num_valid)
                 }
-- 
2.43.0


From 31a283c786c8a575e87b444426f98d1ddb255228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 04/10] fix: report a stream that ends after one byte of a
 frame header

A stream that was cut off exactly one byte into a frame was reported as a
clean end of stream, rather than as an unexpected end of file.
---
 src/input.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 6789229..175c447 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -122,9 +122,9 @@ pub trait ReadBytes {
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            // End of file is only fine before the first byte, not in between.
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From f43a2e1dff47bf490ece2dfa609f66cccd1babe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 05/10] fix: do not read past the streaminfo block when nothing
 else is desired

With metadata_only set and read_vorbis_comment unset, the reader still read
one block after streaminfo, and failed if that block was damaged or missing.
---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b94ee64..64719e8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -249,8 +249,13 @@ impl<R: io::Read> FlacReader<R> {
 
             let mut vorbis_comment = None;
 
-            // There might be more metadata blocks, read and store them.
-            for block_result in metadata_iter {
+            // There might be more metadata blocks, read and store them. Stop
+            // early once all desired blocks have been collected.
+            while opts_current.has_desired_blocks() {
+                let block_result = match metadata_iter.next() {
+                    Some(block_result) => block_result,
+                    None => break,
+                };
                 match try!(block_result) {
                     MetadataBlock::VorbisComment(vc) => {
                         // The Vorbis comment block need not be present, but
@@ -270,12 +275,6 @@ impl<R: io::Read> FlacReader<R> {
                     // Other blocks are currently not handled.
                     _block => {}
                 }
-
-                // Early-out reading metadata once all desired blocks have been
-                // collected.
-                if !opts_current.has_desired_blocks() {
-                    break
-                }
             }
 
             // TODO: Rather than discarding afterwards, never parse it in the
-- 
2.43.0


From 7e8a0e13cd6e498201cc6f897a621fa36d7aad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 06/10] fix: do not hand uninitialized memory to the user's
 reader

The buffers for the vendor string, Vorbis comments, and application blocks
were passed to ReadBytes::read_into while uninitialized. Implementations of
that trait are safe code, which could then read the uninitialized memory, or
leave it in place and report success.
---
 src/metadata.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index ddfe207..5978f07 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -429,12 +429,11 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
     // 32-bit vendor string length, and comment count.
     let vendor_len = try!(input.read_le_u32());
     if vendor_len > length - 8 { return fmt_err("vendor string too long") }
-    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);
 
-    // We can safely set the lenght of the vector here; the uninitialized memory
-    // is not exposed. If `read_into` succeeds, it will have overwritten all
-    // bytes. If not, an error is returned and the memory is never exposed.
-    unsafe { vendor_bytes.set_len(vendor_len as usize); }
+    // The buffer must be initialized, even though `read_into` overwrites it:
+    // `ReadBytes` and `io::Read` implementations are safe code provided by the
+    // user, which can inspect the buffer, or fail to fill it.
+    let mut vendor_bytes = vec![0; vendor_len as usize];
     try!(input.read_into(&mut vendor_bytes));
     let vendor = try!(String::from_utf8(vendor_bytes));
 
@@ -469,9 +468,8 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
             continue;
         }
 
-        // For the same reason as above, setting the length is safe here.
-        let mut comment_bytes = Vec::with_capacity(comment_len as usize);
-        unsafe { comment_bytes.set_len(comment_len as usize); }
+        // For the same reason as above, the buffer must be initialized.
+        let mut comment_bytes = vec![0; comment_len as usize];
         try!(input.read_into(&mut comment_bytes));
 
         bytes_left -= comment_len;
@@ -537,12 +535,8 @@ fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u
     let id = try!(input.read_be_u32());
 
     // Four bytes of the block have been used for the ID, the rest is payload.
-    // Create a vector of uninitialized memory, and read the block into it. The
-    // uninitialized memory is never exposed: read_into will either fill the
-    // buffer completely, or return an err, in which case the memory is not
-    // exposed.
-    let mut data = Vec::with_capacity(length as usize - 4);
-    unsafe { data.set_len(length as usize - 4); }
+    // The buffer is initialized for the same reason as for the Vorbis comment.
+    let mut data = vec![0; length as usize - 4];
     try!(input.read_into(&mut data));
 
     Ok((id, data))
-- 
2.43.0


From 1a441f00e26058a90e2d8c40838c5370eb99dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 07/10] fix: compute the time of a shorter final block
 correctly

In a stream with a fixed block size, frame headers contain a frame number. It
was multiplied with the size of the block itself to get the time of the block.
That is wrong for the final block, which may be shorter than the others. Use
the block size from the streaminfo block instead when it is fixed.
---
 src/frame.rs | 19 ++++++++++++++++++-
 src/lib.rs   | 15 ++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..c80f848 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -602,6 +602,9 @@ fn verify_block_stereo_samples_iterator() {
 /// no searching for a sync code is performed at the moment.
 pub struct FrameReader<R: ReadBytes> {
     input: R,
+
+    /// The block size that frame numbers count in, if it is known.
+    fixed_block_size: Option<u16>,
 }
 
 /// Either a `Block` or an `Error`.
@@ -650,8 +653,19 @@ fn ensure_buffer_len_returns_buffer_with_new_len() {
 impl<R: ReadBytes> FrameReader<R> {
     /// Creates a new frame reader that will yield at least one element.
     pub fn new(input: R) -> FrameReader<R> {
+        FrameReader::with_fixed_block_size(input, None)
+    }
+
+    /// Creates a new frame reader for a stream with the given block size.
+    ///
+    /// If the stream has a fixed block size, frame headers contain a frame
+    /// number, rather than a sample number. The final block of such stream may
+    /// be shorter, so its own size cannot be used to compute its time.
+    #[doc(hidden)]
+    pub fn with_fixed_block_size(input: R, block_size: Option<u16>) -> FrameReader<R> {
         FrameReader {
             input: input,
+            fixed_block_size: block_size,
         }
     }
 
@@ -769,7 +783,10 @@ impl<R: ReadBytes> FrameReader<R> {
         // TODO: constant block size should be verified if a frame number is
         // encountered.
         let time = match header.block_time {
-            BlockTime::FrameNumber(fnr) => header.block_size as u64 * fnr as u64,
+            BlockTime::FrameNumber(fnr) => {
+                let block_size = self.fixed_block_size.unwrap_or(header.block_size);
+                block_size as u64 * fnr as u64
+            }
             BlockTime::SampleNumber(snr) => snr,
         };
 
diff --git a/src/lib.rs b/src/lib.rs
index 64719e8..65c4634 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,6 +204,17 @@ fn read_stream_header<R: ReadBytes>(input: &mut R) -> Result<()> {
     }
 }
 
+/// Returns the block size of a stream where all blocks have the same size.
+///
+/// The final block of such a stream may still be shorter.
+fn fixed_block_size(streaminfo: &StreamInfo) -> Option<u16> {
+    if streaminfo.min_block_size == streaminfo.max_block_size {
+        Some(streaminfo.max_block_size)
+    } else {
+        None
+    }
+}
+
 impl<R: io::Read> FlacReader<R> {
     /// Create a reader that reads the FLAC format.
     ///
@@ -364,8 +375,10 @@ impl<R: io::Read> FlacReader<R> {
     /// happens. The representation of the decoded audio is somewhat specific to
     /// the FLAC format. For a higher-level interface, see `samples()`.
     pub fn blocks<'r>(&'r mut self) -> FrameReader<&'r mut BufferedReader<R>> {
+        let block_size = fixed_block_size(&self.streaminfo);
         match self.input {
-            FlacReaderState::Full(ref mut inp) => FrameReader::new(inp),
+            FlacReaderState::Full(ref mut inp) =>
+                FrameReader::with_fixed_block_size(inp, block_size),
             FlacReaderState::MetadataOnly(..) =>
                 panic!("FlacReaderOptions::metadata_only must be false \
                        to be able to use FlacReader::blocks()"),
-- 
2.43.0


From e7b4e527b312a3521087208ceed6456eb29acd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 08/10] fix: do not overflow on very long runs of zero bits

Reading a unary number with 2^32 zero bits or more overflowed the counter,
which causes a panic if overflow checks are enabled. The same holds for the
number of wasted bits with one zero bit less.
---
 src/input.rs    |  8 +++++++-
 src/subframe.rs | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 175c447..b3c19c0 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -515,7 +515,13 @@ impl<R: ReadBytes> Bitstream<R> {
             loop {
                 let fresh_byte = try!(self.reader.read_u8());
                 let zeros = fresh_byte.leading_zeros();
-                n = n + zeros;
+                // A valid file never contains this many zeros, but a malicious
+                // one might, and then the count should not overflow.
+                n = match n.checked_add(zeros) {
+                    Some(n) => n,
+                    None => return Err(io::Error::new(io::ErrorKind::InvalidData,
+                                                      "Unary number too large.")),
+                };
                 if zeros < 8 {
                     // We consumed the zeros, plus the one following it.
                     self.bits_left = 8 - (zeros + 1);
diff --git a/src/subframe.rs b/src/subframe.rs
index 06c637b..94bbcbe 100644
--- a/src/subframe.rs
+++ b/src/subframe.rs
@@ -73,15 +73,17 @@ fn read_subframe_header<R: ReadBytes>(input: &mut Bitstream<R>) -> Result<Subfra
     let wasted_bits = if !wastes_bits {
         0
     } else {
-        1 + try!(input.read_unary())
-    };
+        let zeros = try!(input.read_unary());
 
-    // The spec puts no bounds on the number of wasted bits per sample, but more
-    // than 31 does not make sense, as it would remove all data even for 32-bit
-    // samples.
-    if wasted_bits > 31 {
-        return fmt_err("wasted bits per sample must not exceed 31");
-    }
+        // The spec puts no bounds on the number of wasted bits per sample, but
+        // more than 31 does not make sense, as it would remove all data even
+        // for 32-bit samples.
+        if zeros > 30 {
+            return fmt_err("wasted bits per sample must not exceed 31");
+        }
+
+        1 + zeros
+    };
 
     let subframe_header = SubframeHeader {
         sf_type: sf_type,
-- 
2.43.0


From 2d466d5b7392f50ff18c9f8e21e2003b552ba849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 09/10] fix: reject sample numbers that are longer than the
 format allows

A coded number has at most 36 bits, in seven bytes. A first byte of eight
ones was taken for the start of a 42-bit number in eight bytes.
---
 src/frame.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index c80f848..b12d619 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -76,9 +76,10 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
         mask_mark = mask_mark >> 1;
     }
 
-    // A single leading 1 is a follow-up byte and thus invalid.
+    // A single leading 1 is a follow-up byte and thus invalid. The largest number
+    // is a 36-bit integer in 7 bytes, so eight leading 1s are invalid too.
     if read_additional > 0 {
-        if read_additional == 1 {
+        if read_additional == 1 || read_additional == 8 {
             return fmt_err("invalid variable-length integer");
         } else {
             // The number of 1s (if > 1) is the total number of bytes, not the
-- 
2.43.0


From f66fce0d01bf1e83e663b5b83c99a5888eb9f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:10 +0000
Subject: [PATCH 10/10] fix: do not overflow when a Cursor is positioned far
 behind its end

Skipping or filling from a Cursor whose position is close to the largest
u64 overflowed: a panic with overflow checks, and without them a skip
that succeeded and went back to the start of the data.
---
 src/input.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index b3c19c0..5d7392c 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -273,7 +273,9 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
+        // The position can be anything, so the addition might overflow.
+        let new_pos = pos.checked_add(buffer.len() as u64);
+        if new_pos.map_or(false, |p| p <= self.get_ref().as_ref().len() as u64) {
             let start = pos as usize;
             let end = pos as usize + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
@@ -286,7 +288,9 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+        // The position can be anything, so the addition might overflow.
+        let new_pos = pos.checked_add(amount as u64);
+        if new_pos.map_or(false, |p| p <= self.get_ref().as_ref().len() as u64) {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0

