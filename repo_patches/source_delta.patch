From f42b26e19cbc9aee528a9c4d4d8538cb878603ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 1/8] fix: a single trailing byte is not a clean end of stream

read_be_u16_or_eof returned None when only one of the two bytes was left, so a
stream cut one byte into a frame was reported as complete.
---
 src/input.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ec5b7d..9faa1f3 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -93,9 +93,9 @@ pub trait ReadBytes {
     /// Reads two bytes and interprets them as a big-endian 16-bit unsigned integer.
     fn read_be_u16_or_eof(&mut self) -> io::Result<Option<u16>> {
         if let Some(b0) = try!(self.read_u8_or_eof()) {
-            if let Some(b1) = try!(self.read_u8_or_eof()) {
-                return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
-            }
+            // After the first byte, running out of data is no clean end any more.
+            let b1 = try!(self.read_u8());
+            return Ok(Some((b0 as u16) << 8 | (b1 as u16)));
         }
         Ok(None)
     }
-- 
2.43.0


From 396602d9e87da7921206dbd565a454a7fa5c6a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 2/8] fix: do not serve stale bytes after a failed refill

When the inner reader failed, pos had already been reset to 0 while num_valid
still described the old contents, so the next read returned old bytes again.
---
 src/input.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.rs b/src/input.rs
index 9faa1f3..4ab9f48 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -134,6 +134,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
         if self.pos == self.num_valid {
             // The buffer was depleted, replenish it first.
             self.pos = 0;
+            self.num_valid = 0;
             self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
 
             if self.num_valid == 0 {
@@ -154,6 +155,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
         if self.pos == self.num_valid {
             // The buffer was depleted, try to replenish it first.
             self.pos = 0;
+            self.num_valid = 0;
             self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
 
             if self.num_valid == 0 {
@@ -178,6 +180,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
             if bytes_left > 0 {
                 // Replenish the buffer if there is more to be read.
                 self.pos = 0;
+                self.num_valid = 0;
                 self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
                 if self.num_valid == 0 {
                     return Err(io::Error::new(io::ErrorKind::UnexpectedEof,
@@ -199,6 +202,7 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
             if amount > 0 {
                 // If there is more to skip, refill the buffer first.
                 self.pos = 0;
+                self.num_valid = 0;
                 self.num_valid = try!(self.inner.read(&mut self.buf)) as u32;
 
                 if self.num_valid == 0 {
-- 
2.43.0


From ad25206bcc1eb5c4eeb172b36c4ef96c9825271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 3/8] fix: bounds-check the buffer access in
 BufferedReader::read_u8

An io::Read implementation that returns more than the buffer length made safe
code read outside the buffer.
---
 src/input.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index 4ab9f48..c00aa86 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -144,9 +144,9 @@ impl<R: io::Read> ReadBytes for BufferedReader<R>
         }
 
         // At this point there is at least one more byte in the buffer, we
-        // checked that above. However, when using regular indexing, the
-        // compiler still inserts a bounds check here. It is safe to avoid it.
-        let byte = unsafe { *self.buf.get_unchecked(self.pos as usize) };
+        // checked that above. The bounds check is still needed: the inner
+        // reader is arbitrary safe code that may overstate what it read.
+        let byte = self.buf[self.pos as usize];
         self.pos += 1;
         Ok(byte)
     }
-- 
2.43.0


From 2ea08d93ff90984c2fa8f4d916d2bd9801e76ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:36 +0000
Subject: [PATCH 4/8] fix: avoid overflow for cursors positioned far past the
 end

pos + len could overflow u64, which panicked in debug builds and let the bounds
check pass in release builds.
---
 src/input.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input.rs b/src/input.rs
index c00aa86..d7cbe50 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -259,7 +259,8 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn read_into(&mut self, buffer: &mut [u8]) -> io::Result<()> {
         let pos = self.position();
-        if pos + buffer.len() as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        if pos <= len && buffer.len() as u64 <= len - pos {
             let start = pos as usize;
             let end = pos as usize + buffer.len();
             buffer.copy_from_slice(&self.get_ref().as_ref()[start..end]);
@@ -272,7 +273,8 @@ impl<T: AsRef<[u8]>> ReadBytes for io::Cursor<T> {
 
     fn skip(&mut self, amount: u32) -> io::Result<()> {
         let pos = self.position();
-        if pos + amount as u64 <= self.get_ref().as_ref().len() as u64 {
+        let len = self.get_ref().as_ref().len() as u64;
+        if pos <= len && amount as u64 <= len - pos {
             self.set_position(pos + amount as u64);
             Ok(())
         } else {
-- 
2.43.0


From 842f55e7f9cfe78eae76edc2869300f2396a0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 5/8] fix: reject 0xff as first byte of a coded number

A byte of eight 1s is not a valid start of a coded number; it was read as the
start of an eight-byte number of up to 42 bits.
---
 src/frame.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame.rs b/src/frame.rs
index 9c06852..4be9941 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -65,6 +65,12 @@ fn read_var_length_int<R: ReadBytes>(input: &mut R) -> Result<u64> {
     // The number of consecutive 1s followed by a 0 is the number of additional
     // bytes to read.
     let first = try!(input.read_u8());
+
+    // Eight leading 1s do not announce any length.
+    if first == 0xff {
+        return fmt_err("invalid variable-length integer");
+    }
+
     let mut read_additional = 0u8;
     let mut mask_data = 0b0111_1111u8;
     let mut mask_mark = 0b1000_0000u8;
-- 
2.43.0


From f0c7e7625d2fda2bf88870893903b9bef711f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 6/8] fix: compute the time of a short last block from the
 stream's block size

In a stream with a fixed block size the frame header holds a frame number.
Multiplying it by the size of the block at hand is wrong for the last block,
which may be shorter, so Block::time() reported a position too early.
---
 src/frame.rs | 26 +++++++++++++++++++++++++-
 src/lib.rs   |  8 +++++---
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 4be9941..6270812 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -12,6 +12,7 @@ use std::i32;
 use crc::{Crc8Reader, Crc16Reader};
 use error::{Error, Result, fmt_err};
 use input::{Bitstream, ReadBytes};
+use metadata::StreamInfo;
 use subframe;
 
 #[derive(Clone, Copy)]
@@ -608,6 +609,12 @@ fn verify_block_stereo_samples_iterator() {
 /// no searching for a sync code is performed at the moment.
 pub struct FrameReader<R: ReadBytes> {
     input: R,
+
+    /// The block size of a stream with a fixed block size, if known.
+    ///
+    /// The last block of such a stream may be shorter, so its own size does not
+    /// tell where it starts.
+    fixed_block_size: Option<u16>,
 }
 
 /// Either a `Block` or an `Error`.
@@ -658,6 +665,21 @@ impl<R: ReadBytes> FrameReader<R> {
     pub fn new(input: R) -> FrameReader<R> {
         FrameReader {
             input: input,
+            fixed_block_size: None,
+        }
+    }
+
+    /// Creates a frame reader for the frames that follow the given streaminfo.
+    #[doc(hidden)]
+    pub fn with_streaminfo(input: R, streaminfo: &StreamInfo) -> FrameReader<R> {
+        let fixed_block_size = if streaminfo.min_block_size == streaminfo.max_block_size {
+            Some(streaminfo.max_block_size)
+        } else {
+            None
+        };
+        FrameReader {
+            input: input,
+            fixed_block_size: fixed_block_size,
         }
     }
 
@@ -775,7 +797,9 @@ impl<R: ReadBytes> FrameReader<R> {
         // TODO: constant block size should be verified if a frame number is
         // encountered.
         let time = match header.block_time {
-            BlockTime::FrameNumber(fnr) => header.block_size as u64 * fnr as u64,
+            BlockTime::FrameNumber(fnr) => {
+                self.fixed_block_size.unwrap_or(header.block_size) as u64 * fnr as u64
+            }
             BlockTime::SampleNumber(snr) => snr,
         };
 
diff --git a/src/lib.rs b/src/lib.rs
index b94ee64..5a0c1ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -366,7 +366,9 @@ impl<R: io::Read> FlacReader<R> {
     /// the FLAC format. For a higher-level interface, see `samples()`.
     pub fn blocks<'r>(&'r mut self) -> FrameReader<&'r mut BufferedReader<R>> {
         match self.input {
-            FlacReaderState::Full(ref mut inp) => FrameReader::new(inp),
+            FlacReaderState::Full(ref mut inp) => {
+                FrameReader::with_streaminfo(inp, &self.streaminfo)
+            }
             FlacReaderState::MetadataOnly(..) =>
                 panic!("FlacReaderOptions::metadata_only must be false \
                        to be able to use FlacReader::blocks()"),
@@ -397,7 +399,7 @@ impl<R: io::Read> FlacReader<R> {
         match self.input {
             FlacReaderState::Full(ref mut inp) => {
                 FlacSamples {
-                    frame_reader: frame::FrameReader::new(inp),
+                    frame_reader: FrameReader::with_streaminfo(inp, &self.streaminfo),
                     block: Block::empty(),
                     sample: 0,
                     channel: 0,
@@ -419,7 +421,7 @@ impl<R: io::Read> FlacReader<R> {
             FlacReaderState::Full(inp) => {
                 FlacIntoSamples {
                     inner: FlacSamples {
-                        frame_reader: frame::FrameReader::new(inp),
+                        frame_reader: FrameReader::with_streaminfo(inp, &self.streaminfo),
                         block: Block::empty(),
                         sample: 0,
                         channel: 0,
-- 
2.43.0


From a59e73cacf49b98de8edd51147f2e7e0d37dcbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 7/8] fix: do not pass uninitialized memory to
 ReadBytes::read_into

ReadBytes is a public trait with safe methods. An implementation that reads the
buffer, or does not fill it, could observe uninitialized memory.
---
 src/metadata.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index ddfe207..c02079f 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -429,12 +429,10 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
     // 32-bit vendor string length, and comment count.
     let vendor_len = try!(input.read_le_u32());
     if vendor_len > length - 8 { return fmt_err("vendor string too long") }
-    let mut vendor_bytes = Vec::with_capacity(vendor_len as usize);
 
-    // We can safely set the lenght of the vector here; the uninitialized memory
-    // is not exposed. If `read_into` succeeds, it will have overwritten all
-    // bytes. If not, an error is returned and the memory is never exposed.
-    unsafe { vendor_bytes.set_len(vendor_len as usize); }
+    // The vector must be initialized: `ReadBytes` is a public safe trait, so we
+    // cannot rely on `read_into` to not read the buffer, or to fill all of it.
+    let mut vendor_bytes = vec![0; vendor_len as usize];
     try!(input.read_into(&mut vendor_bytes));
     let vendor = try!(String::from_utf8(vendor_bytes));
 
@@ -469,9 +467,8 @@ fn read_vorbis_comment_block<R: ReadBytes>(input: &mut R, length: u32) -> Result
             continue;
         }
 
-        // For the same reason as above, setting the length is safe here.
-        let mut comment_bytes = Vec::with_capacity(comment_len as usize);
-        unsafe { comment_bytes.set_len(comment_len as usize); }
+        // For the same reason as above, the vector must be initialized here.
+        let mut comment_bytes = vec![0; comment_len as usize];
         try!(input.read_into(&mut comment_bytes));
 
         bytes_left -= comment_len;
@@ -537,12 +534,8 @@ fn read_application_block<R: ReadBytes>(input: &mut R, length: u32) -> Result<(u
     let id = try!(input.read_be_u32());
 
     // Four bytes of the block have been used for the ID, the rest is payload.
-    // Create a vector of uninitialized memory, and read the block into it. The
-    // uninitialized memory is never exposed: read_into will either fill the
-    // buffer completely, or return an err, in which case the memory is not
-    // exposed.
-    let mut data = Vec::with_capacity(length as usize - 4);
-    unsafe { data.set_len(length as usize - 4); }
+    // The vector must be initialized, see also `read_vorbis_comment_block()`.
+    let mut data = vec![0; length as usize - 4];
     try!(input.read_into(&mut data));
 
     Ok((id, data))
-- 
2.43.0


From 76400c9092f28cd54142af33988bffea9a086f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 8/8] fix: do not read a block that is not desired in
 metadata-only mode

With metadata_only and without read_vorbis_comment the streaminfo block is all
that is asked for, but one more block was read, and an error in it reported.
---
 src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a0c1ff..6efc8bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -250,7 +250,12 @@ impl<R: io::Read> FlacReader<R> {
             let mut vorbis_comment = None;
 
             // There might be more metadata blocks, read and store them.
-            for block_result in metadata_iter {
+            // Stop early once all desired blocks have been collected.
+            while opts_current.has_desired_blocks() {
+                let block_result = match metadata_iter.next() {
+                    Some(block_result) => block_result,
+                    None => break,
+                };
                 match try!(block_result) {
                     MetadataBlock::VorbisComment(vc) => {
                         // The Vorbis comment block need not be present, but
@@ -270,12 +275,6 @@ impl<R: io::Read> FlacReader<R> {
                     // Other blocks are currently not handled.
                     _block => {}
                 }
-
-                // Early-out reading metadata once all desired blocks have been
-                // collected.
-                if !opts_current.has_desired_blocks() {
-                    break
-                }
             }
 
             // TODO: Rather than discarding afterwards, never parse it in the
-- 
2.43.0

