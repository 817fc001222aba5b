From 11b1901ef24ec6587a680fbe483181b88badaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 001/178] fix: inflate: keep the input position right after a
 stored block near the end of input

A stored block followed by less than eight bytes of input (what zlib writes for
Z_SYNC_FLUSH followed by Z_FINISH) moved the input position back by the number
of implicit zero bytes, so the next block header was read from the wrong place.
---
 crates/zune-inflate/src/bitstream.rs | 4 +++-
 crates/zune-inflate/src/decoder.rs   | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/zune-inflate/src/bitstream.rs b/crates/zune-inflate/src/bitstream.rs
index 6c5ce0a..5724f52 100644
--- a/crates/zune-inflate/src/bitstream.rs
+++ b/crates/zune-inflate/src/bitstream.rs
@@ -148,10 +148,12 @@ impl<'src> BitStreamReader<'src> {
             .saturating_sub(usize::from(self.bits_left >> 3))
     }
 
-    /// Reset buffer and bits left to zero.
+    /// Reset buffer and bits left to zero, forgetting
+    /// any bytes that were over-read
     pub fn reset(&mut self) {
         self.buffer = 0;
         self.bits_left = 0;
+        self.over_read = 0;
     }
     /// Return true if the bit buffer can satisfy
     /// `bits` read without refilling,
diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 4a074bf..52053cb 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -636,8 +636,8 @@ impl<'a> DeflateDecoder<'a> {
                 dest_offset += len;
 
                 // get the new position to write.
-                self.stream.position =
-                    len + (self.stream.position - usize::from(self.stream.bits_left >> 3));
+                // (`start` accounts for bytes the bit reader over-read at the end of the input)
+                self.stream.position = start + len - self.position;
 
                 self.stream.reset();
 
-- 
2.43.0


From 206e5ad0be218d84b6568118e838633eedb10a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 002/178] fix: inflate: enforce the output limit for literals
 and stored blocks

The limit was only compared after a match, and for stored blocks before the
copy, so a stream of literals or a final stored block could exceed it.
---
 crates/zune-inflate/src/decoder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 52053cb..4045268 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -620,7 +620,7 @@ impl<'a> DeflateDecoder<'a> {
 
                     return Err(error);
                 }
-                if dest_offset > self.options.limit {
+                if dest_offset + len > self.options.limit {
                     out_block.truncate(dest_offset);
 
                     let err_msg =
@@ -1107,6 +1107,17 @@ impl<'a> DeflateDecoder<'a> {
                 return Err(error);
             }
 
+            // literals do not check the limit in the loops above
+            if dest_offset > self.options.limit {
+                out_block.truncate(dest_offset);
+
+                let err_msg =
+                    DecodeErrorStatus::OutputLimitExceeded(self.options.limit, dest_offset);
+                let error = InflateDecodeErrors::new(err_msg, out_block);
+
+                return Err(error);
+            }
+
             if self.is_last_block {
                 break;
             }
-- 
2.43.0


From 8a7ed79859c02b4b975e773fa527d303d2535b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 003/178] fix: core: do not leave a partial read in the output
 of read_const_bytes_no_error

---
 crates/zune-core/src/bytestream/reader/std_readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index 2334624..a846e3f 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -46,7 +46,11 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
     }
 
     fn read_const_bytes_no_error<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        let _ = self.read_const_bytes(buf);
+        // read to a temporary location, on failure buf must not hold a partial read
+        let mut bytes = [0; N];
+        if self.read_const_bytes(&mut bytes).is_ok() {
+            *buf = bytes;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From da4f6edde5aeeca21ad27ec56a282f8e0b0a9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 004/178] fix: core: keep the reader position when peek_at
 fails

---
 crates/zune-core/src/bytestream/reader.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader.rs b/crates/zune-core/src/bytestream/reader.rs
index d12340f..2e12aa3 100644
--- a/crates/zune-core/src/bytestream/reader.rs
+++ b/crates/zune-core/src/bytestream/reader.rs
@@ -228,6 +228,10 @@ impl<T: ZByteReaderTrait> ZReader<T> {
     /// at a later point.
     #[inline]
     pub fn peek_at(&mut self, position: usize, num_bytes: usize) -> Result<&[u8], ZByteIoError> {
+        if num_bytes > 20 * 1024 * 1024 {
+            // resize of 20 MBs, skipping too much, so panic
+            return Err(ZByteIoError::Generic("Too many bytes skipped"));
+        }
         // short circuit for zero
         // important since implementations like File will
         // cause a syscall on skip
@@ -235,10 +239,6 @@ impl<T: ZByteReaderTrait> ZReader<T> {
             // skip position bytes from start
             self.skip(position)?;
         }
-        if num_bytes > 20 * 1024 * 1024 {
-            // resize of 20 MBs, skipping too much, so panic
-            return Err(ZByteIoError::Generic("Too many bytes skipped"));
-        }
         // resize buffer
         self.temp_buffer.resize(num_bytes, 0);
         // read bytes
@@ -250,7 +250,13 @@ impl<T: ZByteReaderTrait> ZReader<T> {
                 }
                 Ok(&self.temp_buffer)
             }
-            Err(e) => Err(e)
+            Err(e) => {
+                // a failed peek must also leave the position where it was
+                if position != 0 {
+                    self.rewind(position)?;
+                }
+                Err(e)
+            }
         }
     }
     /// Read a fixed number of known bytes to a buffer and return the bytes or an error
-- 
2.43.0


From 68267896198cff549fc8f27887391644e7978a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 005/178] fix: core: no overflow when reading from a cursor
 positioned past its end

---
 crates/zune-core/src/bytestream/reader/no_std_readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index dd1c2b9..bc5973c 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -106,7 +106,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
         let stream_end = self.stream.as_ref().len();
 
         let start = core::cmp::min(self.position, stream_end);
-        let end = core::cmp::min(self.position + buf.len(), stream_end);
+        let end = core::cmp::min(self.position.saturating_add(buf.len()), stream_end);
 
         let slice = self.stream.as_ref().get(start..end).unwrap();
         buf[..slice.len()].copy_from_slice(slice);
-- 
2.43.0


From 78366abd560fec2dd44ccaa563825da6491a685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 006/178] fix: image: keep the channel layout in step with
 reallocation

---
 crates/zune-image/src/channel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index 8ac3b84..af61ef0 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -220,6 +220,8 @@ impl Channel {
     /// it's capacity
     pub unsafe fn realloc(&mut self, new_size: usize) {
         self.ptr = realloc(self.ptr, self.layout, new_size);
+        // the next reallocation must be told the current size of the block
+        self.layout = Layout::from_size_align(new_size, MIN_ALIGNMENT).unwrap();
         // set capacity to be new size
         self.capacity = new_size;
     }
-- 
2.43.0


From d43467cf3f8761fe70b95c72eb7297c58611dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 007/178] fix: image: make room for the pushed element when
 growing a small channel

---
 crates/zune-image/src/channel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index af61ef0..baaafae 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -514,8 +514,9 @@ impl Channel {
         if !self.has_capacity(size) {
             unsafe {
                 // extend
-                // use 3/2 formula
-                self.realloc(self.capacity.saturating_mul(size.saturating_mul(3)) / 2);
+                // use 3/2 formula, but always make space for the new element
+                let grown = self.capacity.saturating_mul(size.saturating_mul(3)) / 2;
+                self.realloc(grown.max(self.length + size));
             }
         }
         // safety:
-- 
2.43.0


From 07d4f8dbc31b20d5995436a6cebea71af5473204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 008/178] fix: imageprocs: transpose images narrower or shorter
 than one 8x8 block

---
 crates/zune-imageprocs/src/transpose/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/transpose/scalar.rs b/crates/zune-imageprocs/src/transpose/scalar.rs
index b219165..0e43f3d 100644
--- a/crates/zune-imageprocs/src/transpose/scalar.rs
+++ b/crates/zune-imageprocs/src/transpose/scalar.rs
@@ -63,8 +63,8 @@ pub fn transpose_scalar<T: Copy + Default>(
             }
         }
     }
-    let rem_w = width - (width & 7) - 1;
-    let rem_h = height - (height & 7) - 1;
+    let rem_w = width - (width & 7);
+    let rem_h = height - (height & 7);
 
     for i in rem_h..height {
         for j in 0..width {
-- 
2.43.0


From 01cb8a3ed50835802e7d600b03808e8c68bb6bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 009/178] fix: imageprocs: size the rotated channel in bytes

---
 crates/zune-imageprocs/src/rotate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index bed172d..0e54a33 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -62,6 +62,7 @@ impl OperationsTrait for Rotate {
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let im_type = image.depth().bit_type();
+        let depth_size = image.depth().size_of();
 
         let (width, height) = image.dimensions();
 
@@ -71,7 +72,10 @@ impl OperationsTrait for Rotate {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
             let mut new_channel =
-                Channel::new_with_length_and_type(new_width * new_height, channel.type_id());
+                Channel::new_with_length_and_type(
+                    new_width * new_height * depth_size,
+                    channel.type_id()
+                );
 
             match im_type {
                 BitType::U8 => {
-- 
2.43.0


From 2d5dfb0c61f08d4b7006ca3607272d48262e114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 010/178] fix: imageprocs: record the dimensions of the rotated
 image

---
 crates/zune-imageprocs/src/rotate.rs | 26 ++------------------------
 1 file changed, 2 insertions(+), 24 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index 0e54a33..dbd9cde 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -66,8 +66,6 @@ impl OperationsTrait for Rotate {
 
         let (width, height) = image.dimensions();
 
-        let will_change_dims = (self.angle - 180.0).abs() > f32::EPSILON;
-
         let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
             let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
 
@@ -116,9 +114,8 @@ impl OperationsTrait for Rotate {
         };
         execute_on(resize_fn, image, false)?;
 
-        if will_change_dims {
-            change_image_dims(image, self.angle);
-        }
+        let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
+        image.set_dimensions(new_width, new_height);
 
         Ok(())
     }
@@ -128,25 +125,6 @@ impl OperationsTrait for Rotate {
     }
 }
 
-fn change_image_dims(image: &mut Image, angle: f32) {
-    let (ow, oh) = image.dimensions();
-    if (angle - 90.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    if (angle - 270.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    // For arbitrary angles, calculate bounding box
-    let angle_rad = angle.to_radians();
-    let cos_a = angle_rad.cos().abs();
-    let sin_a = angle_rad.sin().abs();
-
-    let new_width = (ow as f32 * cos_a + oh as f32 * sin_a).ceil() as usize;
-    let new_height = (ow as f32 * sin_a + oh as f32 * cos_a).ceil() as usize;
-
-    image.set_dimensions(new_width, new_height)
-}
-
 pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
-- 
2.43.0


From f2176351265ebf8a30f4a65322dab46cf6886f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 011/178] fix: imageprocs: reverse the pixels of each row when
 rotating by 180 degrees

---
 crates/zune-imageprocs/src/rotate.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index dbd9cde..ca3611c 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -134,7 +134,7 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
-        rotate_180(out_image, width);
+        rotate_180(out_image);
     } else if (angle - 90.0).abs() < f32::EPSILON {
         rotate_90(in_image, out_image, width, height);
     } else if (angle - 270.0).abs() < f32::EPSILON {
@@ -146,18 +146,9 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     }
 }
 
-fn rotate_180<T: Copy>(in_out_image: &mut [T], width: usize) {
-    let half = in_out_image.len() / 2;
-    let (top, bottom) = in_out_image.split_at_mut(half);
-
-    for (top_chunk, bottom_chunk) in top
-        .chunks_exact_mut(width)
-        .zip(bottom.chunks_exact_mut(width).rev())
-    {
-        for (a, b) in top_chunk.iter_mut().zip(bottom_chunk.iter_mut()) {
-            core::mem::swap(a, b);
-        }
-    }
+fn rotate_180<T: Copy>(in_out_image: &mut [T]) {
+    // both the rows and the pixels in every row swap ends
+    in_out_image.reverse();
 }
 
 fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
-- 
2.43.0


From 38efa73d44a6ae7b48fc59ac1192dd22adaabff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 012/178] fix: imageprocs: exact rotation for full turns and
 negative right angles

---
 crates/zune-imageprocs/src/rotate.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index ca3611c..26101de 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -23,7 +23,7 @@ use crate::traits::NumOps;
 use crate::utils::execute_on;
 
 pub fn get_rotated_dimensions(width: usize, height: usize, angle: f32) -> (usize, usize) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
     // Handle special cases for 90-degree rotations
     if (angle - 90.0).abs() < f32::EPSILON || (angle - 270.0).abs() < f32::EPSILON {
@@ -129,9 +129,12 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
 ) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
-    if (angle - 180.0).abs() < f32::EPSILON {
+    if angle.abs() < f32::EPSILON {
+        // a full turn changes nothing
+        out_image.copy_from_slice(in_image);
+    } else if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
         rotate_180(out_image);
-- 
2.43.0


From aae32976c90974821007804dd97b658fcde9ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 013/178] fix: imageprocs: mirror east and west as documented,
 they were swapped

---
 crates/zune-imageprocs/src/mirror.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/mirror.rs b/crates/zune-imageprocs/src/mirror.rs
index 499ad55..7ed7d3c 100644
--- a/crates/zune-imageprocs/src/mirror.rs
+++ b/crates/zune-imageprocs/src/mirror.rs
@@ -137,13 +137,13 @@ pub fn mirror<T: Copy>(in_pixels: &mut [T], width: usize, height: usize, mode: M
             // split into 2
             let (left, right) = width_stride.split_at_mut(width / 2);
 
-            if mode == MirrorMode::West {
+            if mode == MirrorMode::East {
                 // write
                 left.iter().zip(right.iter_mut().rev()).for_each(|(l, r)| {
                     *r = *l;
                 });
             }
-            if mode == MirrorMode::East {
+            if mode == MirrorMode::West {
                 // write
                 left.iter_mut().zip(right.iter().rev()).for_each(|(l, r)| {
                     *l = *r;
-- 
2.43.0


From 0e0397b211c1454be4a41e9581534797acfe70ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 014/178] fix: imageprocs: reject a crop that lies outside the
 image

---
 crates/zune-imageprocs/src/crop.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/crop.rs b/crates/zune-imageprocs/src/crop.rs
index 5687c03..c42f4a4 100644
--- a/crates/zune-imageprocs/src/crop.rs
+++ b/crates/zune-imageprocs/src/crop.rs
@@ -125,8 +125,18 @@ impl OperationsTrait for Crop {
     }
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
+        let (old_width, old_height) = image.dimensions();
+
+        let fits = |start: usize, length: usize, limit: usize| {
+            start.checked_add(length).map_or(false, |end| end <= limit)
+        };
+        if !fits(self.x, self.width, old_width) || !fits(self.y, self.height, old_height) {
+            return Err(ImageErrors::GenericString(format!(
+                "Crop of {}x{} at ({},{}) does not fit in an image of {}x{}",
+                self.width, self.height, self.x, self.y, old_width, old_height
+            )));
+        }
         let new_dims = self.width * self.height * image.depth().size_of();
-        let (old_width, _) = image.dimensions();
         let depth = image.depth().bit_type();
 
         let crop_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
-- 
2.43.0


From bfbc64d4f9a765598b53ffefe11359f119526a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 015/178] fix: png: compare 16-bit transparency keys in the
 byte order of the samples

---
 crates/zune-png/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/utils.rs b/crates/zune-png/src/utils.rs
index 1633e4d..e844ddc 100644
--- a/crates/zune-png/src/utils.rs
+++ b/crates/zune-png/src/utils.rs
@@ -135,7 +135,7 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
     if SIXTEEN_BITS {
         match color {
             PngColor::Luma => {
-                let trns_byte = trns_bytes[0].to_ne_bytes();
+                let trns_byte = trns_bytes[0].to_be_bytes();
 
                 for (in_chunk, chunk) in input.chunks_exact(2).zip(out.chunks_exact_mut(4)) {
                     chunk[..2].copy_from_slice(in_chunk);
@@ -150,9 +150,9 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
                 }
             }
             PngColor::RGB => {
-                let r = trns_bytes[0].to_ne_bytes();
-                let g = trns_bytes[1].to_ne_bytes();
-                let b = trns_bytes[2].to_ne_bytes();
+                let r = trns_bytes[0].to_be_bytes();
+                let g = trns_bytes[1].to_be_bytes();
+                let b = trns_bytes[2].to_be_bytes();
 
                 // copy all trns chunks into one big vector
                 let mut all: [u8; 6] = [0; 6];
-- 
2.43.0


From 17127abc1ecd892a84cc24925b88586834e9545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 016/178] fix: png: expand the last row like the others when
 adding alpha to a narrow depth

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cf55eb3..3adb2a7 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1183,7 +1183,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 let to_filter_row = &mut out[(i - 1) * out_chunk_size..i * out_chunk_size];
 
                 // check if we will run any other transform
-                let extra_transform = self.seen_ptle | self.seen_trns;
+                let extra_transform = self.seen_ptle | self.seen_trns | add_alpha_channel;
 
                 if info.depth < 8 {
                     if extra_transform {
-- 
2.43.0


From 9ae45f8e40a1f5d3bc8bc05423298acada123bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 017/178] fix: png: keep the transparency of a tRNS chunk when
 an alpha channel is requested

---
 crates/zune-png/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 3adb2a7..2e15e86 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1165,7 +1165,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         // Normal expansion
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     // the image is a normal RGB/ Luma image, which we need to add the alpha channel
                     // do it here
                     add_alpha(
@@ -1255,7 +1255,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                     } else {
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     add_alpha(
                         &self.previous_stride,
                         to_filter_row,
-- 
2.43.0


From b61d99a6c93e0edd57bfc2853b9fc180a520c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 018/178] fix: png: strip to the top byte whatever byte order
 is configured

---
 crates/zune-png/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 2e15e86..523601a 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -658,8 +658,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             self.decode_interlaced(&deflate_data, out, &png_info, &info)?;
         }
 
-        // convert to set endian if need be
-        if self.depth().unwrap() == BitDepth::Sixteen {
+        // convert to set endian if need be, stripping to 8 bit wants the samples as stored
+        if self.png_info.depth == 16 && !self.options.png_get_strip_to_8bit() {
             convert_be_to_target_endian_u16(out, self.byte_endian(), self.options.use_sse41());
         }
         // one more frame decoded
-- 
2.43.0


From c31212bf15c85a124774a10f4d48905baef734de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 019/178] fix: png: decode every frame at its own size in
 decode_raw, and into a small buffer after it

---
 crates/zune-png/src/decoder.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 523601a..43e1763 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -172,7 +172,6 @@ pub struct PngDecoder<T> {
     pub(crate) seen_trns:               bool,
     pub(crate) seen_iend:               bool,
     pub(crate) current_frame:           usize,
-    pub(crate) called_from_decode_into: bool
 }
 
 impl<T: ZByteReaderTrait> PngDecoder<T> {
@@ -216,8 +215,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             seen_headers:            false,
             seen_iend:               false,
             trns_bytes:              [0; 4],
-            current_frame:           0,
-            called_from_decode_into: true
+            current_frame:           0
         }
     }
 
@@ -590,10 +588,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.decode_headers()?;
 
         // in case we are to decode from 16 bit to 8 bit, allocate separate and decode
-        if self.called_from_decode_into
-            && self.png_info.depth == 16
-            && self.options.png_get_strip_to_8bit()
-        {
+        if self.png_info.depth == 16 && self.options.png_get_strip_to_8bit() {
             let image_len = self.output_buffer_size().unwrap();
 
             if out.len() < image_len {
@@ -682,14 +677,12 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     ///
     pub fn decode_raw(&mut self) -> Result<Vec<u8>, PngDecodeErrors> {
         self.decode_headers()?;
-        self.called_from_decode_into = false;
 
         // allocate
-        let new_len = self.output_buffer_size().unwrap();
         let t = self.inner_buffer_size().unwrap();
         let mut out: Vec<u8> = vec![0; t];
         //decode
-        self.decode_into(&mut out)?;
+        self.decode_into_inner(&mut out)?;
         if self.options.png_get_strip_to_8bit() && self.png_info.depth == 16 {
             // in case we are to convert from 16 bit to 8 bit, we can do it here
             // we optimize it by using the same buffer the 16 bit data is stored in
@@ -707,7 +700,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 i += 1;
                 j += 2;
             }
-            out.truncate(new_len);
+            out.truncate(i);
         }
 
         Ok(out)
-- 
2.43.0


From 0f7a1a5def23f0b6a883755be8a1bc82d1d33420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 020/178] fix: png: report that there are no more frames
 instead of panicking in decode_raw

---
 crates/zune-png/src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 43e1763..d3e1145 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -679,7 +679,9 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.decode_headers()?;
 
         // allocate
-        let t = self.inner_buffer_size().unwrap();
+        let t = self
+            .inner_buffer_size()
+            .ok_or(PngDecodeErrors::GenericStatic("No more frames"))?;
         let mut out: Vec<u8> = vec![0; t];
         //decode
         self.decode_into_inner(&mut out)?;
-- 
2.43.0


From dde0e11576b2d25fc0b25a0375c09522327c55df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 021/178] fix: png: deliver animation frames without a tail of
 zeros

---
 crates/zune-png/src/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index d3e1145..249fd50 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -884,8 +884,11 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let info = &self.png_info;
         let bytes = if info.depth == 16 { 2 } else { 1 };
 
-        let out_n = self.colorspace().unwrap().num_components();
-        let new_len = info.width * info.height * out_n;
+        // frames of an animation may be smaller than the image
+        let new_len = self
+            .inner_buffer_size()
+            .ok_or(PngDecodeErrors::GenericStatic("No more frames"))?
+            / bytes;
 
         let mut out_u8: Vec<u8> = vec![0; new_len * usize::from(info.depth != 16)];
         let mut out_u16: Vec<u16> = vec![0; new_len * usize::from(info.depth == 16)];
-- 
2.43.0


From 3e63760997a153aa5765469a6426f05e49c32539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 022/178] fix: png: place interlaced animation frames by their
 own width

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 249fd50..a4a899a 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -806,7 +806,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         let out_y = j * YSPC[p] + YORIG[p];
                         let out_x = i * XSPC[p] + XORIG[p];
 
-                        let final_start = out_y * info.width * out_bytes + out_x * out_bytes;
+                        let final_start = out_y * frame_info.width * out_bytes + out_x * out_bytes;
                         let out_start = (j * x + i) * out_bytes;
 
                         if let Some(e) = out.get_mut(final_start..final_start + out_bytes) {
-- 
2.43.0


From 6075d88c5f04650321115e6e8a6c6cd48d5761a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 023/178] fix: png: return the error for blending without alpha
 instead of asserting

---
 crates/zune-png/src/apng.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 574c27c..6e63de2 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -329,7 +329,6 @@ pub fn post_process_image(
             BlendOp::Over => {
                 // carry out alpha blending, we do the alpha bending in linear colorspace
                 //
-                assert!(colorspace.has_alpha());
                 if !colorspace.has_alpha() {
                     return Err(PngDecodeErrors::GenericStatic("Image doesn't have alpha but requests blending using over which requires alpha"));
                 }
-- 
2.43.0


From 794362d0c6878fca7e00dc8722e498d85b92fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 024/178] fix: png: blend animation frames over a transparent
 canvas with its alpha

---
 crates/zune-png/src/apng.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 6e63de2..6809c47 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -353,7 +353,10 @@ pub fn post_process_image(
                 {
                     let alpha = *src_comp.last().unwrap();
                     let foreground_alpha = f32::from(alpha) / 255.0;
-                    let dst_alpha = 1.0 - foreground_alpha;
+                    let background_alpha = f32::from(*dst_comp.last().unwrap()) / 255.0;
+                    // what of the background still shows, and how opaque the result is
+                    let dst_alpha = background_alpha * (1.0 - foreground_alpha);
+                    let out_alpha = foreground_alpha + dst_alpha;
 
                     let max_sample = 255.0;
 
@@ -366,12 +369,12 @@ pub fn post_process_image(
                         continue;
                     }
 
-                    for (a, b) in src_comp.iter().zip(dst_comp).take(nc - 1) {
+                    for (a, b) in src_comp.iter().zip(dst_comp.iter_mut()).take(nc - 1) {
                         // convert to floating point, undo gamma encoding
                         let linfg = gamma_values[usize::from(*a)];
                         let linbg = gamma_values[usize::from(*b)];
                         // composite
-                        let commpix = linfg * foreground_alpha + linbg * dst_alpha;
+                        let commpix = (linfg * foreground_alpha + linbg * dst_alpha) / out_alpha;
                         // gamma encode for storage
                         // NB: (cae): This function becomes quite expensive.
                         // I'm not sure if memoization may help us here.
@@ -381,6 +384,7 @@ pub fn post_process_image(
                         let pix = (gamout * max_sample + 0.5) as u8;
                         *b = pix;
                     }
+                    *dst_comp.last_mut().unwrap() = (out_alpha * max_sample + 0.5) as u8;
                 }
             }
         }
-- 
2.43.0


From f884ee69ce30b94c757e024ec045c2037b60ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 025/178] fix: a pipeline that was given an image and no
 decoder runs its operations instead of failing

---
 crates/zune-image/src/pipelines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/pipelines.rs b/crates/zune-image/src/pipelines.rs
index 435991f..f6e2541 100644
--- a/crates/zune-image/src/pipelines.rs
+++ b/crates/zune-image/src/pipelines.rs
@@ -160,7 +160,7 @@ impl Pipeline {
                     // do the actual decode
                     if self.decode.is_none() {
                         // we have an image, no need to decode a new one
-                        if self.image.is_empty() {
+                        if !self.image.is_empty() {
                             trace!("Image already present, no need to decode");
                             // move to the next state
                             self.state = state.next();
-- 
2.43.0


From 12d34b72bcddb147ebaa54f451e7026b13053fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:43 +0000
Subject: [PATCH 026/178] fix: a pipeline operation that fails on a later image
 does not make the pipeline move on to the next step

---
 crates/zune-image/src/pipelines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/pipelines.rs b/crates/zune-image/src/pipelines.rs
index f6e2541..f1eb95b 100644
--- a/crates/zune-image/src/pipelines.rs
+++ b/crates/zune-image/src/pipelines.rs
@@ -214,8 +214,8 @@ impl Pipeline {
                                 (stop - start).as_millis()
                             );
                         }
-                        self.state = state.next();
                     }
+                    self.state = state.next();
                 }
                 PipelineState::Finished => {
                     trace!("Finished operations for this workflow");
-- 
2.43.0


From e4f2479ec92ee2321f4dfb6a12ea71d0089e318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 027/178] fix: PPM samples that look like whitespace or a
 comment after a P5/P6 header are not swallowed as part of the header

---
 crates/zune-ppm/src/decoder.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a169a88..adab79f 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -400,8 +400,9 @@ where
         skip_spaces(&mut self.reader)?;
         // read max value
         let max_value = self.get_integer()?;
-        // skip ascii space
-        skip_spaces(&mut self.reader)?;
+        // a single whitespace separates the header from the samples,
+        // anything after it is already image data
+        self.skip_raster_separator()?;
 
         if max_value > usize::from(u16::MAX) {
             let msg = format!("MAX value {max_value} greater than 65535");
@@ -420,6 +421,28 @@ where
         Ok(())
     }
 
+    /// Skip the single whitespace byte (or a comment up to and including its newline)
+    /// that separates the header from the samples
+    fn skip_raster_separator(&mut self) -> Result<(), PPMDecodeErrors> {
+        if self.reader.eof()? {
+            // only the header is present
+            return Ok(());
+        }
+        let mut byte = self.reader.read_u8_err()?;
+
+        if byte == b'#' {
+            while byte != b'\n' {
+                byte = self.reader.read_u8_err()?;
+            }
+        }
+        if !byte.is_ascii_whitespace() {
+            return Err(PPMDecodeErrors::InvalidHeader(
+                "Expected a whitespace between the header and the samples".to_string()
+            ));
+        }
+        Ok(())
+    }
+
     fn get_integer(&mut self) -> Result<usize, PPMDecodeErrors> {
         let mut value = 0_usize;
 
-- 
2.43.0


From 18736ae7a6f53ce021972a517c288b4494fb3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 028/178] fix: PAM and PFM samples that look like whitespace or
 a comment after the header are not swallowed as part of the header

---
 crates/zune-ppm/src/decoder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index adab79f..15255b5 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -252,6 +252,12 @@ where
             let value_size = get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
             let value = &byte_header[..value_size];
 
+            if !value.starts_with(b"ENDHDR") {
+                // the samples start right after ENDHDR, every other token is followed by
+                // its value
+                skip_spaces(&mut self.reader)?;
+            }
+
             match value {
                 // Notice the explicit space,
                 // It's needed
@@ -690,8 +696,6 @@ fn get_bytes_until_whitespace<T: ZByteReaderTrait>(
         if byte.is_ascii_whitespace() {
             // mark where the text ends
             end = z.position()?;
-            // skip any proceeding whitespace
-            skip_spaces(z)?;
             break;
         }
         // push the byte read
-- 
2.43.0


From 0e91810fd109030ccb14407225e46f59f3182986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 029/178] fix: PAM header lines may separate the name from its
 value with any whitespace, not only a space

---
 crates/zune-ppm/src/decoder.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 15255b5..92a148c 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -258,10 +258,14 @@ where
                 skip_spaces(&mut self.reader)?;
             }
 
-            match value {
-                // Notice the explicit space,
-                // It's needed
-                b"WIDTH " => {
+            // the name is separated from its value by any whitespace
+            let name = match value.split_last() {
+                Some((last, name)) if last.is_ascii_whitespace() => name,
+                _ => value
+            };
+
+            match name {
+                b"WIDTH" => {
                     self.width = self.get_integer()?;
 
                     if self.width > self.options.max_width() {
@@ -272,7 +276,7 @@ where
                     }
                     seen_width = true;
                 }
-                b"HEIGHT " => {
+                b"HEIGHT" => {
                     self.height = self.get_integer()?;
 
                     if self.height > self.options.max_height() {
@@ -284,7 +288,7 @@ where
 
                     seen_height = true;
                 }
-                b"DEPTH " => {
+                b"DEPTH" => {
                     let depth = self.get_integer()?;
 
                     if depth > 4 {
@@ -294,7 +298,7 @@ where
 
                     seen_depth = true;
                 }
-                b"MAXVAL " => {
+                b"MAXVAL" => {
                     let max_value = self.get_integer()?;
 
                     if max_value > usize::from(u16::MAX) {
@@ -311,7 +315,7 @@ where
                     }
                     seen_max_val = true;
                 }
-                b"TUPLTYPE " => {
+                b"TUPLTYPE" => {
                     let value_size =
                         get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
                     let new_value = &byte_header[..value_size];
-- 
2.43.0


From 4e8bf9eb99908487bb5fda3a40677ac929e9ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 030/178] fix: PFM images with an odd number of rows are
 flipped row by row

---
 crates/zune-ppm/src/decoder.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 92a148c..387397f 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -626,11 +626,14 @@ where
                 };
 
                 // pfm uses bottom-top orientation, so let's fix it
-                let length = result.len() / 2;
+                let single_stride = self.width * self.colorspace.num_components();
+                // for odd heights, the middle row stays in place
+                let length = (self.height / 2) * single_stride;
+                let bottom_start = (self.height - self.height / 2) * single_stride;
 
-                let (in_img_top, in_img_bottom) = result.split_at_mut(length);
+                let (in_img_top, in_img_bottom) = result.split_at_mut(bottom_start);
+                let in_img_top = &mut in_img_top[..length];
 
-                let single_stride = self.width * self.colorspace.num_components();
                 let mut stride = vec![0.; single_stride];
 
                 for (in_dim, out_dim) in in_img_top
-- 
2.43.0


From d91b2d03093feb8540611135a81eca499e44570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 031/178] fix: the PPM encoder reports a failed header write
 instead of panicking

---
 crates/zune-ppm/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index b860aa2..358ad17 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -136,7 +136,7 @@ impl<'a> PPMEncoder<'a> {
             }
         };
 
-        stream.write_all(header.as_bytes()).unwrap();
+        stream.write_all(header.as_bytes())?;
 
         Ok(())
     }
-- 
2.43.0


From e13ed2edaf9c9f51960593116a3ab77aba7eca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 032/178] fix: the PPM encoder rejects float images instead of
 panicking

---
 crates/zune-ppm/src/encoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index 358ad17..5919c22 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -171,7 +171,11 @@ impl<'a> PPMEncoder<'a> {
                     stream.write_u16_be_err(byte)?;
                 }
             }
-            _ => unreachable!()
+            _ => {
+                return Err(PPMEncodeErrors::Static(
+                    "Only 8 bit and 16 bit images can be encoded"
+                ))
+            }
         }
         let position = stream.bytes_written();
         Ok(position)
-- 
2.43.0


From e538d2161988488fa707bc8dba72a784b4ce299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 033/178] fix: BMP colour masks and colour space fields are
 only read from headers that contain them

---
 crates/zune-bmp/src/decoder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 23259bb..d186b99 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -344,16 +344,21 @@ where
                     trace!("Color used : {}", color_used);
                     trace!("Important Colors: {}", important_colors);
 
-                    self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
-
-                    let mut colorspace_type = 0;
-
-                    if ihsize > 40 {
+                    // the masks follow a 40 byte header only if the compression asks for them,
+                    // larger headers contain them (except for the OS/2 one, which has other fields)
+                    if (ihsize > 40 && ihsize != 64) || compression == BmpCompression::BITFIELDS {
+                        self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    }
+                    if ihsize >= 56 && ihsize != 64 {
                         // alpha mask
                         self.rgb_bitfields[3] = self.bytes.get_u32_le_err()?;
+                    }
+
+                    let mut colorspace_type = 0;
 
+                    if ihsize >= 108 {
                         colorspace_type = self.bytes.get_u32_le_err()?;
 
                         const BMP_DENOM: f64 = 0x40000000_u32 as f64;
-- 
2.43.0


From 9e1eaf41fdd483d55cefbf623ec7566e4056ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 034/178] fix: a BMP with a 16 byte header has no compression
 field

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index d186b99..66fdfcf 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -319,7 +319,7 @@ where
                 height = self.bytes.get_u32_le_err()?;
                 _planes = self.bytes.get_u16_le_err()?;
                 bpp = self.bytes.get_u16_le_err()?;
-                compression = if hsize >= 40 {
+                compression = if ihsize >= 40 {
                     match BmpCompression::from_u32(self.bytes.get_u32_le_err()?) {
                         Some(c) => c,
                         None => {
-- 
2.43.0


From f1cb6080994c0fa2780fac519d066a94f9043496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 035/178] fix: row padding of BMP images with less than 8 bits
 per pixel is skipped

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 66fdfcf..5cc5f5b 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -943,6 +943,8 @@ where
                     // temporary location for an scaled down image width, bytes are read here
                     // before expanding them in a separate pass
                     let in_width_bytes = ((self.width * usize::from(self.depth)) + 7) / 8;
+                    // rows are padded to a multiple of 4 bytes
+                    let padding = in_width_bytes.wrapping_neg() & 3;
                     let mut in_width_buf = vec![0_u8; in_width_bytes];
 
                     let scanline_size = width_bytes * 3;
@@ -953,6 +955,7 @@ where
                     {
                         // read a whole width scanline before expanding
                         self.bytes.read_exact_bytes(&mut in_width_buf)?;
+                        self.bytes.skip(padding)?;
 
                         expand_bits_to_byte(
                             self.depth as usize,
-- 
2.43.0


From e76f1370c749ef01c328b02f71766c6c3123d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 036/178] fix: row padding of 16 bit BMP images depends on
 their width, not on their height

---
 crates/zune-bmp/src/decoder.rs | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 5cc5f5b..5a571e0 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -861,41 +861,19 @@ where
                                     // PS: Not sure if it works
                                     assert!(self.pix_fmt.num_components() >= 3);
 
-                                    // Number of iterations we expect to go
-                                    let num_iters = buf.len() / pad_size;
-                                    // Input bytes per every output byte width
-                                    //
-                                    // this does ceil division to ensure input is appropriately rounded
-                                    // of to a multiple of 4 to handle pad bytes in BMP
-                                    let input_bytes_per_width = (((num_iters * 2) + 3) / 4) * 4;
-
-                                    // we chunk according to number of iterations, which is usually the
-                                    // image dimensions (w*h*color components), this is given by the size of
-                                    // buf - output buffer is appropriately sized for this-.
-                                    // for the input, we are reading two bytes( for every three bytes (or four)
-                                    // consumed hence if we know how many iterations we will be doing
-                                    // we can use that to chunk appropriately
+                                    // Padding bytes after every row, rows are rounded up to a multiple of 4
+                                    let padding_bytes = (self.width * 2).wrapping_neg() & 3;
 
                                     for out in buf.rchunks_exact_mut(pad_size) {
-                                        let mut count = 0;
-                                        for raw_pix in out
-                                            .chunks_exact_mut(self.pix_fmt.num_components())
-                                            .take(input_bytes_per_width)
+                                        for raw_pix in
+                                            out.chunks_exact_mut(self.pix_fmt.num_components())
                                         {
                                             let v = u32::from(u16::from_le_bytes(
                                                 self.bytes.read_fixed_bytes_or_zero::<2>()
                                             ));
-                                            count += 2;
 
                                             conv_function(v, raw_pix);
                                         }
-                                        //assert_eq!(count, input_bytes_per_width * 2);
-                                        debug_assert!(
-                                            input_bytes_per_width * 2 >= count,
-                                            "Input bytes cannot be greater than count"
-                                        );
-                                        let padding_bytes =
-                                            (input_bytes_per_width * 2).saturating_sub(count);
                                         self.bytes.skip(padding_bytes)?;
                                     }
                                     self.image_in_bgra = true;
-- 
2.43.0


From 844cfcc06898efcc25a610ee8c8d814dca6df5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 037/178] fix: BMP bit fields keep their own shift when
 decoding to BGRA

---
 crates/zune-bmp/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 5a571e0..7762804 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -822,9 +822,9 @@ where
                                 // Anonymous conversion function
                                 let conv_function = |v: u32, a: &mut [u8]| {
                                     if PRESERVE_BGRA {
-                                        a[0] = shift_signed(v & mb, rshift, rcount) as u8;
+                                        a[0] = shift_signed(v & mb, bshift, bcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-                                        a[2] = shift_signed(v & mr, bshift, bcount) as u8;
+                                        a[2] = shift_signed(v & mr, rshift, rcount) as u8;
                                     } else {
                                         a[0] = shift_signed(v & mr, rshift, rcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-- 
2.43.0


From 34ff60aa920bdf846eb9dc6496532e96202712e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 038/178] fix: grey BMP samples are not exchanged as if they
 were colours

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 7762804..13f0519 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -895,7 +895,7 @@ where
                                 // skip padding bytes
                                 self.bytes.skip(in_width.saturating_sub(out_width))?;
                                 // then flip bgr to rgb
-                                if !PRESERVE_BGRA {
+                                if !PRESERVE_BGRA && self.pix_fmt.num_components() == 3 {
                                     for pix_pair in out.chunks_exact_mut(3) {
                                         pix_pair.swap(0, 2);
                                     }
-- 
2.43.0


From 4b947e211af8b1c841dfc559a7e7242586626083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:40 +0000
Subject: [PATCH 039/178] fix: a 4 bit run-length coded BMP may end its last
 line before the end of the picture, as an 8 bit one may

---
 crates/zune-bmp/src/decoder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 13f0519..9e01982 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -1168,9 +1168,14 @@ where
                         // move to the next line
                         line -= 1;
                         if line < 0 {
-                            return Err(BmpDecoderErrors::Generic(format!(
-                                "Line less than 0 {line}"
-                            )));
+                            return if self.bytes.get_u16_be() == 1 {
+                                // end of picture
+                                Ok(pixels)
+                            } else {
+                                Err(BmpDecoderErrors::Generic(format!(
+                                    "Line less than 0 {line}"
+                                )))
+                            };
                         }
                         // move to the next line
                         output = &mut pixels
-- 
2.43.0


From f4435f847d714f910226bdb8891b7018a856ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 040/178] fix: farbfeld images decode into a buffer of one
 element per sample instead of always failing

---
 crates/zune-farbfeld/src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 95b7348..633a3e8 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -120,9 +120,11 @@ where
         if !self.decoded_headers {
             self.decode_headers()?;
         }
+        // the output buffer size is in bytes, the sink stores two of them in each element
         let expected_len = self
             .output_buffer_size()
-            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?;
+            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?
+            / 2;
 
         if sink.len() < expected_len {
             return Err(FarbFeldErrors::Generic("Too small output buffer size"));
-- 
2.43.0


From e0c383422a81b1e16b75b4a519a48add30008e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 041/178] fix: farbfeld pixels can be decoded after the headers

---
 crates/zune-farbfeld/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 633a3e8..ff0aa18 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -56,6 +56,9 @@ where
     }
     /// Decode a header for this specific image
     pub fn decode_headers(&mut self) -> Result<(), FarbFeldErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         // read magic
 
         let magic_value = self.stream.get_u64_be_err()?.to_be_bytes();
-- 
2.43.0


From 0ef8b9716ef9b1e97208deaec04c32c878df9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:10 +0000
Subject: [PATCH 042/178] fix: the farbfeld encoder reports failed header
 writes

---
 crates/zune-farbfeld/src/encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/zune-farbfeld/src/encoder.rs b/crates/zune-farbfeld/src/encoder.rs
index e9aeda1..96e76e7 100644
--- a/crates/zune-farbfeld/src/encoder.rs
+++ b/crates/zune-farbfeld/src/encoder.rs
@@ -123,9 +123,7 @@ impl<'a> FarbFeldEncoder<'a> {
     fn encode_headers<T: ZByteWriterTrait>(
         &self, stream: &mut ZWriter<T>
     ) -> Result<(), FarbFeldEncoderErrors> {
-        // these routines panic because I need them
-        // to panic as it is a me problem
-        stream.write_all(b"farbfeld").unwrap();
+        stream.write_all(b"farbfeld")?;
 
         if (self.options.width() as u64) > u64::from(u32::MAX) {
             // error out
@@ -139,8 +137,8 @@ impl<'a> FarbFeldEncoder<'a> {
             ));
         }
         // dimensions
-        stream.write_u32_be(self.options.width() as u32);
-        stream.write_u32_be(self.options.height() as u32);
+        stream.write_u32_be_err(self.options.width() as u32)?;
+        stream.write_u32_be_err(self.options.height() as u32)?;
 
         Ok(())
     }
-- 
2.43.0


From befa9ca11e25701d95dceb8da2d172cac44a201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 043/178] fix: HDR pixels whose exponent is more than 31 away
 from the middle keep their magnitude

---
 crates/zune-hdr/src/decoder.rs | 60 ++++++++--------------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index ed514d3..aa0ed57 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -465,55 +465,23 @@ fn convert_scanline(in_scanline: &[u8], out_scanline: &mut [f32]) {
         if rgbe[3] == 0 {
             out[0..3].fill(0.0);
         } else {
-            // separate concerns to generate code that has better
-            //  ILP
-            let epxo = i32::from(rgbe[3]) - 128;
-
-            if epxo.is_positive() {
-                out[0] = convert_pos(i32::from(rgbe[0]), epxo);
-                out[1] = convert_pos(i32::from(rgbe[1]), epxo);
-                out[2] = convert_pos(i32::from(rgbe[2]), epxo);
-            } else {
-                out[0] = convert_neg(i32::from(rgbe[0]), epxo);
-                out[1] = convert_neg(i32::from(rgbe[1]), epxo);
-                out[2] = convert_neg(i32::from(rgbe[2]), epxo);
-            }
+            // the mantissas are scaled by 2^(exponent-(128+8))
+            let scale = exp2(i32::from(rgbe[3]) - 136);
+
+            out[0] = f32::from(rgbe[0]) * scale;
+            out[1] = f32::from(rgbe[1]) * scale;
+            out[2] = f32::from(rgbe[2]) * scale;
         }
     }
 }
 
-fn ldexp_pos(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x * pow
-}
-fn ldexp_neg(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x / pow
-}
-/// Fast calculation of  x*(2^exp).
-///
-/// exp is assumed to be integer
-// #[inline]
-// fn ldxep(x: f32, exp: i32) -> f32 {
-//     let pow = (1_i32 << (exp.abs() & 31)) as f32;
-//     if exp.is_negative() {
-//         // if negative 2 ^ exp is the same as 1 / (1<<exp.abs()) since
-//         // 2^(-exp) is sexpressed as 1/(2^exp)
-//         x / pow
-//     } else {
-//         // 2^exp is same as 1<<exp, but latter is way faster
-//         x * pow
-//     }
-// }
-
+/// Calculate 2^exp for exponents that an RGBE pixel can have (-136..120)
 #[inline]
-fn convert_pos(val: i32, exponent: i32) -> f32 {
-    let v = (val as f32) / 256.0;
-    ldexp_pos(v, exponent.unsigned_abs() & 31)
-}
-
-#[inline]
-fn convert_neg(val: i32, exponent: i32) -> f32 {
-    let v = (val as f32) / 256.0;
-    ldexp_neg(v, exponent.unsigned_abs() & 31)
+fn exp2(exp: i32) -> f32 {
+    if exp >= -126 {
+        f32::from_bits(((exp + 127) as u32) << 23)
+    } else {
+        // subnormal
+        f32::from_bits(1_u32 << (exp + 149))
+    }
 }
-- 
2.43.0


From ad70a27a9e8f0fe4e1d5ea9846870d86a3c2dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 044/178] fix: old style HDR runs repeat the previous pixel

---
 crates/zune-hdr/src/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index aa0ed57..46e622a 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -344,7 +344,7 @@ where
                 scanline[0] = 2;
                 scanline[3] = i;
 
-                self.decompress(&mut scanline[4..], self.width as i32 - 1, 0)?;
+                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -412,11 +412,12 @@ where
 
                 let mut i = i32::from(run) << shift;
 
-                while width > 0 && scanline_offset > 4 && i > 0 {
-                    scanline.copy_within(scanline_offset - 4..scanline_offset, 4);
+                while width > 0 && scanline_offset >= 4 && i > 0 {
+                    // repeat the previous pixel
+                    scanline.copy_within(scanline_offset - 4..scanline_offset, scanline_offset);
                     scanline_offset += 4;
                     i -= 1;
-                    width -= 4;
+                    width -= 1;
                 }
                 shift += 8;
 
-- 
2.43.0


From e986f84967ed577da4ae504f536f63b276156cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 045/178] fix: an HDR scanline cut inside a run is an error
 instead of black samples

---
 crates/zune-hdr/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 46e622a..b3ad806 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -361,7 +361,7 @@ where
                     let mut run = i32::from(self.buf.read_u8_err()?);
 
                     if run > 128 {
-                        let val = self.buf.read_u8();
+                        let val = self.buf.read_u8_err()?;
                         run &= 127;
 
                         while run > 0 {
@@ -381,7 +381,7 @@ where
                                 break;
                             }
 
-                            new_scanline[j] = self.buf.read_u8();
+                            new_scanline[j] = self.buf.read_u8_err()?;
                             j += 4;
                         }
                     }
-- 
2.43.0


From 9a1e3a51405ab4e11b26221a6dc110f5596b8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:30 +0000
Subject: [PATCH 046/178] fix: HDR header values may contain an equals sign

---
 crates/zune-hdr/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index b3ad806..0e75d77 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -136,7 +136,7 @@ where
                 // utf-8, we throw garbage to the dictionary if the image is garbage
                 let keys_and_values = String::from_utf8_lossy(&max_header_size[..size]);
 
-                let mut keys_and_values_split = keys_and_values.trim().split('=');
+                let mut keys_and_values_split = keys_and_values.trim().splitn(2, '=');
                 let key = keys_and_values_split.next().unwrap().trim().to_string();
                 let value = keys_and_values_split.next().unwrap().trim().to_string();
                 self.metadata.insert(key, value);
-- 
2.43.0


From a5492b3d1101229183248d6da112caa368764418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 047/178] fix: HDR pixels are encoded with their own exponent
 instead of an approximate or clipped one

---
 crates/zune-hdr/src/encoder.rs | 89 ++++------------------------------
 1 file changed, 9 insertions(+), 80 deletions(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 2bb9f41..88c7aa7 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -261,88 +261,17 @@ fn float_to_rgbe(rgb: &[f32; 3], rgbe: &mut [u8; 4]) {
     let v = rgb.iter().fold(f32::MIN, |x, y| x.max(*y));
 
     if v > 1e-32 {
-        let old_v = v;
-        let (mut v, e) = frexp(v);
-        v = v * 256. / old_v;
-        rgbe[0] = (rgb[0] * v).clamp(0.0, 255.0) as u8;
-        rgbe[1] = (rgb[1] * v).clamp(0.0, 255.0) as u8;
-        rgbe[2] = (rgb[2] * v).clamp(0.0, 255.0) as u8;
+        // v = m * 2^e, where m is in the range [0.5,1), everything is scaled by 2^(8-e).
+        // The largest exponent that the format can store is 127
+        let e = (((v.to_bits() >> 23) & 255) as i32 - 126).min(127);
+        let scale = f32::from_bits(((8 - e + 127) as u32) << 23);
 
-        rgbe[3] = (e.wrapping_add(128)) as u8;
-    } else {
-        rgbe.fill(0);
-    }
-}
-
-#[rustfmt::skip]
-pub fn abs(num: f32) -> f32
-{
-    // standard compliant
-    // handles NAN and infinity.
-    // pretty cool
-    f32::from_bits(num.to_bits() & (i32::MAX as u32))
-}
-
-/// Implementation of signum that works in no_std
-#[rustfmt::skip]
-pub fn signum(num: f32) -> f32
-{
-    if num.is_nan() { f32::NAN } else if num.is_infinite()
-    {
-        if num.is_sign_positive() { 0.0 } else { -0.0 }
-    } else if num > 0.0 { 1.0 } else { -1.0 }
-}
-
-fn floor(num: f32) -> f32 {
-    if num.is_nan() || num.is_infinite() {
-        /* handle infinities and nan */
-        return num;
-    }
-    let n = num as u64;
-    let d = n as f32;
+        rgbe[0] = (rgb[0] * scale).clamp(0.0, 255.0) as u8;
+        rgbe[1] = (rgb[1] * scale).clamp(0.0, 255.0) as u8;
+        rgbe[2] = (rgb[2] * scale).clamp(0.0, 255.0) as u8;
 
-    if d == num || num >= 0.0 {
-        d
+        rgbe[3] = (e + 128) as u8;
     } else {
-        d - 1.0
-    }
-}
-
-/// Fast log2 approximation
-/// (we really don't need that accurate)
-#[allow(clippy::cast_precision_loss, clippy::cast_sign_loss)]
-fn fast_log2(x: f32) -> f32 {
-    /*
-     * Fast log approximation from
-     * https://github.com/romeric/fastapprox
-     *
-     * Some pretty good stuff.
-     */
-    let vx = x.to_bits();
-    let mx = (vx & 0x007F_FFFF) | 0x3f00_0000;
-    let mx_f = f32::from_bits(mx);
-
-    let mut y = vx as f32;
-    // 1/(1<<23)
-    y *= 1.192_092_9e-7;
-
-    y - 124.225_52 - 1.498_030_3 * mx_f - 1.725_88 / (0.352_088_72 + mx_f)
-}
-
-/// non standard frexp implementation
-fn frexp(s: f32) -> (f32, i32) {
-    // from https://stackoverflow.com/a/55696477
-    if 0.0 == s {
-        (s, 0)
-    } else {
-        let lg = fast_log2(abs(s));
-        let lg_floor = floor(lg);
-        // Note: This is the only reason we need the standard library
-        // I haven't found a good exp2 function, fast_exp2 doesn't work
-        // and libm/musl exp2 introduces visible color distortions and is slow, so for
-        // now let's stick to whatever the platform provides
-        let x = (lg - lg_floor - 1.0).exp2();
-        let exp = lg_floor + 1.0;
-        (signum(s) * x, exp as i32)
+        rgbe.fill(0);
     }
 }
-- 
2.43.0


From 08ccc4551f0b1281b178bca4ded31655623497b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 048/178] fix: the HDR encoder reports every failed write

---
 crates/zune-hdr/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 88c7aa7..6efd5f0 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -239,7 +239,7 @@ fn rle<T: ZByteWriterTrait>(
         while cur < beg_run {
             let nonrun_count = 128.min(beg_run - cur);
             buf[0] = nonrun_count as u8;
-            writer.write_u8(buf[0]);
+            writer.write_u8_err(buf[0])?;
             for i in 0..nonrun_count {
                 writer.write_u8_err(data[(cur + i) * 4])?;
             }
-- 
2.43.0


From f6ccfa002f51d844a4344940e184a7b74f90765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 049/178] fix: skip the row counts of every channel stored in a
 packed grayscale PSD

Grayscale files may carry more channels than are decoded, their row byte counts
all precede the data, so skipping those of one channel read counts as pixels.
---
 crates/zune-psd/src/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index de64502..dea6bbb 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -50,7 +50,9 @@ where
     depth:          BitDepth,
     color_type:     Option<ColorModes>,
     compression:    CompressionMethod,
-    channel_count:  usize
+    channel_count:  usize,
+    /// Channels stored in the file, may be more than those we decode
+    file_channels:  usize
 }
 
 impl<T> PSDDecoder<T>
@@ -81,7 +83,8 @@ where
             depth: BitDepth::Eight,
             color_type: None,
             compression: CompressionMethod::NoCompression,
-            channel_count: 0
+            channel_count: 0,
+            file_channels: 0
         }
     }
 
@@ -117,6 +120,7 @@ where
         }
 
         self.channel_count = usize::from(channel_count);
+        self.file_channels = self.channel_count;
 
         let height = self.stream.get_u32_be_err()? as usize;
         let width = self.stream.get_u32_be_err()? as usize;
@@ -232,7 +236,7 @@ where
 
                 // The RLE-compressed data is preceded by a 2-byte data count for each row
                 // in the data, which we're going to just skip.
-                let skipped = self.height * self.channel_count * 2;
+                let skipped = self.height * self.file_channels * 2;
                 self.stream.skip(skipped)?;
 
                 let mut out_channel = vec![0; pixel_count * self.channel_count + 10];
-- 
2.43.0


From 938e4e3bd7b0639e58891a6d102a4ae31adef904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 050/178] fix: return 16 bit PSD samples in native endian

decode_raw already converted them to native endian, reading that as big endian
swapped the bytes of every sample.
---
 crates/zune-psd/src/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index dea6bbb..4d76308 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -370,12 +370,13 @@ where
             return Ok(DecodingResult::U8(raw));
         }
         if self.depth == BitDepth::Sixteen {
+            // decode_raw stores samples in native endian
             // https://github.com/etemesi254/zune-image/issues/36
             let new_array: Vec<u16> = raw
                 .chunks_exact(2)
                 .map(|chunk| {
                     let value: [u8; 2] = chunk.try_into().unwrap();
-                    u16::from_be_bytes(value)
+                    u16::from_ne_bytes(value)
                 })
                 .collect();
 
-- 
2.43.0


From 86c4f308b3f66b1dfd2d8c7c25fcf0c35356abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 051/178] fix: read native endian samples when removing the
 matte of a 16 bit PSD

The samples were already converted to native endian. Single precision also loses
hundreds of levels to cancellation when alpha is small.
---
 crates/zune-psd/src/decoder.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 4d76308..7529508 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -320,19 +320,19 @@ where
             match self.depth {
                 BitDepth::Sixteen => {
                     for pixel in result.chunks_exact_mut(8) {
-                        let px3 = u16::from_be_bytes(pixel[6..8].try_into().unwrap());
+                        let px3 = u16::from_ne_bytes(pixel[6..8].try_into().unwrap());
                         if px3 != 0 && px3 != 65535 {
-                            let px0 = u16::from_be_bytes(pixel[0..2].try_into().unwrap());
-                            let px1 = u16::from_be_bytes(pixel[2..4].try_into().unwrap());
-                            let px2 = u16::from_be_bytes(pixel[4..6].try_into().unwrap());
+                            let px0 = u16::from_ne_bytes(pixel[0..2].try_into().unwrap());
+                            let px1 = u16::from_ne_bytes(pixel[2..4].try_into().unwrap());
+                            let px2 = u16::from_ne_bytes(pixel[4..6].try_into().unwrap());
 
-                            let a = f32::from(px3) / 65535.0;
+                            let a = f64::from(px3) / 65535.0;
                             let ra = 1.0 / a;
                             let inv_a = 65535.0 * (1.0 - ra);
 
-                            let x = (f32::from(px0) * ra + inv_a) as u16;
-                            let y = (f32::from(px1) * ra + inv_a) as u16;
-                            let z = (f32::from(px2) * ra + inv_a) as u16;
+                            let x = (f64::from(px0) * ra + inv_a) as u16;
+                            let y = (f64::from(px1) * ra + inv_a) as u16;
+                            let z = (f64::from(px2) * ra + inv_a) as u16;
 
                             pixel[0..2].copy_from_slice(&x.to_ne_bytes());
                             pixel[2..4].copy_from_slice(&y.to_ne_bytes());
-- 
2.43.0


From 050e74d1d977cb6af017c2aba29dbdfbfd688f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 052/178] fix: report truncated packed data in PSD files

Bytes missing from the file were read as zeros.
---
 crates/zune-psd/src/decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 7529508..fbb4cfb 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -395,7 +395,7 @@ where
         let mut position = 0;
 
         while nleft > 0 {
-            let mut len = usize::from(self.stream.read_u8());
+            let mut len = usize::from(self.stream.read_u8_err()?);
 
             match len.cmp(&128) {
                 Ordering::Less => {
@@ -411,7 +411,7 @@ where
                     }
 
                     while len > 0 {
-                        buffer[position] = self.stream.read_u8();
+                        buffer[position] = self.stream.read_u8_err()?;
                         position += self.channel_count;
                         len -= 1;
                     }
@@ -426,7 +426,7 @@ where
                         return Err(PSDDecodeErrors::BadRLE);
                     }
                     count += len;
-                    let val = self.stream.read_u8();
+                    let val = self.stream.read_u8_err()?;
 
                     if position + (self.channel_count * len) > buffer.len() {
                         return Err(PSDDecodeErrors::BadRLE);
-- 
2.43.0


From dd3beb95a854d76773c22f91139d230e6443918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 053/178] fix: reject PSD files with fewer channels than their
 color mode needs

The decoded length would not match the reported colorspace.
---
 crates/zune-psd/src/decoder.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index fbb4cfb..4216135 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -200,6 +200,15 @@ where
             self.channel_count = 1;
         }
 
+        let needed = match self.color_type {
+            Some(ColorModes::RGB) => 3,
+            Some(ColorModes::CYMK) => 4,
+            _ => 1
+        };
+        if self.channel_count < needed {
+            return Err(PSDDecodeErrors::UnsupportedChannelCount(channel_count));
+        }
+
         self.compression = CompressionMethod::from_int(compression).unwrap();
 
         self.decoded_header = true;
-- 
2.43.0


From 1550a97a75b0ba7d459282a88a5d3b95592ca9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 054/178] fix: do not double the MCU rows of vertically
 subsampled JPEGs decoded to grayscale

---
 crates/zune-jpeg/src/mcu.rs      | 6 +-----
 crates/zune-jpeg/src/mcu_prog.rs | 8 ++------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 61ee2df..42ea2d9 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -115,14 +115,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         {
             // For a specific set of images, e.g interleaved,
             // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
-            // parses two rows per mcu width.
+            // take into account that the post processor parses two rows per mcu width.
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index a4ecbab..00a35cd 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -53,7 +53,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     ) -> Result<(), DecodeErrors> {
         setup_component_params(self)?;
 
-        let mut mcu_height;
+        let mcu_height;
 
         // memory location for decoded pixels for components
         let mut block: [Vec<i16>; MAX_COMPONENTS] = [vec![], vec![], vec![], vec![]];
@@ -85,14 +85,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         {
             // For a specific set of images, e.g interleaved,
             // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
-            // parses two rows per mcu width.
+            // take into account that the post processor parses two rows per mcu width.
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
-- 
2.43.0


From 9b60bf236e7c02032517421254dd8550cf27c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 055/178] fix: derive block counts of non-interleaved
 progressive scans from the component's own size

---
 crates/zune-jpeg/src/mcu_prog.rs | 33 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 00a35cd..1e072a8 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -213,6 +213,22 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         self.todo = if self.restart_interval != 0 { self.restart_interval } else { usize::MAX };
     }
 
+    /// Number of blocks, horizontally and vertically, in a scan containing
+    /// only the component `k` (section A.2.2 of the specification).
+    ///
+    /// Unlike in interleaved scans, blocks only used to pad
+    /// the image to a whole number of MCU's are not coded
+    pub(crate) fn component_blocks(&self, k: usize) -> (usize, usize) {
+        let component = &self.components[k];
+        let width = usize::from(self.info.width) * component.horizontal_sample;
+        let height = usize::from(self.info.height) * component.vertical_sample;
+
+        (
+            width.div_ceil(self.h_max).div_ceil(8),
+            height.div_ceil(self.v_max).div_ceil(8)
+        )
+    }
+
     #[allow(clippy::too_many_lines, clippy::cast_sign_loss)]
     fn parse_entropy_coded_data(
         &mut self, stream: &mut BitStream, buffer: &mut [Vec<i16>; MAX_COMPONENTS]
@@ -243,22 +259,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 )));
             }
 
-            let (mcu_width, mcu_height);
-
-            if self.components[k].vertical_sample != 1
-                || self.components[k].horizontal_sample != 1
-                || !self.is_interleaved
-            {
-                // For non interleaved scans
-                // mcu's is the image dimensions divided by 8
-                mcu_width = self.info.width.div_ceil(8) as usize;
-                mcu_height = self.info.height.div_ceil(8) as usize;
-            } else {
-                // For other channels, in an interleaved mcu, number of MCU's
-                // are determined by some weird maths done in headers.rs->parse_sos()
-                mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y;
-            }
+            let (mcu_width, mcu_height) = self.component_blocks(k);
 
             for i in 0..mcu_height {
                 for j in 0..mcu_width {
-- 
2.43.0


From 03954c81d9b30b73d15428fe1897d2c294a96758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 056/178] fix: do not expect a restart marker after the last
 MCU of a progressive scan

---
 crates/zune-jpeg/src/mcu_prog.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 1e072a8..ea89904 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -117,10 +117,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         }
 
         // extract marker
-        let mut marker = stream
-            .marker
-            .take()
-            .ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(&mut self.stream, &mut stream)
+            .map_err(|_| DecodeErrors::FormatStatic("Marker missing where expected"))?;
 
         // if marker is EOI, we are done, otherwise continue scanning.
         //
@@ -340,7 +338,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // + EOB and investigate effect.
                     self.todo -= 1;
 
-                    self.handle_rst_main(stream)?;
+                    // no restart marker follows the last MCU of a scan
+                    if i + 1 != mcu_height || j + 1 != mcu_width {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         } else {
@@ -429,7 +430,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // we get a higher number in the case this underflows
                     self.todo -= 1;
                     // after every scan that's a mcu, count down restart markers.
-                    self.handle_rst_main(stream)?;
+                    // no restart marker follows the last MCU of a scan
+                    if i + 1 != self.mcu_y || j + 1 != self.mcu_x {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 6968caf9f8425a4e9df8c092c1fc4169ebfba9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:06 +0000
Subject: [PATCH 057/178] fix: decode all blocks of baseline JPEGs whose
 components are in separate scans

---
 crates/zune-jpeg/src/mcu.rs | 108 +++++++++++++++++++++++++++++-------
 1 file changed, 89 insertions(+), 19 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 42ea2d9..6de69e0 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -186,15 +186,41 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         let upsampler_scratch_size = is_hv * self.components[0].width_stride;
         let mut upsampler_scratch_space = vec![0; upsampler_scratch_size];
 
+        let mut seen_scans = 0;
+
         'sos: loop {
             trace!(
                 "Baseline decoding of components: {:?}",
                 &self.z_order[..usize::from(self.num_scans)]
             );
 
-            trace!("Decoding MCU width: {mcu_width}, height: {mcu_height}");
+            let (scan_width, scan_height) = if all_components_in_first_scan {
+                (mcu_width, mcu_height)
+            } else {
+                seen_scans += 1;
+                if seen_scans > self.options.jpeg_get_max_scans() {
+                    return Err(DecodeErrors::Format(format!(
+                        "Too many scans, exceeded limit of {}",
+                        self.options.jpeg_get_max_scans()
+                    )));
+                }
+                // Every scan starts with fresh predictions and restart count, and if
+                // it contains a single component only that component's own blocks are coded.
+                self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+                self.todo = self.restart_interval;
+
+                if self.num_scans == 1 {
+                    self.component_blocks(self.z_order[0])
+                } else {
+                    (self.mcu_x, self.mcu_y)
+                }
+            };
+
+            trace!("Decoding MCU width: {scan_width}, height: {scan_height}");
+
+            for i in 0..scan_height {
+                let last_row = i + 1 == scan_height;
 
-            for i in 0..mcu_height {
                 if stream.overread_by > 0 {
                     pixels.get_mut(pixels_written..).map(|v| v.fill(128));
                     if self.options.strict_mode() {
@@ -209,8 +235,9 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 // this takes into account interleaved components.
                 let terminate = if all_components_in_first_scan {
                     self.decode_mcu_width::<false>(
-                        mcu_width,
+                        scan_width,
                         i,
+                        last_row,
                         &mut tmp,
                         &mut stream,
                         &mut progressive_mcus
@@ -234,8 +261,9 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     */
 
                     self.decode_mcu_width::<true>(
-                        mcu_width,
+                        scan_width,
                         i,
+                        last_row,
                         &mut tmp,
                         &mut stream,
                         &mut progressive_mcus
@@ -257,6 +285,14 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 }
 
                 match terminate {
+                    McuContinuation::Ok
+                        if last_row && !all_components_in_first_scan && !stream.seen_eoi =>
+                    {
+                        // The scan is complete, but the marker after it wasn't read yet.
+                        if self.find_next_sos(&mut stream)? {
+                            continue 'sos;
+                        }
+                    }
                     McuContinuation::Ok => {}
                     McuContinuation::AnotherSos if all_components_in_first_scan => {
                         warn!("More than one SOS despite already having all components");
@@ -391,10 +427,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     }
 
     fn decode_mcu_width<const PROGRESSIVE: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, last_row: bool, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
-        let is_one_by_one = !self.scan_subsampled;
+        // A scan containing a single component codes its blocks one by one, in scanline order.
+        let is_one_by_one = !self.scan_subsampled || (PROGRESSIVE && self.num_scans == 1);
 
         // The definition of MCU depends on the sampling factor of involved scans. When components
         // have different factors then each Minimal-Coding-Unit is the least common multiple such
@@ -409,6 +446,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, false>(
                 mcu_width,
                 mcu_height,
+                last_row,
                 tmp,
                 stream,
                 progressive
@@ -417,6 +455,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, true>(
                 mcu_width,
                 mcu_height,
+                last_row,
                 tmp,
                 stream,
                 progressive
@@ -430,7 +469,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     // when `not SAMPLED` then the inner loop has exactly one iteration per component in
     // the scan. The difference was ~1% or a bit more.
     fn inner_decode_mcu_width<const PROGRESSIVE: bool, const SAMPLED: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, last_row: bool, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
         let z_order = self.z_order;
@@ -462,9 +501,14 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     .ok_or(DecodeErrors::FormatStatic("AC table not found"))?;
 
                 let qt_table = &component.quantization_table;
+                // blocks of this component in one MCU
+                let (h_blocks, v_blocks) = if SAMPLED {
+                    (component.horizontal_sample, component.vertical_sample)
+                } else {
+                    (1, 1)
+                };
                 let channel = if PROGRESSIVE {
-                    let offset =
-                        mcu_height * component.width_stride * 8 * component.vertical_sample;
+                    let offset = mcu_height * component.width_stride * 8 * v_blocks;
                     &mut progressive[k][offset..]
                 } else {
                     &mut component.raw_coeff
@@ -478,12 +522,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 //
                 // Turn the bounds into a compile time constant for a common special case. This
                 // allows the compiler to unroll the loop and then do a bunch of interleaving.
-                let v_step = if SAMPLED { 0..component.vertical_sample } else { 0..1 };
-
-                for v_samp in v_step {
-                    let h_step = if SAMPLED { 0..component.horizontal_sample } else { 0..1 };
-
-                    for h_samp in h_step {
+                for v_samp in 0..v_blocks {
+                    for h_samp in 0..h_blocks {
                         let result = if component_samples_needed {
                             // Fill the array with zeroes, decode_mcu_block expects
                             // a zero based array. Clobber is in zig-zag order though.
@@ -536,7 +576,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             let idct_position = {
                                 // derived from stb and rewritten for my tastes
                                 let c2 = v_samp * 8;
-                                let c3 = ((j * component.horizontal_sample) + h_samp) * 8;
+                                let c3 = ((j * h_blocks) + h_samp) * 8;
 
                                 component.width_stride * c2 + c3
                             };
@@ -558,7 +598,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
             self.todo = self.todo.wrapping_sub(1);
 
-            if self.todo == 0 {
+            // no restart marker follows the last MCU of a scan
+            if self.todo == 0 && !(last_row && j + 1 == mcu_width) {
                 self.handle_rst_main(stream)?;
                 continue;
             }
@@ -568,11 +609,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             }
         }
 
-        self.check_stream_marker_after_mcu_width(stream)
+        self.check_stream_marker_after_mcu_width(stream, PROGRESSIVE && !last_row)
     }
 
     fn check_stream_marker_after_mcu_width(
-        &mut self, stream: &mut BitStream
+        &mut self, stream: &mut BitStream, more_rows: bool
     ) -> Result<McuContinuation, DecodeErrors> {
         // After all interleaved components, that's an MCU
         // handle stream markers
@@ -601,6 +642,9 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 if self.todo == 0 {
                     self.handle_rst(stream)?;
                 }
+            } else if more_rows {
+                // The bits before the marker have already been read
+                // into the stream, they contain the remaining rows of the scan.
             } else if let Marker::SOS = m {
                 self.parse_marker_inner(m)?;
                 stream.marker.take();
@@ -637,6 +681,32 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         Ok(McuContinuation::Ok)
     }
 
+    /// Find the SOS marker of the next scan when the marker that ends
+    /// the current one was not read together with its last bits.
+    ///
+    /// # Returns
+    /// * `Ok(true)` - Found SOS, ready to continue decoding
+    /// * `Ok(false)` - Found EOI or the end of data, decoding complete
+    fn find_next_sos(&mut self, stream: &mut BitStream) -> Result<bool, DecodeErrors> {
+        loop {
+            match get_marker(&mut self.stream, stream) {
+                Ok(Marker::RST(_)) => {}
+                Ok(Marker::EOI) => {
+                    stream.seen_eoi = true;
+                    return Ok(false);
+                }
+                Ok(Marker::SOS) => {
+                    self.parse_marker_inner(Marker::SOS)?;
+                    stream.reset();
+                    return Ok(true);
+                }
+                Ok(marker) => return self.advance_to_next_sos(marker, stream),
+                Err(e) if self.options.strict_mode() => return Err(e),
+                Err(_) => return Ok(false)
+            }
+        }
+    }
+
     /// Scan for the next SOS marker, parsing setup markers along the way.
     ///
     /// This is the unified marker scanning function used after encountering an
-- 
2.43.0


From d117a915dc2d73a9e9aecab4a7fb5a9084d50696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 058/178] fix: do not skip two bytes too many after an APP14
 segment that is not Adobe's

---
 crates/zune-jpeg/src/headers.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 8c3892f..37b002a 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -494,6 +494,8 @@ pub(crate) fn parse_app14<T: ZByteReaderTrait>(
         length = length.saturating_sub(14);
     } else {
         warn!("Not a valid Adobe APP14 Segment, skipping");
+        // length includes its own two bytes
+        length -= 2;
     }
     // skip any proceeding lengths.
     // we do not need them
-- 
2.43.0


From 4e3dbacaa0643beab348cfd727cad614bf036cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:45 +0000
Subject: [PATCH 059/178] fix: convert CMYK and YCCK JPEGs to RGBA pixel by
 pixel, with opaque alpha

---
 crates/zune-jpeg/src/worker.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/worker.rs b/crates/zune-jpeg/src/worker.rs
index 83927d7..e664844 100644
--- a/crates/zune-jpeg/src/worker.rs
+++ b/crates/zune-jpeg/src/worker.rs
@@ -242,7 +242,7 @@ fn color_convert_ycck_to_rgb<const NUM_COMPONENTS: usize>(
         output
     );
     for (pix_w, m_w) in output
-        .chunks_exact_mut(width * 3)
+        .chunks_exact_mut(width * NUM_COMPONENTS)
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for (pix, m) in pix_w.chunks_exact_mut(NUM_COMPONENTS).zip(m_w) {
@@ -266,7 +266,7 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for ((((pix, c), m), y), k) in pix_w
-            .chunks_exact_mut(3)
+            .chunks_exact_mut(NUM_COMPONENTS)
             .zip(c_w)
             .zip(m_w)
             .zip(y_w)
@@ -280,6 +280,11 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
             pix[0] = blinn_8x8(c, k);
             pix[1] = blinn_8x8(m, k);
             pix[2] = blinn_8x8(y, k);
+
+            if NUM_COMPONENTS == 4 {
+                // opaque alpha
+                pix[3] = 255;
+            }
         }
     }
 }
-- 
2.43.0


From 4d86c2891063845c755184db323c4fb240b19070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:37 +0000
Subject: [PATCH 060/178] fix: zune-core retries interrupted reads of std
 readers

---
 .../zune-core/src/bytestream/reader/std_readers.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index a846e3f..2f2b33d 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -10,7 +10,7 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
     #[inline(always)]
     fn read_byte_no_error(&mut self) -> u8 {
         let mut buf = [0];
-        let _ = self.read(&mut buf);
+        while matches!(self.read(&mut buf), Err(e) if e.kind() == io::ErrorKind::Interrupted) {}
         buf[0]
     }
     #[inline(always)]
@@ -33,6 +33,8 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
                 Ok(bytes) => {
                     bytes_read += bytes;
                 }
+                // the read was interrupted by a signal, try again
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                 Err(e) => return Err(ZByteIoError::from(e))
             }
         }
@@ -87,9 +89,13 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
 
     #[inline(always)]
     fn is_eof(&mut self) -> Result<bool, ZByteIoError> {
-        self.fill_buf()
-            .map(|b| b.is_empty())
-            .map_err(ZByteIoError::from)
+        loop {
+            match self.fill_buf() {
+                Ok(b) => return Ok(b.is_empty()),
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(ZByteIoError::from(e))
+            }
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 2efd2b85a25efcf0237268538f09177dd5aba6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 061/178] fix: zune-jpeg does not panic when the output
 colorspace does not need a vertically sampled component

---
 crates/zune-jpeg/src/mcu.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 6de69e0..5077ecb 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -917,12 +917,14 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             * component.width_stride
                             * component.sample_ratio.sample();
 
-                        let last_bytes =
-                            component.raw_coeff.rchunks_exact_mut(size).next().unwrap();
-
-                        component
-                            .first_row_upsample_dest
-                            .copy_from_slice(last_bytes);
+                        // components that aren't needed by the output colorspace have no pixels
+                        if let Some(last_bytes) =
+                            component.raw_coeff.rchunks_exact_mut(size).next()
+                        {
+                            component
+                                .first_row_upsample_dest
+                                .copy_from_slice(last_bytes);
+                        }
                     }
                 }
             }
-- 
2.43.0


From d85b711d83bfbfca1d2edba31f8aecf3f7f60615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:03 +0000
Subject: [PATCH 062/178] fix: zune-png reports a failed read of an ancillary
 chunk instead of panicking

---
 crates/zune-png/src/headers/readers.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index e0853f2..6236a0c 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -293,7 +293,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_exif(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let data = self.stream.peek_at(0, chunk.length).unwrap();
+        let data = self.stream.peek_at(0, chunk.length)?;
 
         // recommended that we check for first four bytes compatibility
         // so do it here
@@ -321,7 +321,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the iCCP chunk
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -338,7 +338,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(icc_uncompressed) = DeflateDecoder::new(data).decode_zlib() {
@@ -360,7 +360,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the text chunk
     pub(crate) fn parse_text(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -372,7 +372,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             // read remaining chunk
 
-            let text = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let text = self.stream.peek_at(0, remainder)?.to_vec();
 
             let text_chunk = TextChunk { keyword, text };
             self.png_info.text_chunk.push(text_chunk);
@@ -390,7 +390,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the itXT chunk
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -404,7 +404,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             self.stream.skip(bytes_to_skip)?;
             let remainder = chunk.length.saturating_sub(bytes_to_skip);
-            let raw_data = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let raw_data = self.stream.peek_at(0, remainder)?.to_vec();
 
             let itxt_chunk = ItxtChunk {
                 keyword,
@@ -425,7 +425,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse zTxt chunk
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -444,7 +444,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(ztxt) = DeflateDecoder::new(data).decode_zlib() {
-- 
2.43.0


From f8f41ba335439d814e44d35e8131be0ddcbad38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 063/178] fix: zune-bmp reports missing pixel data and read
 errors instead of decoding zeros

---
 crates/zune-bmp/src/decoder.rs | 76 +++++++++++++++-------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 9e01982..0a07c03 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -795,7 +795,7 @@ where
                                 // as 255
                                 for out in buf.rchunks_exact_mut(pad_size) {
                                     for a in out.chunks_exact_mut(4) {
-                                        let mut pixels = self.bytes.read_fixed_bytes_or_zero::<4>();
+                                        let mut pixels = self.bytes.read_fixed_bytes_or_error::<4>()?;
                                         // swap bgr and rgb
                                         if !PRESERVE_BGRA {
                                             pixels.swap(0, 2);
@@ -847,7 +847,7 @@ where
 
                                     for out in buf.rchunks_exact_mut(pad_size) {
                                         for raw_pix in out.chunks_exact_mut(4) {
-                                            let v = self.bytes.get_u32_le();
+                                            let v = self.bytes.get_u32_le_err()?;
                                             conv_function(v, raw_pix);
                                         }
                                     }
@@ -869,7 +869,7 @@ where
                                             out.chunks_exact_mut(self.pix_fmt.num_components())
                                         {
                                             let v = u32::from(u16::from_le_bytes(
-                                                self.bytes.read_fixed_bytes_or_zero::<2>()
+                                                self.bytes.read_fixed_bytes_or_error::<2>()?
                                             ));
 
                                             conv_function(v, raw_pix);
@@ -1073,7 +1073,7 @@ where
 
             for out_stride in buf.rchunks_exact_mut(self.width * 4).take(self.height) {
                 for chunks in out_stride.chunks_exact_mut(4) {
-                    let byte = self.bytes.read_u8();
+                    let byte = self.bytes.read_u8_err()?;
                     let entry = palette[usize::from(byte)];
 
                     chunks[0] = entry.red;
@@ -1086,7 +1086,7 @@ where
         } else {
             for out_stride in buf.rchunks_exact_mut(self.width * 3).take(self.height) {
                 for chunks in out_stride.chunks_exact_mut(3) {
-                    let byte = self.bytes.read_u8();
+                    let byte = self.bytes.read_u8_err()?;
                     let entry = palette[usize::from(byte)];
 
                     chunks[0] = entry.red;
@@ -1158,17 +1158,17 @@ where
             let mut rle_code: u16;
             let mut stream_byte;
             while line >= 0 && pos <= self.width {
-                rle_code = u16::from(self.bytes.read_u8());
+                rle_code = u16::from(self.bytes.read_u8_err()?);
 
                 if rle_code == 0 {
                     /* fetch the next byte to see how to handle escape code */
-                    stream_byte = self.bytes.read_u8();
+                    stream_byte = self.bytes.read_u8_err()?;
 
                     if stream_byte == 0 {
                         // move to the next line
                         line -= 1;
                         if line < 0 {
-                            return if self.bytes.get_u16_be() == 1 {
+                            return if self.bytes.get_u16_be_err()? == 1 {
                                 // end of picture
                                 Ok(pixels)
                             } else {
@@ -1188,9 +1188,9 @@ where
                         return Ok(pixels);
                     } else if stream_byte == 2 {
                         // reposition frame decode coordinates
-                        stream_byte = self.bytes.read_u8();
+                        stream_byte = self.bytes.read_u8_err()?;
                         pos += usize::from(stream_byte);
-                        stream_byte = self.bytes.read_u8();
+                        stream_byte = self.bytes.read_u8_err()?;
                         line -= i32::from(stream_byte);
 
                         if line < 0 {
@@ -1211,7 +1211,7 @@ where
                                 break;
                             }
 
-                            stream_byte = self.bytes.read_u8();
+                            stream_byte = self.bytes.read_u8_err()?;
                             output[pos] = stream_byte >> 4;
                             pos += 1;
 
@@ -1233,7 +1233,7 @@ where
                         let msg = "Frame pointer went out of bounds";
                         return Err(BmpDecoderErrors::GenericStatic(msg));
                     }
-                    stream_byte = self.bytes.read_u8();
+                    stream_byte = self.bytes.read_u8_err()?;
 
                     for i in 0..rle_code {
                         if pos >= self.width {
@@ -1255,15 +1255,15 @@ where
             let (mut p1, mut p2);
             // loop until no more bytes are left
             while !self.bytes.eof()? {
-                p1 = self.bytes.read_u8();
+                p1 = self.bytes.read_u8_err()?;
                 if p1 == 0 {
                     // escape code
-                    p2 = self.bytes.read_u8();
+                    p2 = self.bytes.read_u8_err()?;
                     if p2 == 0 {
                         // end of line
                         line -= 1;
                         if line < 0 {
-                            return if self.bytes.get_u16_be() == 1 {
+                            return if self.bytes.get_u16_be_err()? == 1 {
                                 // end of picture
                                 Ok(pixels)
                             } else {
@@ -1289,8 +1289,8 @@ where
                         return Ok(pixels);
                     } else if p2 == 2 {
                         // skip
-                        p1 = self.bytes.read_u8();
-                        p2 = self.bytes.read_u8();
+                        p1 = self.bytes.read_u8_err()?;
+                        p2 = self.bytes.read_u8_err()?;
 
                         pos += usize::from(p1);
 
@@ -1328,24 +1328,14 @@ where
                             self.bytes.skip(1)?;
                         }
                     } else if self.depth == 16 {
-                        output[pos..]
-                            .chunks_exact_mut(2)
-                            .take(usize::from(p2))
-                            .for_each(|x| {
-                                x[0] = self.bytes.read_u8();
-                                x[1] = self.bytes.read_u8();
-                            });
+                        for x in output[pos..].chunks_exact_mut(2).take(usize::from(p2)) {
+                            self.bytes.read_exact_bytes(x)?;
+                        }
                         pos += 2 * usize::from(p2);
                     } else if self.depth == 32 {
-                        output[pos..]
-                            .chunks_exact_mut(4)
-                            .take(usize::from(p2))
-                            .for_each(|x| {
-                                x[0] = self.bytes.read_u8();
-                                x[1] = self.bytes.read_u8();
-                                x[2] = self.bytes.read_u8();
-                                x[3] = self.bytes.read_u8();
-                            });
+                        for x in output[pos..].chunks_exact_mut(4).take(usize::from(p2)) {
+                            self.bytes.read_exact_bytes(x)?;
+                        }
                         pos += 4 * usize::from(p2);
                     }
                 } else {
@@ -1357,13 +1347,13 @@ where
                     }
                     match self.depth {
                         8 => {
-                            pix[0] = self.bytes.read_u8();
+                            pix[0] = self.bytes.read_u8_err()?;
                             output[pos..pos + usize::from(p1)].fill(pix[0]);
                             pos += usize::from(p1);
                         }
                         16 => {
-                            pix[0] = self.bytes.read_u8();
-                            pix[1] = self.bytes.read_u8();
+                            pix[0] = self.bytes.read_u8_err()?;
+                            pix[1] = self.bytes.read_u8_err()?;
 
                             output[pos..]
                                 .chunks_exact_mut(2)
@@ -1374,9 +1364,9 @@ where
                             pos += 2 * usize::from(p1);
                         }
                         24 => {
-                            pix[0] = self.bytes.read_u8();
-                            pix[1] = self.bytes.read_u8();
-                            pix[2] = self.bytes.read_u8();
+                            pix[0] = self.bytes.read_u8_err()?;
+                            pix[1] = self.bytes.read_u8_err()?;
+                            pix[2] = self.bytes.read_u8_err()?;
 
                             output[pos..]
                                 .chunks_exact_mut(3)
@@ -1394,10 +1384,10 @@ where
                             // }
                         }
                         32 => {
-                            pix[0] = self.bytes.read_u8();
-                            pix[1] = self.bytes.read_u8();
-                            pix[2] = self.bytes.read_u8();
-                            pix[3] = self.bytes.read_u8();
+                            pix[0] = self.bytes.read_u8_err()?;
+                            pix[1] = self.bytes.read_u8_err()?;
+                            pix[2] = self.bytes.read_u8_err()?;
+                            pix[3] = self.bytes.read_u8_err()?;
 
                             output[pos..]
                                 .chunks_exact_mut(4)
-- 
2.43.0


From bdf951ee88f8229d49bf219337161fd34e44049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 064/178] fix: zune-bmp reports run-length data that ends
 before the picture does

---
 crates/zune-bmp/src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 0a07c03..24466ff 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -1399,6 +1399,11 @@ where
                     }
                 }
             }
+            if line > 0 || pos < self.width {
+                return Err(BmpDecoderErrors::GenericStatic(
+                    "Incomplete RLE data, picture isn't fully covered"
+                ));
+            }
             warn!("RLE warning, no end of picture code");
             Ok(pixels)
         }
-- 
2.43.0


From 45ddd50134866196c7d889c4ed45334c35a243c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 065/178] fix: zune-qoi reports read errors instead of decoding
 zeros

---
 crates/zune-qoi/src/decoder.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index a9298d5..730abea 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -126,12 +126,10 @@ where
             return Err(QoiErrors::WrongMagicBytes);
         }
 
-        // these were confirmed to be inbounds by has so use the non failing
-        // routines
-        let width = self.stream.get_u32_be() as usize;
-        let height = self.stream.get_u32_be() as usize;
-        let colorspace = self.stream.read_u8();
-        let colorspace_layout = self.stream.read_u8();
+        let width = self.stream.get_u32_be_err()? as usize;
+        let height = self.stream.get_u32_be_err()? as usize;
+        let colorspace = self.stream.read_u8_err()?;
+        let colorspace_layout = self.stream.read_u8_err()?;
 
         if width > self.options.max_width() {
             let msg = format!(
@@ -278,16 +276,16 @@ where
                 run -= 1;
                 pix_chunk.copy_from_slice(&px[0..SIZE]);
             } else {
-                let chunk = self.stream.read_u8();
+                let chunk = self.stream.read_u8_err()?;
 
                 if chunk == QOI_OP_RGB {
-                    let packed_bytes = self.stream.read_fixed_bytes_or_zero::<3>();
+                    let packed_bytes = self.stream.read_fixed_bytes_or_error::<3>()?;
 
                     px[0] = packed_bytes[0];
                     px[1] = packed_bytes[1];
                     px[2] = packed_bytes[2];
                 } else if chunk == QOI_OP_RGBA {
-                    let packed_bytes = self.stream.read_fixed_bytes_or_zero::<4>();
+                    let packed_bytes = self.stream.read_fixed_bytes_or_error::<4>()?;
                     px.copy_from_slice(&packed_bytes);
                 } else if (chunk & QOI_MASK_2) == QOI_OP_INDEX {
                     px.copy_from_slice(&index[usize::from(chunk) & 63]);
@@ -296,7 +294,7 @@ where
                     px[1] = px[1].wrapping_add(((chunk >> 2) & 0x03).wrapping_sub(2));
                     px[2] = px[2].wrapping_add(((chunk >> 0) & 0x03).wrapping_sub(2));
                 } else if (chunk & QOI_MASK_2) == QOI_OP_LUMA {
-                    let b2 = self.stream.read_u8();
+                    let b2 = self.stream.read_u8_err()?;
                     let vg = (chunk & 0x3f).wrapping_sub(32);
 
                     px[0] = px[0].wrapping_add(vg.wrapping_sub(8).wrapping_add((b2 >> 4) & 0x0f));
-- 
2.43.0


From 27cec4ab0a8c524b2d1c2c540ab62aafb7f9768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 066/178] fix: zune-qoi headers can be asked for more than once

---
 crates/zune-qoi/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index 730abea..6359497 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -117,6 +117,9 @@ where
     ///
     /// [QoiErrors]:crate::errors::QoiErrors
     pub fn decode_headers(&mut self) -> Result<(), QoiErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         //let header_bytes = 4/*magic*/ + 8/*Width+height*/ + 1/*channels*/ + 1 /*colorspace*/;
 
         // match magic bytes.
-- 
2.43.0


From 0b18741214df5df88f6646a352272a11aa623707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 067/178] fix: zune-qoi decodes only the image into a bigger
 buffer

---
 crates/zune-qoi/src/decoder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index 6359497..da44be3 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -249,12 +249,13 @@ where
             self.decode_headers()?;
         }
 
-        if pixels.len() < self.output_buffer_size().unwrap() {
-            return Err(QoiErrors::InsufficientData(
-                self.output_buffer_size().unwrap(),
-                pixels.len()
-            ));
+        let output_size = self.output_buffer_size().unwrap();
+
+        if pixels.len() < output_size {
+            return Err(QoiErrors::InsufficientData(output_size, pixels.len()));
         }
+        // the buffer may be bigger than the image
+        let pixels = &mut pixels[..output_size];
 
         match self.colorspace.num_components() {
             3 => self.decode_inner_generic::<3>(pixels)?,
-- 
2.43.0


From 3ed52f11cc7f58f4ae911f454722894db567db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 068/178] fix: zune-ppm reports read errors instead of reading
 zeros

---
 crates/zune-ppm/src/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 387397f..60a3067 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -457,7 +457,7 @@ where
         let mut value = 0_usize;
 
         while !self.reader.eof()? {
-            let byte = self.reader.read_u8();
+            let byte = self.reader.read_u8_err()?;
 
             if byte.is_ascii_digit() {
                 // if it overflows, we have bigger problems.
@@ -664,13 +664,13 @@ where
     T: ZByteReaderTrait
 {
     while !byte_stream.eof()? {
-        let mut byte = byte_stream.read_u8();
+        let mut byte = byte_stream.read_u8_err()?;
 
         if byte == b'#' {
             // comment
             // skip the whole comment
             while byte != b'\n' && !byte_stream.eof()? {
-                byte = byte_stream.read_u8();
+                byte = byte_stream.read_u8_err()?;
             }
         } else if !byte.is_ascii_whitespace() {
             // go back one step, we hit something that is not a space
@@ -697,7 +697,7 @@ fn get_bytes_until_whitespace<T: ZByteReaderTrait>(
     write_to.clear();
 
     while !z.eof()? {
-        let byte = z.read_u8();
+        let byte = z.read_u8_err()?;
         write_to.push(byte);
 
         if byte.is_ascii_whitespace() {
-- 
2.43.0


From fe042ee19adc99c1c083662475c423a218778fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 069/178] fix: zune-hdr reports read errors at the start of a
 row

---
 crates/zune-hdr/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 0e75d77..34094f8 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -325,7 +325,7 @@ where
                 continue;
             }
 
-            let mut i = self.buf.read_u8();
+            let mut i = self.buf.read_u8_err()?;
 
             if i != 2 {
                 // undo byte read
-- 
2.43.0


From 8dfd840dad469993d398d2bed4e2e3583a7de1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 070/178] fix: zune-bmp reports an output buffer that is too
 small instead of panicking

---
 crates/zune-bmp/src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 24466ff..a7b0482 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -738,6 +738,11 @@ where
             .output_buf_size()
             .ok_or(BmpDecoderErrors::OverFlowOccurred)?;
 
+        if buf.len() < output_size {
+            return Err(BmpDecoderErrors::GenericStatic(
+                "Output buffer is too small for the image"
+            ));
+        }
         let buf = &mut buf[0..output_size];
 
         if self.comp == BmpCompression::RLE4 || self.comp == BmpCompression::RLE8 {
-- 
2.43.0


From 270adcb367c6b5b3e0dc5e31b75943f2525b37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 071/178] fix: zune-bmp reports a read error in the palette
 instead of using black

---
 crates/zune-bmp/src/decoder.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index a7b0482..632a69e 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -559,24 +559,28 @@ where
                 }
                 self.palette.resize(256, PaletteEntry::default());
 
-                self.palette.iter_mut().take(colors as usize).for_each(|x| {
-                    let [b, g, r] = self
-                        .bytes
-                        .read_fixed_bytes_or_error::<3>()
-                        .unwrap_or([0, 0, 0]);
+                for x in self.palette.iter_mut().take(colors as usize) {
+                    let [b, g, r] = match self.bytes.read_fixed_bytes_or_error::<3>() {
+                        Ok(entry) => entry,
+                        // missing entries are black
+                        Err(ZByteIoError::NotEnoughBytes(_, _)) => [0; 3],
+                        Err(e) => return Err(e.into())
+                    };
 
                     x.red = r;
                     x.green = g;
                     x.blue = b;
-                });
+                }
             } else {
                 self.palette.resize(256, PaletteEntry::default());
 
-                self.palette.iter_mut().take(colors as usize).for_each(|x| {
-                    let [b, g, r, _] = self
-                        .bytes
-                        .read_fixed_bytes_or_error::<4>()
-                        .unwrap_or([0, 0, 0, 0]);
+                for x in self.palette.iter_mut().take(colors as usize) {
+                    let [b, g, r, _] = match self.bytes.read_fixed_bytes_or_error::<4>() {
+                        Ok(entry) => entry,
+                        // missing entries are black
+                        Err(ZByteIoError::NotEnoughBytes(_, _)) => [0; 4],
+                        Err(e) => return Err(e.into())
+                    };
 
                     x.red = r;
                     x.green = g;
@@ -584,7 +588,7 @@ where
                     // alpha is silently ignored, which is weird
                     // but i will match that behaviour
                     x.alpha = 255;
-                });
+                }
             }
             self.palette_numbers = colors as usize;
         }
-- 
2.43.0


From 03ad83065fe5374a4bf33c5b25706f722d0d22bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 072/178] fix: zune-ppm headers can be asked for more than once

---
 crates/zune-ppm/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 60a3067..b9efcea 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -140,6 +140,9 @@ where
     ///
     /// [`get_dimensions`]:Self::dimensions
     pub fn decode_headers(&mut self) -> Result<(), PPMDecodeErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         let p = self.reader.read_u8_err()?;
         let version = self.reader.read_u8_err()?;
 
-- 
2.43.0


From ad27a8743909d3e53f7b14bfa823093cfcd8588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:58 +0000
Subject: [PATCH 073/178] fix: zune-png reports the depth the decoder delivers
 when stripping to 8 bits

---
 crates/zune-png/src/decoder.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index a4a899a..346b7b2 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -238,7 +238,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
     /// Return the depth of the image
     ///
-    /// Bit depths less than 8 will be returned as [`BitDepth::Eight`](zune_core::bit_depth::BitDepth::Eight)
+    /// Bit depths less than 8 will be returned as [`BitDepth::Eight`](zune_core::bit_depth::BitDepth::Eight),
+    /// as will 16 bit images the decoder was asked to strip to 8 bits
     ///
     /// # Returns
     /// - `Some(depth)`:  The bit depth of the image.
@@ -247,9 +248,16 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         if !self.seen_hdr {
             return None;
         }
+        if self.options.png_get_strip_to_8bit() {
+            return Some(BitDepth::Eight);
+        }
+        Some(self.stored_depth())
+    }
+    /// The depth samples have before any stripping
+    const fn stored_depth(&self) -> BitDepth {
         match self.png_info.depth {
-            1 | 2 | 4 | 8 => Some(BitDepth::Eight),
-            16 => Some(BitDepth::Sixteen),
+            1 | 2 | 4 | 8 => BitDepth::Eight,
+            16 => BitDepth::Sixteen,
             _ => unreachable!()
         }
     }
@@ -1170,7 +1178,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         &self.previous_stride,
                         to_filter_row,
                         self.png_info.color,
-                        self.depth().unwrap()
+                        self.stored_depth()
                     );
                 }
             }
@@ -1258,7 +1266,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         &self.previous_stride,
                         to_filter_row,
                         self.png_info.color,
-                        self.depth().unwrap()
+                        self.stored_depth()
                     );
                 }
             }
-- 
2.43.0


From 7a0bf58b59ef41550490003e963967707fe214bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 074/178] fix: zune-core turns platform intrinsics off when
 unsafe use is turned off

---
 crates/zune-core/src/options/decoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-core/src/options/decoder.rs b/crates/zune-core/src/options/decoder.rs
index 6093c70..3a9a96d 100644
--- a/crates/zune-core/src/options/decoder.rs
+++ b/crates/zune-core/src/options/decoder.rs
@@ -439,7 +439,7 @@ impl DecoderOptions {
     /// false if it's not present
     #[allow(unreachable_code)]
     pub fn use_sse2(&self) -> bool {
-        let opt = self.flags.zune_use_sse2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -472,7 +472,7 @@ impl DecoderOptions {
     /// it's not present
     #[allow(unreachable_code)]
     pub fn use_sse3(&self) -> bool {
-        let opt = self.flags.zune_use_sse3 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse3 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -504,7 +504,7 @@ impl DecoderOptions {
     /// is not present
     #[allow(unreachable_code)]
     pub fn use_sse41(&self) -> bool {
-        let opt = self.flags.zune_use_sse41 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse41 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -536,7 +536,7 @@ impl DecoderOptions {
     /// not present
     #[allow(unreachable_code)]
     pub fn use_avx(&self) -> bool {
-        let opt = self.flags.zune_use_avx | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -568,7 +568,7 @@ impl DecoderOptions {
     /// present
     #[allow(unreachable_code)]
     pub fn use_avx2(&self) -> bool {
-        let opt = self.flags.zune_use_avx2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -596,7 +596,7 @@ impl DecoderOptions {
 
     #[allow(unreachable_code)]
     pub fn use_neon(&self) -> bool {
-        let opt = self.flags.zune_use_neon | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_neon & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
-- 
2.43.0


From bd90ec68daa4f440163522e095eaa4d0c50de811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:28 +0000
Subject: [PATCH 075/178] fix: guess_format: try every signature on data
 shorter than the longest ones

---
 crates/zune-image/src/codecs.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index 23bbb3d..b8dd6e0 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -761,8 +761,11 @@ where
     ];
 
     for (magic, decoder) in magic_bytes {
-        if reader.peek_at(0, magic.len()).ok()?.starts_with(magic) {
-            return Some((decoder, reader.consume()));
+        // data shorter than this signature may still match a shorter one
+        if let Ok(bytes) = reader.peek_at(0, magic.len()) {
+            if bytes.starts_with(magic) {
+                return Some((decoder, reader.consume()));
+            }
         }
     }
     #[cfg(feature = "bmp")]
@@ -771,10 +774,10 @@ where
         // bmp requires 15 bytes to determine if it is a valid one.
         // so take 16 just to be safe
 
-        let reference = reader.peek_at(0, 16).ok()?;
-
-        if zune_bmp::probe_bmp(reference) {
-            return Some((ImageFormat::BMP, reader.consume()));
+        if let Ok(reference) = reader.peek_at(0, 16) {
+            if zune_bmp::probe_bmp(reference) {
+                return Some((ImageFormat::BMP, reader.consume()));
+            }
         }
     }
     #[cfg(feature = "webp")]
-- 
2.43.0


From 05da1634493d88c3c678c079d093eddad503f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 076/178] fix: encode_to_result: return the encoded bytes

---
 crates/zune-image/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 3f74b0f..13929fd 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -386,10 +386,10 @@ pub trait EncoderTrait {
     /// and format in `EncodeResult`
     fn encode_to_result(&mut self, image: &Image) -> Result<EncodeResult, ImageErrors> {
         let mut sink = vec![];
-        let data = self.encode(image, &mut sink)?;
+        self.encode(image, &mut sink)?;
 
         Ok(EncodeResult {
-            data:   vec![],
+            data:   sink,
             format: self.format()
         })
     }
-- 
2.43.0


From 5b1eb11cf58db979e7e56f850d48d27d0c434555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 077/178] fix: save_to: report a failure to write the end of
 the file

---
 crates/zune-image/src/codecs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index b8dd6e0..c49784e 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -513,6 +513,8 @@ impl Image {
                 .open(file)?
         );
         self.encode(format, &mut file)?;
+        // dropping the buffer would discard the error of the last write
+        std::io::Write::flush(&mut file)?;
         Ok(())
     }
 
-- 
2.43.0


From 4e8aa79e84c205443fe05335889f76b7e0344884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 078/178] fix: zune-png encoder: report a failure to write the
 signature

---
 crates/zune-png/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/encoder.rs b/crates/zune-png/src/encoder.rs
index 4f3f78a..bfbae88 100644
--- a/crates/zune-png/src/encoder.rs
+++ b/crates/zune-png/src/encoder.rs
@@ -55,7 +55,7 @@ impl<'a> PngEncoder<'a> {
         &self, writer: &mut ZWriter<T>
     ) -> Result<(), ZByteIoError> {
         // write signature
-        writer.write_u64_be(PNG_SIGNATURE);
+        writer.write_u64_be_err(PNG_SIGNATURE)?;
         // write ihdr
         write_header_fn(self, writer, b"IHDR", write_ihdr)?;
 
-- 
2.43.0


From ddd8d66f549d3d6eb1d0d8d66578cb106521fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 079/178] fix: zune-qoi encoder: report a failure to write a
 pixel difference

---
 crates/zune-qoi/src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-qoi/src/encoder.rs b/crates/zune-qoi/src/encoder.rs
index 60156fb..9ec78b7 100644
--- a/crates/zune-qoi/src/encoder.rs
+++ b/crates/zune-qoi/src/encoder.rs
@@ -185,12 +185,12 @@ impl<'a> QoiEncoder<'a> {
                             && !(2..=253).contains(&vg)
                             && !(2..=253).contains(&vb)
                         {
-                            stream.write_u8(
+                            stream.write_u8_err(
                                 QOI_OP_DIFF
                                     | vr.wrapping_add(2) << 4
                                     | vg.wrapping_add(2) << 2
                                     | vb.wrapping_add(2)
-                            );
+                            )?;
                         } else if !(8..=247).contains(&vg_r)
                             && !(32..=223).contains(&vg)
                             && !(8..=247).contains(&vg_b)
-- 
2.43.0


From 5f88700e702f58c12bda380c9cbd74c336f784d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 080/178] fix: separate colour and alpha of gray images with
 alpha

The alpha of LumaA is the second channel, but a position of one was
taken for the leading alpha of ARGB, so colour and alpha were swapped.
---
 crates/zune-image/src/frame.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/crates/zune-image/src/frame.rs b/crates/zune-image/src/frame.rs
index d3a024d..e31d5d0 100644
--- a/crates/zune-image/src/frame.rs
+++ b/crates/zune-image/src/frame.rs
@@ -616,15 +616,12 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at(position);
+        let alpha_position = color_space.alpha_position().expect("No way!!");
+        let (src_c1, src_c2) = self.channels.split_at(alpha_position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if alpha_position == 0 {
             // argb
             src_alpha_channel = &src_c1[0];
             src_color_channels = src_c2;
@@ -660,15 +657,12 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at_mut(position);
+        let alpha_position = color_space.alpha_position().expect("No way!!");
+        let (src_c1, src_c2) = self.channels.split_at_mut(alpha_position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if alpha_position == 0 {
             // argb
             src_alpha_channel = &mut src_c1[0];
             src_color_channels = src_c2;
-- 
2.43.0


From 1ddc27b9a34b4451d126e77b94c16116068c3325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 081/178] fix: check the length of the alpha channel before
 running an operation

The invariants left out alpha, so an image whose alpha channel does not
match its dimensions was passed on to operations and encoders.
---
 crates/zune-image/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 13929fd..ffc7f40 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -238,7 +238,7 @@ fn confirm_invariants(image: &Image) -> Result<(), ImageErrors> {
 
     let expected_length = image.depth().size_of() * width * height;
 
-    for channel in image.channels_ref(true) {
+    for channel in image.channels_ref(false) {
         if channel.len() != expected_length {
             return Err(ImageErrors::DimensionsMisMatch(
                 expected_length,
-- 
2.43.0


From 8a4d05825108195f920308ddae2915257200fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 082/178] fix: vectorised grayscale conversion of 8 bit images

Green and blue swapped their weights, and of the pixels after the last
full vector only a third were converted, from the wrong positions.
---
 .../src/core_filters/colorspace/grayscale/avx2.rs        | 9 ++++-----
 .../src/core_filters/colorspace/grayscale/sse41.rs       | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
index b05e972..e030ce6 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
@@ -29,8 +29,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // Load to memory
@@ -77,11 +77,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
         // do the remainder
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
index c7c76b7..616d83d 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
@@ -34,8 +34,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // PS I'm not sure if this is valid, we chunked 8 values
@@ -75,11 +75,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
         // assume r ,g and b are equal lengths.
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
-- 
2.43.0


From 7c925423e24aa757ad23efed4b72c0472795f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 083/178] fix: ARGB images convert to RGBA by moving alpha to
 the end

The last channel, blue, was moved to the front, as for the opposite
conversion.
---
 .../src/core_filters/colorspace/conversion_functions.rs   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
index 4e58ae0..91588df 100644
--- a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
+++ b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
@@ -415,11 +415,15 @@ pub fn convert_rgba_to_argb_or_vice_versa(image: &mut Image) -> Result<(), Image
         image.colorspace(),
         ColorSpace::RGBA | ColorSpace::ARGB
     ));
+    let from_argb = image.colorspace() == ColorSpace::ARGB;
     // swap
     for frame in image.frames_mut() {
         // switch the channels now
-        let a_channel = frame.channels_vec().pop().unwrap();
-        frame.channels_vec().insert(0, a_channel);
+        if from_argb {
+            frame.channels_vec().rotate_left(1);
+        } else {
+            frame.channels_vec().rotate_right(1);
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 62edbe4cd7644070599b036a66ffce47e06c2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 084/178] fix: a colorspace conversion that isn't supported
 leaves the image alone

Conversions through an intermediate colorspace had already changed the
image when they found that the last step was missing.
---
 .../zune-image/src/core_filters/colorspace.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/zune-image/src/core_filters/colorspace.rs b/crates/zune-image/src/core_filters/colorspace.rs
index ee613ad..318bd82 100644
--- a/crates/zune-image/src/core_filters/colorspace.rs
+++ b/crates/zune-image/src/core_filters/colorspace.rs
@@ -70,6 +70,25 @@ impl OperationsTrait for ColorspaceConv {
             return Ok(());
         }
 
+        // a conversion that goes through an intermediate colorspace must not start
+        // when the last step isn't possible
+        if !matches!(
+            self.to,
+            ColorSpace::RGB
+                | ColorSpace::RGBA
+                | ColorSpace::Luma
+                | ColorSpace::LumaA
+                | ColorSpace::CMYK
+                | ColorSpace::BGR
+                | ColorSpace::BGRA
+                | ColorSpace::ARGB
+                | ColorSpace::HSL
+                | ColorSpace::HSV
+        ) {
+            let msg = format!("Unsupported/unknown mapping from {from:?} to {:?}", self.to);
+            return Err(ImageErrors::GenericString(msg));
+        }
+
         match from {
             ColorSpace::RGB => match self.to {
                 ColorSpace::RGBA => convert_adding_opaque_alpha(image)?,
-- 
2.43.0


From 892d55726d3d972b3bad8f278f057caafc73737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 085/178] fix: CMYK conversion of 16 bit and float images

The formula back to RGB was not an inverse of anything, black gave NaN,
and the inks were not inverted as they are for 8 bit images.
---
 .../core_filters/colorspace/rgb_to_cmyk.rs    | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
index a198347..e6b3c74 100644
--- a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
+++ b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
@@ -83,16 +83,18 @@ fn rgb_to_cmyk_inner_f32(r: f32, g: f32, b: f32) -> [f32; 4] {
     let ytmp = 1.0 - b.clamp(0., 1.);
 
     let ktmp = ctmp.min(mtmp).min(ytmp);
-    let kmtp_inv = 1.0 / (1.0 - ktmp);
+    // pure black needs no other ink
+    let kmtp_inv = if ktmp < 1.0 { 1.0 / (1.0 - ktmp) } else { 0.0 };
 
     let c = (ctmp - ktmp) * kmtp_inv;
     let m = (mtmp - ktmp) * kmtp_inv;
     let y = (ytmp - ktmp) * kmtp_inv;
 
-    out[0] = c;
-    out[1] = m;
-    out[2] = y;
-    out[3] = ktmp;
+    // inks are stored inverted, like in the u8 routines
+    out[0] = 1.0 - c;
+    out[1] = 1.0 - m;
+    out[2] = 1.0 - y;
+    out[3] = 1.0 - ktmp;
 
     out
 }
@@ -123,21 +125,16 @@ pub fn rgb_to_cmyk_u16(r_to_c: &mut [u16], g_to_m: &mut [u16], b_to_y: &mut [u16
             f32::from(*g_m) * inv,
             f32::from(*b_y) * inv
         );
-        *r_c = (result[0] * v) as u16;
-        *g_m = (result[1] * v) as u16;
-        *b_y = (result[2] * v) as u16;
-        *k = (result[3] * v) as u16;
+        *r_c = (result[0] * v + 0.5) as u16;
+        *g_m = (result[1] * v + 0.5) as u16;
+        *b_y = (result[2] * v + 0.5) as u16;
+        *k = (result[3] * v + 0.5) as u16;
     }
 }
 #[inline(always)]
 fn cmyk_to_rgb_f32_inner(c: f32, m: f32, y: f32, k: f32) -> [f32; 3] {
-    let k_inv = 1.0 / (k / 255.0 + 0.5);
-
-    let r = c * k_inv;
-    let g = m * k_inv;
-    let b = y * k_inv;
-
-    [r, g, b]
+    // inks are stored inverted, like in the u8 routines
+    [c * k, m * k, y * k]
 }
 
 /// Convert CMYK to RGB
@@ -186,8 +183,8 @@ pub fn cmyk_to_rgb_u16(c_to_r: &mut [u16], m_to_g: &mut [u16], y_to_b: &mut [u16
         let [r, g, b] = cmyk_to_rgb_f32_inner(c, m, y, k);
 
         // scale back to be between 0 - 65535
-        *c_r = (r * v) as u16;
-        *m_g = (g * v) as u16;
-        *y_b = (b * v) as u16;
+        *c_r = (r * v + 0.5) as u16;
+        *m_g = (g * v + 0.5) as u16;
+        *y_b = (b * v + 0.5) as u16;
     }
 }
-- 
2.43.0


From 7499cd24470a3ffd6ce08589a1f46e8f67cb722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 086/178] fix: depth conversions round to the nearest value

Truncation lost a unit for many values when widening to 16 bits or float
and converting back.
---
 crates/zune-image/src/core_filters/depth.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-image/src/core_filters/depth.rs b/crates/zune-image/src/core_filters/depth.rs
index 5cdff7c..574bd87 100644
--- a/crates/zune-image/src/core_filters/depth.rs
+++ b/crates/zune-image/src/core_filters/depth.rs
@@ -59,7 +59,7 @@ pub(crate) fn depth_u16_to_u8(from: &[u16], to: &mut [u8], max_value: u16) {
         let scale = 255.0;
 
         for (old, new) in from.iter().zip(to.iter_mut()) {
-            let new_val = ((f32::from(*old) * max) * scale) as u8;
+            let new_val = ((f32::from(*old) * max) * scale + 0.5) as u8;
             *new = new_val;
         }
     }
@@ -83,7 +83,7 @@ pub(crate) fn depth_u8_to_u16(from: &[u8], to: &mut [u16], max_value: u16) {
     let scale = f32::from(max_value);
 
     for (old, new) in from.iter().zip(to.iter_mut()) {
-        let new_val = ((f32::from(*old) * max) * scale) as u16;
+        let new_val = ((f32::from(*old) * max) * scale + 0.5) as u16;
         *new = new_val;
     }
 }
@@ -145,7 +145,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 255
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (255.0 * old_chan).clamp(0.0, 255.0) as u8;
+                        *new_chan = (255.0 * old_chan + 0.5).clamp(0.0, 255.0) as u8;
                     }
 
                     *channel = new_channel;
@@ -158,7 +158,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 65535
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0) as u16;
+                        *new_chan = (65535.0 * old_chan + 0.5).clamp(0.0, 65535.0) as u16;
                     }
 
                     *channel = new_channel;
-- 
2.43.0


From 5c614578ad00896a7a51605e4629f871db8ad8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 087/178] fix: threshold to zero keeps the samples above the
 threshold

---
 crates/zune-imageprocs/src/threshold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/threshold.rs b/crates/zune-imageprocs/src/threshold.rs
index 5e7dd13..177abe1 100644
--- a/crates/zune-imageprocs/src/threshold.rs
+++ b/crates/zune-imageprocs/src/threshold.rs
@@ -146,7 +146,7 @@ pub fn threshold<T>(in_channel: &mut [T], threshold: T, method: ThresholdMethod)
             {
                 for x in in_channel.iter_mut()
                 {
-                    *x = if *x > threshold { threshold } else { T::min_val() }
+                    *x = if *x > threshold { *x } else { T::min_val() }
                 }
             }
     }
-- 
2.43.0


From 306ab2fdec4203a3f98263969b2957f629a0bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 088/178] fix: contrast stretching is linear between lower and
 upper

---
 crates/zune-imageprocs/src/stretch_contrast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/stretch_contrast.rs b/crates/zune-imageprocs/src/stretch_contrast.rs
index 69fd8ce..1601752 100644
--- a/crates/zune-imageprocs/src/stretch_contrast.rs
+++ b/crates/zune-imageprocs/src/stretch_contrast.rs
@@ -107,7 +107,9 @@ where
         return Err("upper must be strictly greater than lower");
     }
 
-    let len = u32::from(upper.saturating_sub(lower)).saturating_add(1);
+    // lower maps to the minimum and upper to the maximum, so the range is
+    // the difference of the two, when they are equal no pixel is in between them
+    let len = u32::from(upper.saturating_sub(lower)).max(1);
 
     // using fast division is faster than the other one
     // (weirdly) vectorized one.
-- 
2.43.0


From 9a548b7671893cbf1b64627d35f58668f3ed6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 089/178] fix: contrast stretching of float samples

---
 crates/zune-imageprocs/src/stretch_contrast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/stretch_contrast.rs b/crates/zune-imageprocs/src/stretch_contrast.rs
index 1601752..9eacd12 100644
--- a/crates/zune-imageprocs/src/stretch_contrast.rs
+++ b/crates/zune-imageprocs/src/stretch_contrast.rs
@@ -141,12 +141,12 @@ pub fn stretch_contrast_f32(image: &mut [f32], lower: f32, upper: f32) -> Result
     }
     let inv_range = 1. / (upper - lower);
     for pixel in image.iter_mut() {
-        if *pixel > upper {
+        if *pixel >= upper {
             *pixel = f32::max_val();
         } else if *pixel <= lower {
             *pixel = f32::min_val();
         } else {
-            *pixel = (f32::max_val() - *pixel) * inv_range;
+            *pixel = (*pixel - lower) * inv_range;
         }
     }
 
-- 
2.43.0


From 6ddd3af8ac96103c5235a0730000917cbf638794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 090/178] fix: Sobel's horizontal derivative uses the bottom
 right neighbour

---
 crates/zune-imageprocs/src/sobel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 663c5fe..1fbf1a5 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -112,7 +112,7 @@ fn sobel_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -1.) + (f32::from(c[2]) * 1.);
     sum_a += (f32::from(c[3]) * -2.) + (f32::from(c[5]) * 2.);
-    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[7]) * 1.);
+    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[8]) * 1.);
 
     // matrix
     // -1,-2,-1,
@@ -146,7 +146,7 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -1) + (i32::from(c[2]) * 1);
     sum_a += (i32::from(c[3]) * -2) + (i32::from(c[5]) * 2);
-    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[7]) * 1);
+    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[8]) * 1);
 
     // matrix
     // -1,-2,-1,
-- 
2.43.0


From a31e43ffe1edd62f8373069a884ab6a35d4e098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 091/178] fix: Scharr's horizontal derivative uses the bottom
 right neighbour

---
 crates/zune-imageprocs/src/scharr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 1e762e5..6dfe2f9 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -158,7 +158,7 @@ fn scharr_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -03.) + (f32::from(c[2]) * 03.);
     sum_a += (f32::from(c[3]) * -10.) + (f32::from(c[5]) * 10.);
-    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[7]) * 30.);
+    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[8]) * 03.);
 
     // matrix
     // -03,-10,-03,
@@ -192,7 +192,7 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -03) + (i32::from(c[2]) * 03);
     sum_a += (i32::from(c[3]) * -10) + (i32::from(c[5]) * 10);
-    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[7]) * 03);
+    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[8]) * 03);
 
     // Gy matrix
     // -3,-10,-3,
-- 
2.43.0


From f1ca28346980a0f9690686c8057bdeb29a2469bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:32 +0000
Subject: [PATCH 092/178] fix: overflow in the derivative filters on 16 bit
 images

---
 crates/zune-imageprocs/src/scharr.rs | 5 ++++-
 crates/zune-imageprocs/src/sobel.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 6dfe2f9..1e3f3d2 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -203,7 +203,10 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -03) + (i32::from(c[6]) * 03);
     sum_b += (i32::from(c[7])  * 10) + (i32::from(c[8]) * 03);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // the squares of 16 bit derivatives do not fit in an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the scharr filter for a float channel
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 1fbf1a5..ad86fe4 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -157,7 +157,10 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -1) + (i32::from(c[6]) * 1);
     sum_b += (i32::from(c[7]) * 2) + (i32::from(c[8]) * 1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // the squares of 16 bit derivatives do not fit in an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the sobel filter for a float channel
-- 
2.43.0


From dd5a035d3718fe2e44dbc8289e16d71f242bc0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 093/178] fix: the median filter picks the middle value of the
 window

---
 crates/zune-imageprocs/src/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/median.rs b/crates/zune-imageprocs/src/median.rs
index 014c5bf..86d6b97 100644
--- a/crates/zune-imageprocs/src/median.rs
+++ b/crates/zune-imageprocs/src/median.rs
@@ -167,7 +167,7 @@ pub fn median_u16(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u16;
                 break;
@@ -249,7 +249,7 @@ pub fn median_u8(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u8;
                 break;
-- 
2.43.0


From dfbf3a67260d9bae28488da6560f55a81bc94a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 094/178] fix: a median filter of radius one is a 3x3 window

---
 crates/zune-imageprocs/src/median.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/median.rs b/crates/zune-imageprocs/src/median.rs
index 86d6b97..1363158 100644
--- a/crates/zune-imageprocs/src/median.rs
+++ b/crates/zune-imageprocs/src/median.rs
@@ -72,7 +72,7 @@ impl OperationsTrait for Median {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let (width, height) = image.dimensions();
 
-        if self.radius < 2 {
+        if self.radius < 1 {
             return Ok(());
         }
         let depth = image.depth();
-- 
2.43.0


From 00b215ba2406248be06513feb25511be7a407bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 095/178] fix: overflow in the contrast statistic

---
 crates/zune-imageprocs/src/spatial_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/spatial_ops.rs b/crates/zune-imageprocs/src/spatial_ops.rs
index 687fdc3..15621ca 100644
--- a/crates/zune-imageprocs/src/spatial_ops.rs
+++ b/crates/zune-imageprocs/src/spatial_ops.rs
@@ -73,7 +73,7 @@ fn find_contrast<
         }
     }
     let num = maximum - minimum;
-    let div = (maximum + minimum).saturating_add(T::one()); // do not allow division by zero
+    let div = maximum.saturating_add(minimum).saturating_add(T::one()); // do not allow division by zero
 
     num / div
 }
-- 
2.43.0


From 4b7f4aeded69bbe37ae51b4cb251604ddcb82002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 096/178] fix: overflow in the mean of large windows of 16 bit
 images

---
 crates/zune-imageprocs/src/spatial_ops.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/spatial_ops.rs b/crates/zune-imageprocs/src/spatial_ops.rs
index 15621ca..2b6964a 100644
--- a/crates/zune-imageprocs/src/spatial_ops.rs
+++ b/crates/zune-imageprocs/src/spatial_ops.rs
@@ -117,13 +117,13 @@ where
     u32: std::convert::From<T>
 {
     //https://godbolt.org/z/6Y8ncehd5
-    let mut maximum = u32::default();
-    let len = data.len() as u32;
+    let mut maximum = u64::default();
+    let len = data.len() as u64;
 
     for datum in data {
-        maximum += u32::from(*datum);
+        maximum += u64::from(u32::from(*datum));
     }
-    T::from_u32(maximum / len)
+    T::from_u64(maximum / len)
 }
 
 /// Run spatial operations on a pixel
-- 
2.43.0


From 8f38c6b1e3be9040f68fca7e5058ad245e973af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 097/178] fix: unsharp masking doesn't wrap around

---
 crates/zune-imageprocs/src/unsharpen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/unsharpen.rs b/crates/zune-imageprocs/src/unsharpen.rs
index 214597c..ae0fde5 100644
--- a/crates/zune-imageprocs/src/unsharpen.rs
+++ b/crates/zune-imageprocs/src/unsharpen.rs
@@ -202,7 +202,7 @@ pub fn unsharpen_u16(
         // let diff = (diff * percentage) / 100;
 
         // if diff > threshold { pix = (diff + pix) } else { pix }
-        *in_pix = (in_pix.wrapping_add(diff) & !threshold_mask) | (*in_pix & threshold_mask);
+        *in_pix = (in_pix.saturating_add(diff) & !threshold_mask) | (*in_pix & threshold_mask);
     }
 }
 
@@ -238,7 +238,7 @@ pub fn unsharpen_u8(
     // blur buffer now contains gaussian blurred pixels
     // so iterate replacing them
     for (in_pix, blur_pix) in channel.iter_mut().zip(blur_buffer.iter()) {
-        let diff = in_pix.wrapping_sub(*blur_pix);
+        let diff = in_pix.saturating_sub(*blur_pix);
         // pull some branchless tricks to help the optimizer
         // here
 
-- 
2.43.0


From 64ebcc45a54f4838ba001992ba6cf450b6908eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 098/178] fix: box blur windows are centered on their pixel and
 cover the borders

---
 crates/zune-imageprocs/src/box_blur.rs | 141 +++++++++++--------------
 1 file changed, 62 insertions(+), 79 deletions(-)

diff --git a/crates/zune-imageprocs/src/box_blur.rs b/crates/zune-imageprocs/src/box_blur.rs
index 7dca2f3..245b09d 100644
--- a/crates/zune-imageprocs/src/box_blur.rs
+++ b/crates/zune-imageprocs/src/box_blur.rs
@@ -220,78 +220,61 @@ where
     // and we have a window sum!
 
     if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+        // every window is a single pixel
+        out_image.copy_from_slice(in_image);
         return;
     }
-    let diameter = diameter.min(width);
+    // the window isn't wider than the image, and it stays odd, so that it has a center
+    let diameter = diameter.min(width - 1 + (width % 2));
+    let half = diameter / 2;
     let m_radius = compute_mod_u32(diameter as u64);
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
-        let half_radius = (diameter + 1) / 2;
+        // pixels outside of the image repeat the one at the edge
+        let first_item = u32::from(stride_in[0]);
+        let last_item = u32::from(stride_in[width - 1]);
 
-        let mut accumulator: u32 = stride_in[..half_radius].iter().map(|x| u32::from(*x)).sum();
+        // window of the first pixel
+        let mut accumulator: u32 = stride_in[..=half].iter().map(|x| u32::from(*x)).sum();
 
-        accumulator += ((half_radius - 1) as u32) * u32::from(stride_in[0]);
+        accumulator += (half as u32) * first_item;
 
-        for (data_in, data_out) in stride_in[half_radius..]
+        // windows that start before the image
+        for (data_in, data_out) in stride_in[half + 1..]
             .iter()
             .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
+            .take(half)
         {
-            accumulator += u32::from(*data_in);
-            accumulator -= u32::from(stride_in[0]);
-
             *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
+
+            accumulator += u32::from(*data_in);
+            accumulator -= first_item;
         }
 
-        // testing purposes
-        //
-        // assert_eq!(
-        //     accumulator,
-        //     stride_in[..diameter]
-        //         .iter()
-        //         .map(|x| u32::from(*x))
-        //         .sum::<u32>()
-        // );
-
-        let mut window_slide = u32::from(stride_in[0]);
-
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
+        // windows inside the image, window_in contains
+        // the current and the next window
+        for (window_in, data_out) in stride_in
+            .windows(diameter + 1)
+            .zip(stride_out[half..].iter_mut())
         {
-            accumulator -= window_slide;
-            accumulator += u32::from(*window_in.last().unwrap());
-
-            // testing purposes
-            //
-            // assert_eq!(
-            //     accumulator,
-            //     window_in.iter().map(|x| u32::from(*x)).sum::<u32>()
-            // );
-
-            window_slide = u32::from(window_in[0]);
-
             *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
-        }
 
-        let edge_len = stride_out.len() - half_radius;
-
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = u32::from(*stride_in.last().unwrap());
+            accumulator += u32::from(window_in[diameter]);
+            accumulator -= u32::from(window_in[0]);
+        }
 
-        for (data_in, data_out) in stride_in[edge_len..]
+        // windows that end after the image
+        for (data_in, data_out) in stride_in[width - diameter..]
             .iter()
-            .zip(end_stride)
-            .take(half_radius)
+            .zip(stride_out[width - half - 1..].iter_mut())
         {
-            accumulator = accumulator.wrapping_sub(u32::from(*data_in));
-            accumulator = accumulator.wrapping_add(last_item);
-
             *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
+
+            accumulator += last_item;
+            accumulator -= u32::from(*data_in);
         }
     }
 }
@@ -306,61 +289,61 @@ pub(crate) fn box_blur_f32_inner(
     let diameter = (radius * 2) + 1;
 
     if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+        // every window is a single pixel
+        out_image.copy_from_slice(in_image);
         return;
     }
-    let diameter = diameter.min(width);
+    // the window isn't wider than the image, and it stays odd, so that it has a center
+    let diameter = diameter.min(width - 1 + (width % 2));
+    let half = diameter / 2;
     let recip = 1.0 / diameter as f32;
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
-        let half_radius = (diameter + 1) / 2;
+        // pixels outside of the image repeat the one at the edge
+        let first_item = stride_in[0];
+        let last_item = stride_in[width - 1];
 
-        let mut accumulator: f32 = stride_in[..half_radius].iter().copied().sum();
+        // window of the first pixel
+        let mut accumulator: f32 = stride_in[..=half].iter().copied().sum();
 
-        accumulator += (half_radius - 1) as f32 * stride_in[0];
+        accumulator += (half as f32) * first_item;
 
-        for (data_in, data_out) in stride_in[half_radius..]
+        // windows that start before the image
+        for (data_in, data_out) in stride_in[half + 1..]
             .iter()
             .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
+            .take(half)
         {
-            accumulator += *data_in;
-            accumulator -= stride_in[0];
-
             *data_out = accumulator * recip;
-        }
 
-        let mut window_slide = stride_in[0];
+            accumulator += *data_in;
+            accumulator -= first_item;
+        }
 
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
+        // windows inside the image, window_in contains
+        // the current and the next window
+        for (window_in, data_out) in stride_in
+            .windows(diameter + 1)
+            .zip(stride_out[half..].iter_mut())
         {
-            accumulator -= window_slide;
-            accumulator += *window_in.last().unwrap();
-
-            window_slide = window_in[0];
-
             *data_out = accumulator * recip;
-        }
-
-        let edge_len = stride_out.len() - half_radius;
 
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = *stride_in.last().unwrap();
+            accumulator += window_in[diameter];
+            accumulator -= window_in[0];
+        }
 
-        for (data_in, data_out) in stride_in[edge_len..]
+        // windows that end after the image
+        for (data_in, data_out) in stride_in[width - diameter..]
             .iter()
-            .zip(end_stride)
-            .take(half_radius)
+            .zip(stride_out[width - half - 1..].iter_mut())
         {
-            accumulator -= *data_in;
-            accumulator += last_item;
-
             *data_out = accumulator * recip;
+
+            accumulator += last_item;
+            accumulator -= *data_in;
         }
     }
 }
-- 
2.43.0


From 9deb0efcb3e1c50a40d22b84ba39f7e6cb529fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 099/178] fix: bilateral filter weighs each pixel by its own
 distance from the center

---
 .../zune-imageprocs/src/bilateral_filter.rs   | 49 +++++++------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/crates/zune-imageprocs/src/bilateral_filter.rs b/crates/zune-imageprocs/src/bilateral_filter.rs
index 6e7c209..4aeb580 100644
--- a/crates/zune-imageprocs/src/bilateral_filter.rs
+++ b/crates/zune-imageprocs/src/bilateral_filter.rs
@@ -78,10 +78,6 @@ impl OperationsTrait for BilateralFilter {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let depth = image.depth();
         let (w, h) = image.dimensions();
-        if self.d < 1 {
-            return Ok(());
-        }
-
         // initialize bilateral coefficients outside of the main loop
         let coeffs = init_bilateral(
             self.d,
@@ -127,53 +123,50 @@ impl OperationsTrait for BilateralFilter {
 
 struct BilateralCoeffs {
     color_weight: Vec<f64>,
-    space_weight: Vec<f64>,
-    radius:       usize,
-    makx:         usize
+    /// position in the window and weight of each pixel in the neighborhood
+    space_weight: Vec<(usize, f64)>,
+    radius:       usize
 }
 
 #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
 fn init_bilateral(
-    d: i32, sigma_color: f32, mut sigma_space: f32, color_range: usize
+    d: i32, mut sigma_color: f32, mut sigma_space: f32, color_range: usize
 ) -> BilateralCoeffs {
-    let gauss_color_coeff = f64::from(-0.5 / (sigma_color * sigma_color));
-    let gauss_space_coeff = f64::from(-0.5 / (sigma_space * sigma_space));
-    let cn = 1;
-
-    // if sigma_color <= 0.0 {
-    //     sigma_color = 1.0;
-    // }
+    if sigma_color <= 0.0 {
+        sigma_color = 1.0;
+    }
     if sigma_space <= 0.0 {
         sigma_space = 1.0;
     }
+    let gauss_color_coeff = f64::from(-0.5 / (sigma_color * sigma_color));
+    let gauss_space_coeff = f64::from(-0.5 / (sigma_space * sigma_space));
+    let cn = 1;
 
     let radius: i32 = if d <= 0 { (sigma_space * 1.5).round() as _ } else { d / 2 };
 
     let mut color_weight = vec![0.0_f64; cn * color_range];
-    let mut space_weight = vec![0.0_f64; (d * d).unsigned_abs() as usize];
+    let mut space_weight = vec![];
 
     // initialize color-related bilateral filter coeffs
     for (i, item) in color_weight.iter_mut().enumerate().take(color_range) {
         let c = i as f64;
         *item = (c * c * gauss_color_coeff).exp();
     }
-    let mut makx = 0;
+    let mut position = 0;
     // initialize space-related bilateral coeffs
     for i in -radius..=radius {
         for j in -radius..=radius {
             let r = f64::from((i * i) + (j * j)).sqrt();
-            if r > f64::from(radius) {
-                continue;
+            if r <= f64::from(radius) {
+                space_weight.push((position, (r * r * gauss_space_coeff).exp()));
             }
-            space_weight[makx] = (r * r * gauss_space_coeff).exp();
-            makx += 1;
+            position += 1;
         }
     }
     return BilateralCoeffs {
         color_weight,
         space_weight,
-        radius: usize::try_from(radius).unwrap_or_default(),
-        makx
+        radius: usize::try_from(radius).unwrap_or_default()
     };
 }
 
@@ -198,18 +191,14 @@ fn bilateral_filter_int<T>(
     // This impl matches opencv bilateral_filter's inner loop, with less pointer chasing as
     // the spatial function sends the right thing to us
     let bilateral_func = |area: &[T]| -> T {
-        let mid = (area.len() + 1) / 2;
+        let mid = area.len() / 2;
 
         let mut sum = 0.0;
         let mut wsum = 0.0;
         let val0 = i32::from(area[mid]);
 
-        for (val, space_w) in area
-            .iter()
-            .zip(coeffs.space_weight.iter())
-            .take(coeffs.makx)
-        {
-            let val = i32::from(*val);
+        for (position, space_w) in &coeffs.space_weight {
+            let val = i32::from(area[*position]);
             let abs_val = (val - val0).unsigned_abs() as usize;
 
             let w = space_w * coeffs.color_weight[abs_val];
-- 
2.43.0


From fd1539d50bbd9a6d9cc5e7540fef5d604dde26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 100/178] fix: pre-multiplying white by an opaque alpha keeps
 it white

---
 crates/zune-imageprocs/src/premul_alpha.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/zune-imageprocs/src/premul_alpha.rs b/crates/zune-imageprocs/src/premul_alpha.rs
index 4881b49..db54a5c 100644
--- a/crates/zune-imageprocs/src/premul_alpha.rs
+++ b/crates/zune-imageprocs/src/premul_alpha.rs
@@ -238,12 +238,11 @@ pub fn create_unpremul_table_u16() -> Vec<u128> {
 /// Items in input are modified in place.
 #[allow(clippy::cast_possible_truncation)]
 pub fn premultiply_u8(input: &mut [u8], alpha: &[u8]) {
-    const MAX_VALUE: u16 = 255;
-
+    // division by 255, rounded to nearest
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u16::from(*al) * u16::from(*color)) + 0x80;
 
-        *color = ((temp + (temp >> 8)) / MAX_VALUE) as u8;
+        *color = ((temp + (temp >> 8)) >> 8) as u8;
     });
 }
 
@@ -257,11 +256,11 @@ pub fn premultiply_u8(input: &mut [u8], alpha: &[u8]) {
 /// returns: Array modified in place
 #[allow(clippy::cast_possible_truncation)]
 pub fn premultiply_u16(input: &mut [u16], alpha: &[u16]) {
-    const MAX_VALUE: u32 = 65535;
-
+    // division by 65535, rounded to nearest
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
-        let temp = (u32::from(*al) * u32::from(*color)) + ((MAX_VALUE + 1) / 2);
-        *color = ((temp + (temp >> 16)) / MAX_VALUE) as u16;
+        let temp = (u32::from(*al) * u32::from(*color)) + 0x8000;
+
+        *color = ((temp + (temp >> 16)) >> 16) as u16;
     });
 }
 
-- 
2.43.0


From 9e397af563aad7f76744ff8e9dab75c86dd0b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 101/178] fix: blending with an alpha of one or more gives the
 source

---
 crates/zune-imageprocs/src/blend.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-imageprocs/src/blend.rs b/crates/zune-imageprocs/src/blend.rs
index d1c435a..00b08ca 100644
--- a/crates/zune-imageprocs/src/blend.rs
+++ b/crates/zune-imageprocs/src/blend.rs
@@ -146,6 +146,7 @@ where
     if src_alpha >= 1.0 {
         // copy source to destination
         dest.copy_from_slice(src);
+        return;
     }
 
     let dest_alpha = 1.0 - src_alpha;
-- 
2.43.0


From 47707d2662b98bff0578d04802adb23779c05fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 102/178] fix: blending images with different numbers of frames
 is an error

---
 crates/zune-imageprocs/src/blend.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-imageprocs/src/blend.rs b/crates/zune-imageprocs/src/blend.rs
index 00b08ca..8c8d12d 100644
--- a/crates/zune-imageprocs/src/blend.rs
+++ b/crates/zune-imageprocs/src/blend.rs
@@ -97,6 +97,12 @@ impl<'src> OperationsTrait for Blend<'src> {
             ));
         }
 
+        if image.frames_len() != self.image.frames_len() {
+            return Err(ImageErrors::GenericStr(
+                "Image frames do not match for blend"
+            ));
+        }
+
         let b_type = image.depth().bit_type();
 
         for (src_chan, d_chan) in self
-- 
2.43.0


From 04ab49fadf011eb8b0e201b81427fdcd1e1c97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 103/178] fix: compositing with the source or destination
 method on images with alpha

---
 crates/zune-imageprocs/src/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index e371d41..e27e044 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -127,7 +127,7 @@ impl<'a> OperationsTrait for Composite<'a> {
         match self.composite_method.composite_type() {
             CompositeMethodType::ChannelBased => {
                 let colorspace = image.colorspace();
-                if colorspace.has_alpha() {
+                if colorspace.has_alpha() && self.composite_method == CompositeMethod::Over {
                     for (src_frame, dst_frame) in
                         self.src_image.frames_ref().iter().zip(image.frames_mut())
                     {
-- 
2.43.0


From 5cf6b6464bea31af50a98c79fa3c2e30fa3ba005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 104/178] fix: alpha of an image composited over another

---
 crates/zune-imageprocs/src/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index e27e044..52d2a96 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -320,7 +320,7 @@ fn composite_alpha_channel<T>(
                     let dst_alpha = 1.0 - src_normalized;
 
                     *dst = T::from_f32(
-                        (src_normalized * f32::from(*src_p)) + (dst_alpha * f32::from(*dst))
+                        f32::from(*src_p) + (dst_alpha * f32::from(*dst))
                     );
                 }
             }
-- 
2.43.0


From 9fd2777eb312554696c4bdfac8884b7b02f94498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 105/178] fix: encoders keep the metadata unless told to strip
 it

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index fb59f6c..77dc45d 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -183,7 +183,7 @@ impl EncoderOptions {
     /// The default value is false, and encoders that respect this try to preserve as much
     /// data as possible from one image to another
     pub const fn strip_metadata(&self) -> bool {
-        !self.flags.image_strip_metadata
+        self.flags.image_strip_metadata
     }
 }
 
-- 
2.43.0


From d745297262daac2e01e5bfe122fa24475d222cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 106/178] fix: setting progressive JPEG encoding sets that flag

---
 crates/zune-core/src/options/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index 77dc45d..c634324 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -211,7 +211,7 @@ impl EncoderOptions {
     ///
     /// Default is `false`
     pub fn set_jpeg_encode_progressive(mut self, yes: bool) -> Self {
-        self.flags.jpeg_optimize_huffman = yes;
+        self.flags.jpeg_encode_progressive = yes;
         self
     }
 }
-- 
2.43.0


From b83e4a6930f80e3a34b94024a7b01fe5dfeab14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 107/178] fix: automatic orientation records a valid
 orientation

---
 crates/zune-imageprocs/src/auto_orient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/auto_orient.rs b/crates/zune-imageprocs/src/auto_orient.rs
index d99bd82..6b75f5e 100644
--- a/crates/zune-imageprocs/src/auto_orient.rs
+++ b/crates/zune-imageprocs/src/auto_orient.rs
@@ -106,7 +106,7 @@ impl OperationsTrait for AutoOrient {
                 for field in data {
                     // set orientation to do nothing
                     if field.tag == Tag::Orientation {
-                        field.value = Value::Byte(vec![1]);
+                        field.value = Value::Short(vec![1]);
                     }
                 }
             }
-- 
2.43.0


From 4f2bc3d20868e64c5c9d1b0729c9bbc70b9b394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 108/178] fix: automatic orientation doesn't use the
 orientation of the thumbnail

---
 crates/zune-imageprocs/src/auto_orient.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/auto_orient.rs b/crates/zune-imageprocs/src/auto_orient.rs
index 6b75f5e..16028f6 100644
--- a/crates/zune-imageprocs/src/auto_orient.rs
+++ b/crates/zune-imageprocs/src/auto_orient.rs
@@ -46,12 +46,12 @@ impl OperationsTrait for AutoOrient {
 
         #[cfg(feature = "exif")]
         {
-            use exif::{Tag, Value};
+            use exif::{In, Tag, Value};
 
             if let Some(data) = image.metadata().clone().exif() {
                 'rotator: for field in data {
-                    // look for the orientation tag
-                    if field.tag == Tag::Orientation {
+                    // look for the orientation tag of the image, the thumbnail has its own
+                    if field.tag == Tag::Orientation && field.ifd_num == In::PRIMARY {
                         match &field.value {
                             Value::Short(bytes) => {
                                 if bytes.is_empty() {
-- 
2.43.0


From 3d8c6d72f590d129f06f4789993ac2d351553ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 109/178] fix: size of the channels of transformed 16 bit and
 float images

---
 crates/zune-imageprocs/src/affine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 7dcb7b3..47cda14 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -146,8 +146,10 @@ impl OperationsTrait for AffineTransform {
                 return Err(ImageErrors::GenericString("AffineTransform doesn't have inverse".to_string()));
             } // Degenerate transform
         };
+        let new_length = new_w * new_h * image.depth().size_of();
+
         let affine_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
-            let mut new_channel = Channel::new_with_bit_type(new_w * new_h, depth);
+            let mut new_channel = Channel::new_with_bit_type(new_length, depth);
 
             match depth {
                 BitType::U8 => affine_transform_channel::<u8>(
-- 
2.43.0


From 0d3fbeaf7e37a28854da23e793ba92bbf3b1bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 110/178] fix: affine transforms keep the last row and column

---
 crates/zune-imageprocs/src/affine.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 47cda14..4d00ec1 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -284,14 +284,15 @@ pub fn affine_transform_channel<T: Copy + Default + NumOps<T>>(
 
             // Bilinear interpolation
             if src_x >= 0.0
-                && src_x < (in_width - 1) as f32
+                && src_x <= (in_width - 1) as f32
                 && src_y >= 0.0
-                && src_y < (in_height - 1) as f32
+                && src_y <= (in_height - 1) as f32
             {
                 let x0 = src_x.floor() as usize;
                 let y0 = src_y.floor() as usize;
-                let x1 = x0 + 1;
-                let y1 = y0 + 1;
+                // the last column and row have no neighbour
+                let x1 = (x0 + 1).min(in_width - 1);
+                let y1 = (y0 + 1).min(in_height - 1);
 
                 let fx = src_x - x0 as f32;
                 let fy = src_y - y0 as f32;
-- 
2.43.0


From 7bd6043e497877ed78e115bc66ef245ceef5c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 111/178] fix: resizing to zero width or height is an error

---
 crates/zune-imageprocs/src/resize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index bd3c5c0..84de1af 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -88,6 +88,11 @@ impl OperationsTrait for Resize {
 
     #[allow(clippy::too_many_lines)]
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
+        if self.new_width == 0 || self.new_height == 0 {
+            return Err(ImageErrors::GenericStr(
+                "Cannot resize an image to zero width or height"
+            ));
+        }
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
         let is_image_linear = image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
-- 
2.43.0


From 9e20ac4ef2729d63bdea9520cc0f0fca61592800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 112/178] fix: resizing to the same size leaves the image alone

---
 crates/zune-imageprocs/src/resize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index 84de1af..9b8c391 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -93,6 +93,10 @@ impl OperationsTrait for Resize {
                 "Cannot resize an image to zero width or height"
             ));
         }
+        if image.dimensions() == (self.new_width, self.new_height) {
+            // nothing to resample
+            return Ok(());
+        }
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
         let is_image_linear = image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
-- 
2.43.0


From c18023c6682582cefa4e497ece99d9f71a09deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 113/178] fix: resizing a linear image keeps it linear

---
 crates/zune-imageprocs/src/resize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index 9b8c391..5678640 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -99,7 +99,8 @@ impl OperationsTrait for Resize {
         }
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
-        let is_image_linear = image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
+        let is_image_linear = image.metadata().is_linear()
+            || image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
 
         let transfer_function = image
             .metadata()
-- 
2.43.0


From da2d302b264bda7500e4434303b2e195a0570b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 114/178] fix: resizing doesn't darken images by truncating
 linear light to integers

---
 crates/zune-imageprocs/src/resize.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index 5678640..66668ea 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -107,6 +107,11 @@ impl OperationsTrait for Resize {
             .color_trc()
             .unwrap_or(ColorCharacteristics::sRGB);
 
+        // linear light and interpolated values do not fit in the precision of integers,
+        // dark colors would turn black
+        let original_depth = image.depth();
+        image.convert_depth(BitDepth::Float32)?;
+
         if !is_image_linear {
             let start = Instant::now();
             trace!("Converting image to linear along resize method");
@@ -124,10 +129,7 @@ impl OperationsTrait for Resize {
         // if alpha is present premultiply
         let is_premultiplied = image.metadata().is_premultiplied_alpha();
         let has_alpha = image.colorspace().has_alpha();
-        let original_depth = image.depth();
         if !is_premultiplied && has_alpha {
-            // pre multiply looses color if its in u8
-            image.convert_depth(BitDepth::Float32)?;
             trace!("Premultiplying alpha along resize method");
             let start = Instant::now();
             PremultiplyAlpha::new(AlphaState::PreMultiplied).execute_impl(image)?;
@@ -201,8 +203,6 @@ impl OperationsTrait for Resize {
             trace!("Un-premultiplying alpha along resize method");
             let start = Instant::now();
             PremultiplyAlpha::new(AlphaState::NonPreMultiplied).execute_impl(image)?;
-            // return the depth originally there
-            image.convert_depth(original_depth)?;
             let duration = start.elapsed();
             trace!("Un-premultiply successfully completed in {:.2?}", duration);
         }
@@ -221,6 +221,8 @@ impl OperationsTrait for Resize {
                 duration
             );
         }
+        // return the depth originally there
+        image.convert_depth(original_depth)?;
 
         Ok(())
     }
-- 
2.43.0


From b971adc141e1d49bc9ab74ac671e5e0bb01ecfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 115/178] fix: the larger ratio dimensions take the larger
 dimension into account

---
 crates/zune-imageprocs/src/resize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index 66668ea..aceeed9 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -264,7 +264,7 @@ pub fn ratio_dimensions_larger(
 ) -> (usize, usize) {
     let ratio_w = old_w as f64 / new_w as f64;
     let ratio_h = old_h as f64 / new_h as f64;
-    let percent = if ratio_h < ratio_w { ratio_w } else { ratio_h };
+    let percent = if ratio_h > ratio_w { ratio_w } else { ratio_h };
 
     let t = (old_w as f64 / percent) as usize;
     let u = (old_h as f64 / percent) as usize;
-- 
2.43.0


From 4827f567d0229bdc2282d0beb63695d95562c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 116/178] fix: record the depth of the alpha channel in 16 bit
 jpeg xl images

---
 crates/zune-jpegxl/src/encoder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 7ef8e48..80ab655 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -1517,7 +1517,18 @@ fn prepare_header(frame: &mut FrameState, add_image_header: bool, is_last: bool)
         }
         if have_alpha {
             output.put_bits(2, 1); // extra channel
-            output.put_bits(1, 1); // all default (8 bit alpha)
+            if depth == BitDepth::Eight {
+                output.put_bits(1, 1); // all default (8 bit alpha)
+            } else {
+                output.put_bits(1, 0); // not all default
+                output.put_bits(2, 0); // type is alpha
+                output.put_bits(1, 0); // not floating point samples
+                output.put_bits(2, 0b11); // same bit depth as the color channels
+                output.put_bits(6, (depth.bit_size() - 1) as u64);
+                output.put_bits(2, 0); // not subsampled
+                output.put_bits(2, 0); // no name
+                output.put_bits(1, 0); // not associated (premultiplied) alpha
+            }
         } else {
             output.put_bits(2, 0); // no extra channel
         }
-- 
2.43.0


From c46c940c0b92c34ce4a315479f742b59a7332c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 117/178] fix: 16 bit grayscale samples with alpha are unsigned
 in jpeg xl encoding

---
 crates/zune-jpegxl/src/color_convert.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/zune-jpegxl/src/color_convert.rs b/crates/zune-jpegxl/src/color_convert.rs
index d300b18..7c8f1a7 100644
--- a/crates/zune-jpegxl/src/color_convert.rs
+++ b/crates/zune-jpegxl/src/color_convert.rs
@@ -69,14 +69,19 @@ where
 
 pub fn fill_row_ga16<T>(pixels: &[u8], oxs: usize, luma: &mut [T], alpha: &mut [T])
 where
-    T: From<i16>
+    T: TryFrom<u16>
 {
     for ((rg, lm), am) in pixels.chunks_exact(4).zip(luma).zip(alpha).take(oxs) {
-        let luma_bits = i16::from_ne_bytes([rg[0], rg[1]]);
-        let alpha_bits = i16::from_ne_bytes([rg[2], rg[3]]);
-
-        *lm = T::from(luma_bits);
-        *am = T::from(alpha_bits);
+        let luma_bits = u16::from_ne_bytes([rg[0], rg[1]]);
+        let alpha_bits = u16::from_ne_bytes([rg[2], rg[3]]);
+
+        // like fill_row_g16, these always fit since the pixel type is i32
+        if let (Ok(l), Ok(a)) = (T::try_from(luma_bits), T::try_from(alpha_bits)) {
+            *lm = l;
+            *am = a;
+        } else {
+            debug_assert!(false, "Conversion failed")
+        }
     }
 }
 
-- 
2.43.0


From 92422885f8ce2c68a57c3150cb38414d3d73d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:39 +0000
Subject: [PATCH 118/178] fix: jpeg xl encoder reserves enough space for 16 bit
 samples

---
 crates/zune-jpegxl/src/bit_depth.rs |  3 ++-
 crates/zune-jpegxl/src/encoder.rs   | 32 ++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/crates/zune-jpegxl/src/bit_depth.rs b/crates/zune-jpegxl/src/bit_depth.rs
index 70eb5ef..976a36c 100644
--- a/crates/zune-jpegxl/src/bit_depth.rs
+++ b/crates/zune-jpegxl/src/bit_depth.rs
@@ -203,7 +203,8 @@ impl JxlBitEncoder for MoreThan14Bits {
     }
 
     fn max_encoded_bits_per_sample(&self) -> usize {
-        24
+        // 8 bits for the prefix code, 17 extra bits for the largest residual
+        25
     }
     fn num_symbols(&self, _: bool) -> usize {
         19
diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 80ab655..ca01b18 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -894,10 +894,10 @@ fn process_image_area<A, BitDepth>(
 }
 
 fn prepare_dc_global_common(
-    is_single_group: bool, width: usize, height: usize, codes: &[PrefixCode],
+    is_single_group: bool, width: usize, height: usize, max_bits: usize, codes: &[PrefixCode],
     output: &mut BitWriter
 ) {
-    let length = if is_single_group { width * height * 16 } else { 0 };
+    let length = if is_single_group { width * height * max_bits } else { 0 };
 
     output.allocate(100000 + length);
 
@@ -1019,10 +1019,10 @@ fn write_a_c_section<B: JxlBitEncoder>(
 }
 
 fn prepare_dc_global(
-    is_single_group: bool, width: usize, height: usize, channels: usize, code: &[PrefixCode],
-    output: &mut BitWriter
+    is_single_group: bool, width: usize, height: usize, channels: usize, max_bits: usize,
+    code: &[PrefixCode], output: &mut BitWriter
 ) {
-    prepare_dc_global_common(is_single_group, width, height, code, output);
+    prepare_dc_global_common(is_single_group, width, height, max_bits, code, output);
 
     if channels > 2 {
         output.put_bits(2, 0b01); // 1 transform
@@ -1209,7 +1209,16 @@ impl<'a> JxlSimpleEncoder<'a> {
             {
                 let writer = &mut group_data[0].lock().unwrap()[0];
 
-                prepare_dc_global(one_group, width, height, num_components, &codes, writer);
+                let max_bits = encoder.max_encoded_bits_per_sample();
+                prepare_dc_global(
+                    one_group,
+                    width,
+                    height,
+                    num_components,
+                    max_bits,
+                    &codes,
+                    writer
+                );
             }
             let pixels = self.data;
 
@@ -1318,7 +1327,16 @@ impl<'a> JxlSimpleEncoder<'a> {
 
             {
                 let writer = &mut group_data[0][0];
-                prepare_dc_global(one_group, width, height, num_components, &codes, writer);
+                let max_bits = encoder.max_encoded_bits_per_sample();
+                prepare_dc_global(
+                    one_group,
+                    width,
+                    height,
+                    num_components,
+                    max_bits,
+                    &codes,
+                    writer
+                );
             }
             let pixels = self.data;
 
-- 
2.43.0


From d28067510f9d075278ee15e21f6f0063f548d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 119/178] fix: zil_status_free frees the status message once

---
 crates/zune-capi/src/errno.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/errno.rs b/crates/zune-capi/src/errno.rs
index 274d251..5ed21f4 100644
--- a/crates/zune-capi/src/errno.rs
+++ b/crates/zune-capi/src/errno.rs
@@ -160,8 +160,7 @@ pub extern "C" fn zil_status_message(status: *const ZStatus) -> *const c_char {
 #[no_mangle]
 pub extern "C" fn zil_status_free(status: *mut ZStatus) {
     if !status.is_null() {
-        unsafe { zil_free((*status).message.cast()) }
-        // free object
+        // free object, this also frees the message
         unsafe { status.drop_in_place() }
 
         // free memory holding it
-- 
2.43.0


From dcbf47ffe4168a1f690e5786416e714843dc2f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 120/178] fix: zil_zimg_new doesn't drop uninitialized memory

---
 crates/zune-capi/src/image.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 1cd9d41..fe1a9e5 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -156,8 +156,12 @@ pub extern "C" fn zil_zimg_write_to_output(
 /// This is the preferred way to initialize this, not via memset or malloc+sizeof
 #[no_mangle]
 pub extern "C" fn zil_zimg_new() -> *mut ZImage {
-    let ptr = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
-    unsafe { *ptr = ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown) };
+    let ptr: *mut ZImage = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
+    if ptr.is_null() {
+        return ptr;
+    }
+    // the memory is uninitialized, so it must not be dropped by an assignment
+    unsafe { ptr.write(ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown)) };
     ptr
 }
 /// Free an image
-- 
2.43.0


From 710d94a0499d292240fde8c92f8ab40d74d32baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 121/178] fix: lengths of 16 bit and float pixels are in
 elements in the C interface

---
 crates/zune-capi/src/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index fe1a9e5..c689020 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -402,7 +402,7 @@ pub extern "C" fn zil_zimg_from_u16(
     if let Some(size) = checked_mul(
         width,
         height,
-        2,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
@@ -438,7 +438,7 @@ pub extern "C" fn zil_zimg_from_f32(
     if let Some(size) = checked_mul(
         width,
         height,
-        4,
+        1,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
-- 
2.43.0


From 05d15e94025b7febf4418d3715d2af732aba64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 122/178] fix: C interface reads png headers before asking for
 the depth

---
 crates/zune-capi/src/imread.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index edd5217..ba9e187 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -380,6 +380,7 @@ where
                 // we expect the caller to have appropriately taken care of allocating enough to hold 16 bit
                 //
                 let mut decoder = PngDecoder::new(data);
+                decoder.decode_headers()?;
 
                 match decoder.depth().unwrap() {
                     BitDepth::Eight => {
-- 
2.43.0


From a292d82e291c77d56740e824e68b0852fe01a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 123/178] fix: C interface decodes qoi images with the qoi
 decoder

---
 crates/zune-capi/src/imread.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index ba9e187..3540492 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -11,6 +11,7 @@ use zune_image::codecs::jpeg::JpegDecoder;
 use zune_image::codecs::png::PngDecoder;
 use zune_image::codecs::ppm::PPMDecoder;
 use zune_image::codecs::psd::PSDDecoder;
+use zune_image::codecs::qoi::QoiDecoder;
 use zune_image::codecs::ImageFormat;
 use zune_image::errors::ImageErrors;
 
@@ -493,7 +494,7 @@ where
             }
             ImageFormat::QOI => {
                 // just write into buffer
-                let mut decoder = JpegDecoder::new(data);
+                let mut decoder = QoiDecoder::new(data);
 
                 decoder.decode_into(output)?;
             }
-- 
2.43.0


From fa38022bedf79d54c67d556a52a08aa838b85863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 124/178] fix: C interface frees its buffer when decoding fails

---
 crates/zune-capi/src/imread.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 3540492..705f51b 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -18,7 +18,7 @@ use zune_image::errors::ImageErrors;
 use crate::enums::{ZImageColorspace, ZImageDepth, ZImageFormat};
 use crate::errno::{zil_status_ok, ZStatus, ZStatusType};
 use crate::structs::ZImageMetadata;
-use crate::utils::zil_malloc;
+use crate::utils::{zil_free, zil_malloc};
 
 /// Read image contents of a file and return a pointer to the decoded bytes
 ///
@@ -88,6 +88,8 @@ pub extern "C" fn zil_imread(
                 if zil_status_ok(status) {
                     return output.cast();
                 }
+                // decoding failed, the caller will not see the buffer
+                unsafe { zil_free(output) };
             } else {
                 unsafe {
                     *status = ZStatus::new("ZilUnknownDepth image format", ZStatusType::ZilGeneric)
@@ -283,6 +285,8 @@ pub extern "C" fn zil_imdecode(
             if zil_status_ok(status) {
                 return output.cast();
             }
+            // decoding failed, the caller will not see the buffer
+            unsafe { zil_free(output) };
         }
     }
     ptr::null()
-- 
2.43.0


From 9ed7e79231b0c83e7ca34057431dec1425acf0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 125/178] fix: C interface refuses empty images and unknown
 colorspaces instead of aborting

---
 crates/zune-capi/src/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index c689020..c552d7d 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -462,4 +462,6 @@ fn checked_mul(
         .checked_mul(height)?
         .checked_mul(depth)?
         .checked_mul(colorspace_components)
+        // no pixels or an unknown colorspace, there is nothing to make an image of
+        .filter(|size| *size != 0)
 }
-- 
2.43.0


From 78168e7a6ee9793a9d4fdc4c8ae00d1fb8cf40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 126/178] fix: swizzle_channels accepts outputs larger or
 smaller than the channels

---
 crates/zune-image/src/utils.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/utils.rs b/crates/zune-image/src/utils.rs
index 47d003d..f2410c2 100644
--- a/crates/zune-image/src/utils.rs
+++ b/crates/zune-image/src/utils.rs
@@ -122,8 +122,11 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
         0 => Ok(0),
         // copy
         1 => {
-            output.copy_from_slice(channels[0].reinterpret_as()?);
-            Ok(output.len())
+            let channel = channels[0].reinterpret_as()?;
+            // the output may be larger or smaller than the channel
+            let size = min(channel.len(), output.len());
+            output[..size].copy_from_slice(&channel[..size]);
+            Ok(size)
         }
         2 => {
             for ((output, a), b) in output
@@ -177,7 +180,8 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
                 channels_ref.push(channel.reinterpret_as::<T>()?);
             }
             let mut written_pixels = 0;
-            for (pos, pixel) in output.chunks_exact_mut(n).enumerate() {
+            let pixels = channels_ref.iter().map(|x| x.len()).min().unwrap_or(0);
+            for (pos, pixel) in output.chunks_exact_mut(n).take(pixels).enumerate() {
                 for (channel, out_p) in channels_ref.iter().zip(pixel) {
                     *out_p = channel[pos];
                     written_pixels += 1;
-- 
2.43.0


From a0b6ec5a705d109a792de7dcf79f2763f52ebb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 127/178] fix: C interface reports errors whose messages
 contain nul bytes instead of aborting

---
 crates/zune-capi/src/errno.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/errno.rs b/crates/zune-capi/src/errno.rs
index 5ed21f4..febd9fb 100644
--- a/crates/zune-capi/src/errno.rs
+++ b/crates/zune-capi/src/errno.rs
@@ -60,7 +60,10 @@ impl ZStatus {
     where
         T: Into<Vec<u8>>
     {
-        let msg = CString::new(message).unwrap();
+        let mut message: Vec<u8> = message.into();
+        // messages may quote the file, a nul byte would end the string early
+        message.retain(|x| *x != 0);
+        let msg = CString::new(message).unwrap_or_default();
         let mem = unsafe { zil_malloc(msg.as_bytes_with_nul().len()) };
         // copy to memory
         unsafe {
-- 
2.43.0


From a0bb475029ab45f13cf6e2c9bf21c1eb08beef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 128/178] fix: C interface reports no size for empty images
 instead of aborting

---
 crates/zune-capi/src/image.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index c552d7d..e5f86ee 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -81,7 +81,11 @@ extern "C" fn zil_zimg_get_out_buffer_size(image: *mut ZImage, status: *mut ZSta
 
     let (w, h) = image.dimensions();
     let colorspace = image.colorspace().num_components();
-    let depth = image.depth().size_of();
+    let depth = match image.depth() {
+        // nothing was read into the image
+        BitDepth::Unknown => 0,
+        depth => depth.size_of()
+    };
 
     w * h * colorspace * depth
 }
-- 
2.43.0


From 07a4a9d7fdca632e23d3326fa1d319dc665a6c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 129/178] fix: C interface checks that an operation supports
 the image before executing it

---
 crates/zune-capi/src/improc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/improc.rs b/crates/zune-capi/src/improc.rs
index ad449b1..73b2ceb 100644
--- a/crates/zune-capi/src/improc.rs
+++ b/crates/zune-capi/src/improc.rs
@@ -39,7 +39,7 @@ where
     }
     let image = unsafe { &mut *image };
 
-    if let Err(err) = filter.execute_impl(image) {
+    if let Err(err) = filter.execute(image) {
         unsafe {
             *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError);
         }
-- 
2.43.0


From 5fd1aede90d0cafae4333a3b85d22821318a0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 130/178] fix: images of an unknown depth are refused instead
 of panicking

---
 crates/zune-image/src/traits.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index ffc7f40..995a072 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -143,6 +143,7 @@ pub trait OperationsTrait: Send + Sync {
     ///
     /// [`execute_impl`]: Self::execute_impl
     fn execute(&self, image: &mut Image) -> Result<(), ImageErrors> {
+        confirm_depth(image)?;
         // Confirm colorspace
         let colorspace = image.colorspace();
 
@@ -217,7 +218,16 @@ pub trait OperationsTrait: Send + Sync {
 
 /// Confirm that image invariants have been respected across image
 /// operations
+/// Confirm that the depth of an image is known, an image nothing was read into has none
+fn confirm_depth(image: &Image) -> Result<(), ImageErrors> {
+    if image.depth() == BitDepth::Unknown {
+        return Err(ImageErrors::GenericStr("Image depth is unknown"));
+    }
+    Ok(())
+}
+
 fn confirm_invariants(image: &Image) -> Result<(), ImageErrors> {
+    confirm_depth(image)?;
     // Ensure dimensions are correct
 
     for frame in image.frames_ref() {
-- 
2.43.0


From a53c2e6c21f600f354a170f4b423ac124860cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 131/178] fix: C interface sizes buffers by the colorspace
 images are decoded to

---
 crates/zune-capi/src/imread.rs | 36 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 705f51b..ec060df 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -3,6 +3,7 @@ use std::ptr;
 
 use zune_core::bit_depth::{BitDepth, ByteEndian};
 use zune_core::bytestream::{ZByteReaderTrait, ZCursor, ZReader};
+use zune_core::colorspace::ColorSpace;
 use zune_core::result::DecodingResult;
 use zune_image::codecs::bmp::BmpDecoder;
 use zune_image::codecs::farbfeld::FarbFeldDecoder;
@@ -20,6 +21,19 @@ use crate::errno::{zil_status_ok, ZStatus, ZStatusType};
 use crate::structs::ZImageMetadata;
 use crate::utils::{zil_free, zil_malloc};
 
+/// Width, height, depth and colorspace of the pixels which decoding `contents` gives
+///
+/// The colorspace is the one the decoder outputs, which isn't always
+/// the one the image is stored in, e.g JPEG images are stored as YCbCr
+fn output_info(contents: &[u8]) -> Option<(usize, usize, BitDepth, ColorSpace)> {
+    let (format, data) = zune_image::codecs::guess_format(ZCursor::new(contents))?;
+    let mut decoder = format.decoder(data).ok()?;
+    let metadata = decoder.read_headers().ok()??;
+    let (w, h) = metadata.dimensions();
+
+    Some((w, h, metadata.depth(), decoder.out_colorspace()))
+}
+
 /// Read image contents of a file and return a pointer to the decoded bytes
 ///
 ///
@@ -56,13 +70,9 @@ pub extern "C" fn zil_imread(
 
     match std::fs::read(file_cstr) {
         Ok(data) => {
-            if let Some(im_metadata) = zune_image::utils::decode_info(ZCursor::new(&data)) {
+            if let Some((w, h, im_depth, colorspace)) = output_info(&data) {
                 // allocate a space big enough
-                let (w, h) = im_metadata.dimensions();
-                let colorspace = im_metadata.colorspace().num_components();
-                let im_depth = im_metadata.depth().size_of();
-
-                let new_size = w * h * colorspace * im_depth;
+                let new_size = w * h * colorspace.num_components() * im_depth.size_of();
 
                 let output = unsafe { zil_malloc(new_size) };
                 if output.is_null() {
@@ -247,17 +257,14 @@ pub extern "C" fn zil_imdecode(
     }
     let contents = unsafe { std::slice::from_raw_parts(input, input_size) };
 
-    match zune_image::utils::decode_info(ZCursor::new(contents)) {
+    match output_info(contents) {
         None => {
             let msg = "Could not decode headers".to_string();
             // safety: We checked above if status is null
             unsafe { *status = ZStatus::new(msg, ZStatusType::ZilDecodeErrors) };
             return ptr::null();
         }
-        Some(metadata) => {
-            let (w, h) = metadata.dimensions();
-            let im_depth = metadata.depth();
-            let colorspace = metadata.colorspace();
+        Some((w, h, im_depth, colorspace)) => {
             let size = w * h * im_depth.size_of() * colorspace.num_components();
 
             let output = unsafe { zil_malloc(size) };
@@ -319,16 +326,13 @@ pub extern "C" fn zil_imdecode_into(
     // Safety the caller is supposed to uphold this
     let buf = unsafe { std::slice::from_raw_parts_mut(output, output_size) };
 
-    match zune_image::utils::decode_info(ZCursor::new(contents)) {
+    match output_info(contents) {
         None => {
             let msg = "Could not decode headers".to_string();
             // safety: We checked above if status is null
             unsafe { *status = ZStatus::new(msg, ZStatusType::ZilDecodeErrors) };
         }
-        Some(metadata) => {
-            let (w, h) = metadata.dimensions();
-            let im_depth = metadata.depth();
-            let colorspace = metadata.colorspace();
+        Some((w, h, im_depth, colorspace)) => {
             let size = w * h * im_depth.size_of() * colorspace.num_components();
 
             // the buffer has to be that big
-- 
2.43.0


From f1a59a2a328d59764897cec8b2b9e09e4655b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 132/178] fix: farbfeld images without pixels are an error

---
 crates/zune-farbfeld/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index ff0aa18..106519c 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -74,6 +74,10 @@ where
         trace!("Image width: {}", self.width);
         trace!("Image height: {}", self.height);
 
+        if self.width == 0 || self.height == 0 {
+            return Err(FarbFeldErrors::Generic("Image has a zero width or height"));
+        }
+
         if self.height > self.options.max_height() {
             return Err(FarbFeldErrors::Generic("Image Height is greater than max height. Bump up max_height to support such images"));
         }
-- 
2.43.0


From ae317882442b55a41e30ae3082df73c6f6a92c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 133/178] fix: suggested palettes do not affect decoding of png
 images

---
 crates/zune-png/src/headers/readers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 6236a0c..9fa284e 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -151,7 +151,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         // skip crc chunk
         self.stream.skip(4)?;
-        self.seen_ptle = true;
+        // other color types may carry a suggested palette, it doesn't affect decoding
+        self.seen_ptle = self.png_info.color == PngColor::Palette;
         Ok(())
     }
 
-- 
2.43.0


From e0fbc8388dfb582dda47e4884d2b0e4716b16e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 134/178] fix: jpeg xl images without a complete frame are an
 error

---
 crates/zune-image/src/codecs/jpeg_xl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-image/src/codecs/jpeg_xl.rs b/crates/zune-image/src/codecs/jpeg_xl.rs
index 7d5d1f4..3a6c205 100644
--- a/crates/zune-image/src/codecs/jpeg_xl.rs
+++ b/crates/zune-image/src/codecs/jpeg_xl.rs
@@ -171,6 +171,12 @@ impl DecoderTrait for JxlDecoder {
             return Err(ImageErrors::ImageDecodeErrors(msg));
         }
 
+        if self.inner.num_loaded_frames() == 0 {
+            return Err(ImageErrors::ImageDecodeErrors(
+                "No complete frame in the image".to_string()
+            ));
+        }
+
         let taken = if self.options.jxl_decode_animated() {
             self.inner.num_loaded_frames()
         } else {
-- 
2.43.0


From 85c13dbf3dfa251a9428c797d79b1e5721d8b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 135/178] fix: hdr images without rows are an error

---
 crates/zune-hdr/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 34094f8..b33f617 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -305,8 +305,8 @@ where
                 buffer.len()
             ));
         }
-        if self.width == 0 {
-           return Err(HdrDecodeErrors::Generic("Width cannot be 0"));
+        if self.width == 0 || self.height == 0 {
+            return Err(HdrDecodeErrors::Generic("Width and height cannot be 0"));
         }
 
         // single width scanline
-- 
2.43.0


From b2ef403a7cb570a906fdbcdf05434741371c0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 136/178] fix: png images missing their palette are an error

---
 crates/zune-png/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 346b7b2..5f0b993 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -940,6 +940,10 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let use_sse4 = self.options.use_sse41();
         let use_sse2 = self.options.use_sse2();
 
+        if info.color == PngColor::Palette && !self.seen_ptle {
+            return Err(PngDecodeErrors::EmptyPalette);
+        }
+
         let bytes = if info.depth == 16 { 2 } else { 1 };
 
         let out_colorspace = self.colorspace().unwrap();
-- 
2.43.0


From 7eec1238509c44cd56b548dd24ba7c39adadc6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 137/178] fix: png palettes with more than 256 entries are an
 error

---
 crates/zune-png/src/headers/readers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 9fa284e..988794b 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -134,7 +134,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_plte(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        if chunk.length % 3 != 0 {
+        if chunk.length % 3 != 0 || chunk.length > 256 * 3 {
             return Err(PngDecodeErrors::GenericStatic(
                 "Invalid pLTE length, corrupt PNG"
             ));
-- 
2.43.0


From 5b3dd5543556027b25488d840148e75c6bc7e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 138/178] fix: png acTL chunks of a wrong length are skipped

---
 crates/zune-png/src/headers/readers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 988794b..a1b36a6 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -242,6 +242,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         if chunk.length != 8 {
             warn!("Invalid chunk length for ACTL, skipping");
             self.stream.skip(chunk.length + 4)?;
+            return Ok(());
         }
         // extract num_frames
         let num_frames = self.stream.get_u32_be();
-- 
2.43.0


From 36e63b96eb364198ffc86bfc39c74581112f26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 139/178] fix: png gAMA chunks of a wrong length are skipped

---
 crates/zune-png/src/headers/readers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index a1b36a6..f4ac4ce 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -218,9 +218,16 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         Ok(())
     }
     pub(crate) fn parse_gama(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        if self.options.strict_mode() && chunk.length != 4 {
+        if chunk.length != 4 {
             let error = format!("Gama chunk length is not 4 but {}", chunk.length);
-            return Err(PngDecodeErrors::Generic(error));
+
+            if self.options.strict_mode() {
+                return Err(PngDecodeErrors::Generic(error));
+            }
+            warn!("{}", error);
+            // skip chunk + crc
+            self.stream.skip(chunk.length + 4)?;
+            return Ok(());
         }
 
         let mut gama = (self.stream.get_u32_be() as f64 / 100000.0) as f32;
-- 
2.43.0


From 8deba5744112cc6ee8fe230dc6b2673288276cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 140/178] fix: png tRNS chunks of a wrong length are skipped

---
 crates/zune-png/src/headers/readers.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index f4ac4ce..c2c74e8 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -181,6 +181,21 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_trns(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
+        let expected_length = match self.png_info.color {
+            PngColor::Luma => 2,
+            PngColor::RGB => 6,
+            _ => chunk.length
+        };
+        if chunk.length != expected_length {
+            if self.options.strict_mode() {
+                return Err(PngDecodeErrors::GenericStatic("Invalid tRNS chunk length"));
+            }
+            warn!("Invalid tRNS chunk length {:?}", chunk.length);
+            // skip chunk + crc
+            self.stream.skip(chunk.length + 4)?;
+            return Ok(());
+        }
+
         match self.png_info.color {
             PngColor::Luma => {
                 let grey_sample = self.stream.get_u16_be();
-- 
2.43.0


From 2ea01fdd172ce568a562eb64c0ba67d8bc0c592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 141/178] fix: png images of less than 8 bits are either
 grayscale or indexed

---
 crates/zune-png/src/headers/readers.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index c2c74e8..969340b 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -64,7 +64,15 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.png_info.component = self.png_info.color.num_components();
         // verify colors plus bit depths
         match self.png_info.depth {
-            1 | 2 | 4 | 8 => { /*silent pass through since all color types support it */ }
+            8 => { /*silent pass through since all color types support it */ }
+            1 | 2 | 4 => {
+                if !matches!(self.png_info.color, PngColor::Luma | PngColor::Palette) {
+                    return Err(PngDecodeErrors::Generic(format!(
+                        "Bit depth {} is only allowed in grayscale and indexed images",
+                        self.png_info.depth
+                    )));
+                }
+            }
             16 => {
                 if self.png_info.color == PngColor::Palette {
                     return Err(PngDecodeErrors::GenericStatic(
-- 
2.43.0


From 9ff25d616341a49daf418596e37daab171811b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 142/178] fix: png iCCP and zTXt chunks without a compression
 method are skipped

---
 crates/zune-png/src/headers/readers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 969340b..3a657f7 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -354,7 +354,11 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
         let keyword_bytes = self.stream.peek_at(0, length)?;
-        let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
+        // the keyword is followed by a compression method
+        let keyword_position = keyword_bytes
+            .iter()
+            .position(|x| *x == 0)
+            .filter(|pos| pos + 2 <= chunk.length);
 
         if let Some(pos) = keyword_position {
             // skip name plus null byte
@@ -458,7 +462,11 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 79);
         let keyword_bytes = self.stream.peek_at(0, length)?;
-        let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
+        // the keyword is followed by a compression method
+        let keyword_position = keyword_bytes
+            .iter()
+            .position(|x| *x == 0)
+            .filter(|pos| pos + 2 <= chunk.length);
 
         if let Some(pos) = keyword_position {
             let keyword = keyword_bytes[..pos].to_vec();
-- 
2.43.0


From 8c2875b445c2427c1ce2997aa6533a3d3d267189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 143/178] fix: the text of png iTXt chunks starts after the
 language and the translated keyword

---
 crates/zune-png/src/headers/readers.rs | 43 +++++++++++++-------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 3a657f7..8eacc34 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -431,30 +431,31 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         if let Some(pos) = keyword_position {
             let keyword = keyword_bytes[..pos].to_vec();
-            // skip name plus null byte
-            let bytes_to_skip = pos + 1 // null separator
-                + 1  // compression flag
-                + 1  // compression method
-                + 1  // null separator
-                + 1; // null separator
-
-            self.stream.skip(bytes_to_skip)?;
-            let remainder = chunk.length.saturating_sub(bytes_to_skip);
-            let raw_data = self.stream.peek_at(0, remainder)?.to_vec();
-
-            let itxt_chunk = ItxtChunk {
-                keyword,
-                text: raw_data
-            };
-            self.png_info.itxt_chunk.push(itxt_chunk);
-            // skip bytes we read
-            self.stream.skip(remainder)?;
+
+            let data = self.stream.peek_at(0, chunk.length)?;
+            // the keyword, its null separator, the compression flag and the compression method
+            // are followed by a language tag and a translated keyword, both null terminated
+            let text = data.get(pos + 3..).and_then(|rest| {
+                let mut fields = rest.splitn(3, |x| *x == 0);
+                fields.next()?;
+                fields.next()?;
+                fields.next()
+            });
+
+            if let Some(text) = text {
+                let itxt_chunk = ItxtChunk {
+                    keyword,
+                    text: text.to_vec()
+                };
+                self.png_info.itxt_chunk.push(itxt_chunk);
+            } else {
+                warn!("Possibly corrupt iTXT chunk");
+            }
         } else {
             warn!("Possibly corrupt iTXT chunk");
-            self.stream.skip(chunk.length)?;
         }
-        // skip crc
-        self.stream.skip(4)?;
+        // skip chunk + crc
+        self.stream.skip(chunk.length + 4)?;
         Ok(())
     }
 
-- 
2.43.0


From 2b2def6d7f00ed55ebe89cabdc4bf511723aebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 144/178] fix: frames of animated png images are disposed of
 after they are shown

---
 crates/zune-image/src/codecs/png.rs | 34 +++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index edafb02..7ee0fd8 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -54,13 +54,16 @@ where
                 self.decode_headers()?;
 
                 let mut frame = self.frame_info().unwrap();
-                if frame.dispose_op == DisposeOp::Previous {
-                    // we don't clear our buffer, so output always contains the previous frame
-                    //
-                    // this means that there is no need to store the previous frame and copy it
-                    frame.dispose_op = DisposeOp::None;
-                }
+                // frames are disposed of after they have been shown, so it's done below and not
+                // when rendering
+                let dispose_op = frame.dispose_op;
+                frame.dispose_op = DisposeOp::None;
+
                 let pix = self.decode()?;
+                let previous = match dispose_op {
+                    DisposeOp::Previous => output.clone(),
+                    _ => vec![]
+                };
                 match pix {
                     DecodingResult::U8(pix) => {
                         post_process_image(
@@ -72,10 +75,27 @@ where
                             &mut output,
                             None,
                         )?;
-                        let duration = f64::from(frame.delay_num) / f64::from(frame.delay_denom);
                         // then build a frame from that
                         let im_frame = Frame::from_u8(&output, colorspace, usize::from(frame.delay_num),usize::from(frame.delay_denom));
                         output_frames.push(im_frame);
+
+                        match dispose_op {
+                            DisposeOp::None => {}
+                            DisposeOp::Background => {
+                                let nc = colorspace.num_components();
+                                let start = frame.x_offset * nc;
+                                let end = (frame.x_offset + frame.width) * nc;
+
+                                for row in output
+                                    .chunks_exact_mut(info.width * nc)
+                                    .skip(frame.y_offset)
+                                    .take(frame.height)
+                                {
+                                    row[start..end].fill(0);
+                                }
+                            }
+                            DisposeOp::Previous => output.copy_from_slice(&previous)
+                        }
                     }
                     _ => return Err(ImageDecodeErrors("The current image is an  Animated PNG but has a depth of 16, such an image isn't supported".to_string()))
                 }
-- 
2.43.0


From 63c61ceb44811df40339832438d3e6ee78e4ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 145/178] fix: the default image of animated png images is not
 a frame unless it is part of the animation

---
 crates/zune-image/src/codecs/png.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index 7ee0fd8..d877e6c 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -50,6 +50,7 @@ where
             // set this up outside of the loop.
             let mut output = vec![0; info.width * info.height * colorspace.num_components()];
             let mut output_frames = Vec::new();
+            let mut last_is_part_of_seq = true;
             while self.more_frames() {
                 self.decode_headers()?;
 
@@ -60,6 +61,14 @@ where
                 frame.dispose_op = DisposeOp::None;
 
                 let pix = self.decode()?;
+
+                if frame.is_part_of_seq && !last_is_part_of_seq {
+                    // the default image is only shown when there is no animation
+                    output_frames.clear();
+                    output.fill(0);
+                }
+                last_is_part_of_seq = frame.is_part_of_seq;
+
                 let previous = match dispose_op {
                     DisposeOp::Previous => output.clone(),
                     _ => vec![]
-- 
2.43.0


From 0d1339a4014cabaf10b1ba0e51eb92638f7b8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 146/178] fix: animated png images without alpha can blend
 frames over others

---
 crates/zune-image/src/codecs/png.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index d877e6c..0539300 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -60,6 +60,11 @@ where
                 let dispose_op = frame.dispose_op;
                 frame.dispose_op = DisposeOp::None;
 
+                if !colorspace.has_alpha() {
+                    // all pixels are opaque, so they replace what they are blended over
+                    frame.blend_op = BlendOp::Source;
+                }
+
                 let pix = self.decode()?;
 
                 if frame.is_part_of_seq && !last_is_part_of_seq {
-- 
2.43.0


From 6924209361879ca82f9aa364296ffd2c9fd86b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:31 +0000
Subject: [PATCH 147/178] fix: jpeg icc profiles may consist of 255 segments

---
 crates/zune-jpeg/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index 892628b..ad38aab 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -625,7 +625,7 @@ where
         }
         let num_markers = self.icc_data.len();
 
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check validity
-- 
2.43.0


From 4bcacfe1d4b5685a3c6d3c9689a0b8bb389c5f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:28 +0000
Subject: [PATCH 148/178] fix: short jpeg APP0 segments do not take a byte of
 the next segment

---
 crates/zune-jpeg/src/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index ad38aab..6ad162c 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -526,7 +526,8 @@ where
                     )));
                 }
                 // skip for now
-                if length > 5 {
+                // length includes its own two bytes
+                if length >= 7 {
                     let mut buffer = [0u8; 5];
                     self.stream.read_exact_bytes(&mut buffer)?;
                     if &buffer == b"AVI1\0" {
-- 
2.43.0


From d0073a67823a0a5594245402369d23a9f3658477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 149/178] fix: jpeg xl images output in the xyb colorspace have
 no icc profile instead of panicking

---
 crates/zune-image/src/codecs/jpeg_xl.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/codecs/jpeg_xl.rs b/crates/zune-image/src/codecs/jpeg_xl.rs
index 3a6c205..d191506 100644
--- a/crates/zune-image/src/codecs/jpeg_xl.rs
+++ b/crates/zune-image/src/codecs/jpeg_xl.rs
@@ -22,6 +22,7 @@ use std::thread::sleep;
 use std::time::Duration;
 
 pub use jxl_oxide;
+use jxl_oxide::color::{ColourEncoding, ColourSpace};
 use jxl_oxide::{JxlImage, PixelFormat, RenderResult};
 use zune_core::bit_depth::{BitDepth, BitType};
 use zune_core::bytestream::ZByteWriterTrait;
@@ -244,14 +245,18 @@ impl DecoderTrait for JxlDecoder {
 
         let (width, height) = self.dimensions().unwrap();
 
-        let icc = self.inner.rendered_icc();
+        // jxl_oxide can't create profiles for images that are output in the xyb colorspace
+        let icc = match &self.inner.image_header().metadata.colour_encoding {
+            ColourEncoding::Enum(x) if x.colour_space == ColourSpace::Xyb => None,
+            _ => Some(self.inner.rendered_icc())
+        };
         let metadata = ImageMetadata {
             format: Some(ImageFormat::JPEG_XL),
             colorspace: color,
             depth: BitDepth::Float32,
             width: width,
             height: height,
-            icc_chunk: Some(icc),
+            icc_chunk: icc,
             ..Default::default()
         };
 
-- 
2.43.0


From 02887bb9c17e359d2cdd39df0d9e2b257cf62c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 150/178] fix: command line accepts --crop and the documented
 w:h:x:y and threshold:mode forms

---
 crates/zune-bin/src/cmd_args.rs               | 5 +++++
 crates/zune-bin/src/cmd_parsers/operations.rs | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/crates/zune-bin/src/cmd_args.rs b/crates/zune-bin/src/cmd_args.rs
index 4e61f42..6bb87e1 100644
--- a/crates/zune-bin/src/cmd_args.rs
+++ b/crates/zune-bin/src/cmd_args.rs
@@ -278,12 +278,17 @@ fn add_operations() -> (Vec<Arg>, ArgGroup) {
             .long("crop")
             .help_heading(HELP_HEADING)
             .value_names(["width", "height", "x", "y"])
+            .num_args(1..=4)
+            .value_delimiter(':')
+            .value_parser(value_parser!(usize))
             .help("Crop an image ")
             .long_help(CROP_HELP)
             .group(GROUP),
         Arg::new("threshold")
             .long("threshold")
             .value_names(["threshold", "mode"])
+            .num_args(1..=2)
+            .value_delimiter(':')
             .help_heading(HELP_HEADING)
             .help("Replace pixels in an image depending on intensity of the pixel.")
             .long_help(THRESHOLD_HELP)
diff --git a/crates/zune-bin/src/cmd_parsers/operations.rs b/crates/zune-bin/src/cmd_parsers/operations.rs
index 893bf1a..ebe8065 100644
--- a/crates/zune-bin/src/cmd_parsers/operations.rs
+++ b/crates/zune-bin/src/cmd_parsers/operations.rs
@@ -92,6 +92,9 @@ pub fn parse_options(
             .unwrap()
             .collect::<Vec<&usize>>();
 
+        if crop_args.len() != 4 {
+            return Err(format!("Invalid crop length: {}", crop_args.len()));
+        }
         let crop = Crop::new(*crop_args[0], *crop_args[1], *crop_args[2], *crop_args[3]);
 
         debug!(
@@ -103,6 +106,10 @@ pub fn parse_options(
     } else if argument == "threshold" {
         let val: Vec<&String> = args.get_many::<String>(argument).unwrap().collect();
 
+        if val.len() != 2 {
+            return Err(format!("Invalid threshold length: {}", val.len()));
+        }
+
         // parse first one as radius
         let radius = str::parse::<f32>(val[0]).map_err(|x| x.to_string())?;
         let thresh_mode = ThresholdMethod::from_string_result(val[1])?;
-- 
2.43.0


From 1d5d2b2f595b80f93b5046f512c84b77c2858250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 151/178] fix: --stretch-contrast is no longer ignored by the
 command line

---
 crates/zune-bin/src/cmd_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_args.rs b/crates/zune-bin/src/cmd_args.rs
index 6bb87e1..42c3f90 100644
--- a/crates/zune-bin/src/cmd_args.rs
+++ b/crates/zune-bin/src/cmd_args.rs
@@ -299,7 +299,7 @@ fn add_operations() -> (Vec<Arg>, ArgGroup) {
             .help_heading(HELP_HEADING)
             .value_parser(value_parser!(f32))
             .group(GROUP),
-        Arg::new("stretch_contrast")
+        Arg::new("stretch-contrast")
             .long("stretch-contrast")
             .value_parser(value_parser!(f32))
             .value_names(["lower", "upper"])
-- 
2.43.0


From 5459086515915444aa11835aed496ec97cfe1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 152/178] fix: command line strips metadata and encodes
 progressively only when asked to

---
 crates/zune-bin/src/cmd_parsers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers.rs b/crates/zune-bin/src/cmd_parsers.rs
index c31635c..233f3a3 100644
--- a/crates/zune-bin/src/cmd_parsers.rs
+++ b/crates/zune-bin/src/cmd_parsers.rs
@@ -38,8 +38,8 @@ pub fn encoder_options(options: &ArgMatches) -> EncoderOptions {
     let quality = *options.get_one::<u8>("quality").unwrap();
     let encode_threads = *options.get_one::<u8>("encode-threads").unwrap();
     let effort = *options.get_one::<u8>("effort").unwrap();
-    let progressive = options.contains_id("progressive");
-    let strip_metadata = options.contains_id("strip");
+    let progressive = options.get_flag("progressive");
+    let strip_metadata = options.get_flag("strip");
 
     EncoderOptions::default()
         .set_quality(quality)
-- 
2.43.0


From 8275dff67311d3a39fc471870057680428c0ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 153/178] fix: a malformed --resize value is an error instead
 of being ignored

---
 crates/zune-bin/src/cmd_parsers/operations.rs | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers/operations.rs b/crates/zune-bin/src/cmd_parsers/operations.rs
index ebe8065..5849272 100644
--- a/crates/zune-bin/src/cmd_parsers/operations.rs
+++ b/crates/zune-bin/src/cmd_parsers/operations.rs
@@ -153,19 +153,18 @@ pub fn parse_options(
             .unwrap_or(ResizeMethod::Bicubic);
 
         // split on width x height
-        if values.contains("x") {
-            let split: Vec<&str> = values.split('x').collect();
-
-            let width = str::parse::<usize>(split[0]).map_err(|x| x.to_string())?;
-            let height = str::parse::<usize>(split[1]).map_err(|x| x.to_string())?;
-
-            let func = Resize::new(width, height, resizing_method);
-            debug!(
-                "Added resize operation with width:{}, height:{},using resizing method=>{:?}",
-                width, height, resizing_method,
-            );
-            workflow.chain_operations(Box::new(func));
-        }
+        let (width, height) = values.split_once('x').ok_or_else(|| {
+            format!("Invalid resize value {values:?}, expected {{width}}x{{height}}")
+        })?;
+        let width = str::parse::<usize>(width).map_err(|x| x.to_string())?;
+        let height = str::parse::<usize>(height).map_err(|x| x.to_string())?;
+
+        let func = Resize::new(width, height, resizing_method);
+        debug!(
+            "Added resize operation with width:{}, height:{},using resizing method=>{:?}",
+            width, height, resizing_method,
+        );
+        workflow.chain_operations(Box::new(func));
     } else if argument == "depth" {
         let value = *args.get_one::<u8>(argument).unwrap();
         let depth = match value {
-- 
2.43.0


From 007fb57fd358117b8a3a1073225cad594597028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 154/178] fix: --color-transform bt-2020 converts to bt-2020

---
 crates/zune-bin/src/cmd_parsers/filters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_parsers/filters.rs b/crates/zune-bin/src/cmd_parsers/filters.rs
index 610ff77..62b4f4c 100644
--- a/crates/zune-bin/src/cmd_parsers/filters.rs
+++ b/crates/zune-bin/src/cmd_parsers/filters.rs
@@ -87,7 +87,7 @@ pub fn parse_options(
             "rgb" => ColorProfiles::sRGB,
             "adobe-rgb" => ColorProfiles::AdobeRgb,
             "display-p3" => ColorProfiles::DisplayP3,
-            "bt-2020" => ColorProfiles::DisplayP3,
+            "bt-2020" => ColorProfiles::Bt2020,
             _ => Err(format!("Unknown color profile: {}", value))?
         };
         trace!("Added color transform operation");
-- 
2.43.0


From cb174e892c45459791ff7d22e12d63e9764e4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 155/178] fix: operations are applied to images read from
 standard input

---
 crates/zune-bin/src/workflow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index f7c1504..61430ee 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -59,6 +59,8 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
     for in_file in args.get_raw("in").unwrap() {
         let mut workflow: CmdPipeline = CmdPipeline::new();
 
+        add_operations(args, &mut workflow.inner)?;
+
         if in_file == "-" {
             // handle stdin
             let mut data = Vec::new();
@@ -77,8 +79,6 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
         } else {
             File::open(in_file)?.read(&mut buf)?;
 
-            add_operations(args, &mut workflow.inner)?;
-
             if let Some((format, _)) = ImageFormat::guess_format(std::io::Cursor::new(&buf)) {
                 if format.has_decoder() {
                     workflow.inner.chain_decoder(Box::new(ZuneFile::new(
-- 
2.43.0


From ec68772c8b871b46d25fada295d3542410f0bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 156/178] fix: each output file is written in its own format
 when several are given

---
 crates/zune-bin/src/workflow.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 61430ee..1fd8fbb 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -140,7 +140,10 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                     } else {
                         //write to file
                         if let Some(ext) = Path::new(out_file).extension() {
-                            for format in &workflow.formats {
+                            // each output is written in the format of its own extension
+                            let format = ext.to_str().and_then(ImageFormat::encoder_for_extension);
+
+                            if let Some(format) = format {
                                 if format.has_encoder() {
                                     for image in workflow.inner.images() {
                                         let fd = OpenOptions::new()
-- 
2.43.0


From 1141eaf670c8767b627d325d63d8137e5bf6dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 157/178] fix: the command line fails when an output has no
 known format or cannot be opened

---
 crates/zune-bin/src/workflow.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 1fd8fbb..5d25291 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -100,16 +100,22 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                 for out_file in args.get_raw("out").unwrap() {
                     if let Some(ext) = Path::new(out_file).extension() {
                         if let Some(encode_type) =
-                            ImageFormat::encoder_for_extension(ext.to_str().unwrap())
+                            ImageFormat::encoder_for_extension(ext.to_string_lossy())
                         {
                             debug!("Treating {:?} as a {:?} format", out_file, encode_type);
                             workflow.formats.push(encode_type);
                         } else {
-                            error!("Unknown or unsupported format {:?}", out_file)
+                            return Err(ImageErrors::GenericString(format!(
+                                "Unknown or unsupported format {:?}",
+                                out_file
+                            )));
                         }
                     } else {
                         if out_file != "-" {
-                            error!("Could not determine extension from {:?}", out_file);
+                            return Err(ImageErrors::GenericString(format!(
+                                "Could not determine extension from {:?}",
+                                out_file
+                            )));
                         }
                     }
                 }
@@ -135,7 +141,7 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                                 format.encode(image, options, &mut out_file)?;
                             }
                         } else {
-                            error!("You must specify the image format to be used while using output as '-` via the --output-format flag ");
+                            return Err(ImageErrors::GenericStr("You must specify the image format to be used while using output as '-` via the --output-format flag "));
                         }
                     } else {
                         //write to file
@@ -168,8 +174,9 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                                             Err(e) => {
                                                 error!(
                                                     "Cannot encode to file, error opening {:?}",
-                                                    e
+                                                    out_file
                                                 );
+                                                return Err(e.into());
                                             }
                                         }
                                     }
-- 
2.43.0


From c1f917d665e003397496dc9f1420401ad53a4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 158/178] fix: the command line reports errors met when the
 last bytes of an output are written

---
 crates/zune-bin/src/workflow.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 5d25291..71564f3 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -7,7 +7,7 @@
  */
 
 use std::fs::{File, OpenOptions};
-use std::io::{BufWriter, Read};
+use std::io::{BufWriter, Read, Write};
 use std::path::Path;
 use std::string::String;
 use std::time::Instant;
@@ -140,6 +140,7 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                             for image in workflow.inner.images() {
                                 format.encode(image, options, &mut out_file)?;
                             }
+                            out_file.flush()?;
                         } else {
                             return Err(ImageErrors::GenericStr("You must specify the image format to be used while using output as '-` via the --output-format flag "));
                         }
@@ -163,6 +164,7 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                                                 let start = Instant::now();
                                                 let bytes =
                                                     format.encode(image, options, &mut file_c)?;
+                                                file_c.flush()?;
                                                 let end = Instant::now();
                                                 trace!(
                                                     "Took {:?} to encode {} bytes to {:?}",
-- 
2.43.0


From 7fcdc6cc79283e0e67fff079465596a6819cce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 159/178] fix: command line messages go to standard error, not
 into an image written to standard output

---
 .../src/cmd_parsers/global_options.rs         | 32 +++++++++++++++++--
 crates/zune-bin/src/lib.rs                    |  4 +--
 crates/zune-image/src/pipelines.rs            |  4 +--
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers/global_options.rs b/crates/zune-bin/src/cmd_parsers/global_options.rs
index 8992e45..a8f5c3d 100644
--- a/crates/zune-bin/src/cmd_parsers/global_options.rs
+++ b/crates/zune-bin/src/cmd_parsers/global_options.rs
@@ -8,8 +8,10 @@
 
 use clap::parser::ValueSource;
 use clap::parser::ValueSource::CommandLine;
+use std::io::Write;
+
 use clap::ArgMatches;
-use log::{info, Level};
+use log::{info, Level, Log, Metadata, Record};
 
 use crate::cmd_args::MmapOptions;
 
@@ -63,6 +65,31 @@ pub fn parse_options(options: &ArgMatches) -> CmdOptions {
     cmd_options
 }
 
+/// A logger that writes to standard error, since standard output
+/// may be carrying the output image
+struct StderrLogger;
+
+impl Log for StderrLogger {
+    fn enabled(&self, metadata: &Metadata) -> bool {
+        metadata.level() <= log::max_level()
+    }
+
+    fn log(&self, record: &Record) {
+        if self.enabled(record.metadata()) {
+            // nothing can be done about errors here
+            let _ = writeln!(
+                std::io::stderr(),
+                "{:<5} [{}] {}",
+                record.level(),
+                record.target(),
+                record.args()
+            );
+        }
+    }
+
+    fn flush(&self) {}
+}
+
 /// Set up logging options
 pub fn setup_logger(options: &ArgMatches) {
     if !options.get_one::<bool>("no-log").unwrap() {
@@ -80,7 +107,8 @@ pub fn setup_logger(options: &ArgMatches) {
             log_level = Level::Warn;
         }
 
-        simple_logger::init_with_level(log_level).unwrap();
+        log::set_logger(&StderrLogger).unwrap();
+        log::set_max_level(log_level.to_level_filter());
 
         info!("Initialized logger");
         info!("Log level :{}", log_level);
diff --git a/crates/zune-bin/src/lib.rs b/crates/zune-bin/src/lib.rs
index a970243..bd4eb2c 100644
--- a/crates/zune-bin/src/lib.rs
+++ b/crates/zune-bin/src/lib.rs
@@ -32,13 +32,13 @@ pub fn main() {
     let result = create_and_exec_workflow_from_cmd(&options, &parsed_opts);
 
     if result.is_err() {
-        println!();
+        eprintln!();
         error!(
             " Could not complete workflow, reason {:?}",
             result.err().unwrap()
         );
 
-        println!();
+        eprintln!();
         exit(-1);
     }
 }
diff --git a/crates/zune-image/src/pipelines.rs b/crates/zune-image/src/pipelines.rs
index f1eb95b..6efe9f2 100644
--- a/crates/zune-image/src/pipelines.rs
+++ b/crates/zune-image/src/pipelines.rs
@@ -171,7 +171,7 @@ impl Pipeline {
                     }
 
                     if log_enabled!(Trace) {
-                        println!();
+                        eprintln!();
                         trace!("Current state: {:?}\n", state);
                     }
 
@@ -193,7 +193,7 @@ impl Pipeline {
                     }
 
                     if log_enabled!(Trace) && !self.operations.is_empty() {
-                        println!();
+                        eprintln!();
                         trace!("Current state: {:?}\n", state);
                     }
 
-- 
2.43.0


From 88a9b00b1e5f327250e4aed6569c80a78de0bcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 160/178] fix: webp errors are not printed to standard output

---
 crates/zune-image/src/codecs/webp.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zune-image/src/codecs/webp.rs b/crates/zune-image/src/codecs/webp.rs
index 6046e11..7312973 100644
--- a/crates/zune-image/src/codecs/webp.rs
+++ b/crates/zune-image/src/codecs/webp.rs
@@ -17,10 +17,8 @@ pub struct ZuneWebpDecoder<T: BufRead + Seek> {
 }
 impl<T: BufRead + Seek> ZuneWebpDecoder<T> {
     pub fn new(r: T) -> Result<Self, ImageErrors> {
-        let decoder = image_webp::WebPDecoder::new(r).map_err(|e| {
-            println!("{:?}", e);
-            ImageErrors::ImageDecodeErrors(e.to_string())
-        })?;
+        let decoder = image_webp::WebPDecoder::new(r)
+            .map_err(|e| ImageErrors::ImageDecodeErrors(e.to_string()))?;
         return Ok(ZuneWebpDecoder { inner: decoder });
     }
 }
-- 
2.43.0


From e38ffb49c3706144963b391268cbd2b7d4cdd3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 161/178] fix: --probe fails on a file which is missing or not
 a readable image

---
 crates/zune-bin/src/probe_files.rs | 47 +++++++++++++++---------------
 crates/zune-bin/src/workflow.rs    |  3 +-
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/crates/zune-bin/src/probe_files.rs b/crates/zune-bin/src/probe_files.rs
index 5f3f6a9..0d95e19 100644
--- a/crates/zune-bin/src/probe_files.rs
+++ b/crates/zune-bin/src/probe_files.rs
@@ -8,43 +8,44 @@
 
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
 
 use clap::parser::ValueSource::CommandLine;
 use clap::ArgMatches;
 use zune_core::options::DecoderOptions;
+use zune_image::codecs::ImageFormat;
+use zune_image::errors::ImageErrors;
 
 use crate::serde::Metadata;
 
 /// Probe input files, extract metadata, and print to standard output.
-pub fn probe_input_files(args: &ArgMatches) {
+pub fn probe_input_files(args: &ArgMatches) -> Result<(), ImageErrors> {
     if let Some(view) = args.value_source("probe") {
         if view == CommandLine {
             for in_file in args.get_raw("in").unwrap() {
-                if PathBuf::from(in_file).exists() {
-                    let file = BufReader::new(File::open(in_file).unwrap());
-
-                    if let Some((format, contents)) =
-                        zune_image::codecs::ImageFormat::guess_format(file)
-                    {
-                        let size = contents.get_ref().metadata().unwrap().len();
-                        // set to high to remove restrictions.
-                        // We'll just be reading headers so it doesn't matter
-                        let options = DecoderOptions::new_cmd()
-                            .set_max_height(usize::MAX)
-                            .set_max_width(usize::MAX);
-
-                        let mut decoder = format.decoder_with_options(contents, options).unwrap();
-
-                        if let Ok(Some(metadata)) = decoder.read_headers() {
-                            let real_metadata =
-                                Metadata::new(in_file.to_os_string(), size, &metadata);
-
-                            println!("{}", serde_json::to_string_pretty(&real_metadata).unwrap());
-                        }
+                let file = BufReader::new(File::open(in_file)?);
+
+                if let Some((format, contents)) =
+                    ImageFormat::guess_format(file)
+                {
+                    let size = contents.get_ref().metadata()?.len();
+                    // set to high to remove restrictions.
+                    // We'll just be reading headers so it doesn't matter
+                    let options = DecoderOptions::new_cmd()
+                        .set_max_height(usize::MAX)
+                        .set_max_width(usize::MAX);
+
+                    let mut decoder = format.decoder_with_options(contents, options)?;
+
+                    if let Some(metadata) = decoder.read_headers()? {
+                        let real_metadata = Metadata::new(in_file.to_os_string(), size, &metadata);
+
+                        println!("{}", serde_json::to_string_pretty(&real_metadata).unwrap());
                     }
+                } else {
+                    return Err(ImageErrors::ImageDecoderNotIncluded(ImageFormat::Unknown));
                 }
             }
         }
     }
+    Ok(())
 }
diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 71564f3..f51dc80 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -46,8 +46,7 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
 ) -> Result<(), ImageErrors> {
     if let Some(view) = args.value_source("probe") {
         if view == CommandLine {
-            probe_input_files(args);
-            return Ok(());
+            return probe_input_files(args);
         }
     }
 
-- 
2.43.0


From 291adae493a2945d2a82231588fd6bda4efb8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 162/178] fix: options may follow --convolve on the command
 line

---
 crates/zune-bin/src/cmd_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_args.rs b/crates/zune-bin/src/cmd_args.rs
index 42c3f90..800f949 100644
--- a/crates/zune-bin/src/cmd_args.rs
+++ b/crates/zune-bin/src/cmd_args.rs
@@ -477,7 +477,7 @@ fn add_filters() -> (Vec<Arg>, ArgGroup) {
             .group(GROUP),
         Arg::new("convolve")
             .long("convolve")
-            .allow_hyphen_values(true)
+            .allow_negative_numbers(true)
             .help("Perform a 2D NxN convolution. N can be either of 3,5 or 7")
             .group(GROUP)
             .help_heading(GROUP)
-- 
2.43.0


From 732fb8d8e91fa2cfce881b56f7b32e25518de91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 163/178] fix: the WebP decoder respects the configured
 dimension limits

---
 crates/zune-image/src/codecs.rs      |  4 +++-
 crates/zune-image/src/codecs/webp.rs | 27 +++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index c49784e..69255fc 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -256,7 +256,9 @@ impl ImageFormat {
             ImageFormat::WEBP => {
                 #[cfg(feature = "webp")]
                 {
-                    Ok(Box::new(codecs::webp::ZuneWebpDecoder::new(data)?))
+                    Ok(Box::new(codecs::webp::ZuneWebpDecoder::new_with_options(
+                        data, options
+                    )?))
                 }
                 #[cfg(not(feature = "webp"))]
                 {
diff --git a/crates/zune-image/src/codecs/webp.rs b/crates/zune-image/src/codecs/webp.rs
index 7312973..6dbeab6 100644
--- a/crates/zune-image/src/codecs/webp.rs
+++ b/crates/zune-image/src/codecs/webp.rs
@@ -5,6 +5,7 @@ use std::io::{BufRead, Seek};
 use image_webp::DecodingError;
 use zune_core::bit_depth::BitDepth;
 use zune_core::colorspace::ColorSpace;
+use zune_core::options::DecoderOptions;
 
 use crate::codecs::ImageFormat;
 use crate::errors::ImageErrors;
@@ -13,18 +14,40 @@ use crate::metadata::{AlphaState, ImageMetadata};
 use crate::traits::DecoderTrait;
 
 pub struct ZuneWebpDecoder<T: BufRead + Seek> {
-    inner: image_webp::WebPDecoder<T>
+    inner:   image_webp::WebPDecoder<T>,
+    options: DecoderOptions
 }
 impl<T: BufRead + Seek> ZuneWebpDecoder<T> {
     pub fn new(r: T) -> Result<Self, ImageErrors> {
+        Self::new_with_options(r, DecoderOptions::default())
+    }
+    pub fn new_with_options(r: T, options: DecoderOptions) -> Result<Self, ImageErrors> {
         let decoder = image_webp::WebPDecoder::new(r)
             .map_err(|e| ImageErrors::ImageDecodeErrors(e.to_string()))?;
-        return Ok(ZuneWebpDecoder { inner: decoder });
+        return Ok(ZuneWebpDecoder {
+            inner: decoder,
+            options
+        });
     }
 }
 impl<T: BufRead + Seek> DecoderTrait for ZuneWebpDecoder<T> {
     fn decode(&mut self) -> Result<Image, ImageErrors> {
         let (w, h) = self.dimensions().expect("Failed to determine dimensions");
+        // check dimensions before allocating anything for them
+        if w > self.options.max_width() {
+            return Err(ImageErrors::ImageDecodeErrors(format!(
+                "Image width {}, greater than max set width {}",
+                w,
+                self.options.max_width()
+            )));
+        }
+        if h > self.options.max_height() {
+            return Err(ImageErrors::ImageDecodeErrors(format!(
+                "Image height {}, greater than max set height {}",
+                h,
+                self.options.max_height()
+            )));
+        }
         let mut raw_pixels = vec![
             0_u8;
             self.inner
-- 
2.43.0


From 365485a09bbebba99fb48fbf71ba7ba77f024974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 164/178] fix: a colour transform records the profile it
 converted to

---
 crates/zune-imageprocs/src/color_transform.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/zune-imageprocs/src/color_transform.rs b/crates/zune-imageprocs/src/color_transform.rs
index 283c0ae..cd20963 100644
--- a/crates/zune-imageprocs/src/color_transform.rs
+++ b/crates/zune-imageprocs/src/color_transform.rs
@@ -62,6 +62,19 @@ impl OperationsTrait for ColorTransform {
 
 
             };
+            // the profile the image will have after the transformation, for grayscale images
+            // it is one which only has the tone curve
+            let new_color_profile = if image.colorspace() == ColorSpace::Luma {
+                let mut gray = ColorProfile::new_gray_with_gamma(1.0);
+                gray.gray_trc = dest_color_profile.red_trc.clone();
+                gray
+            } else {
+                dest_color_profile.clone()
+            };
+            let new_icc_chunk = new_color_profile
+                .encode()
+                .map_err(|e| ImageErrors::GenericString(e.to_string()))?;
+
             let img_depth = image.depth();
 
             let (w, h) = image.dimensions();
@@ -198,6 +211,8 @@ impl OperationsTrait for ColorTransform {
                     ))
                 }
             }
+            // the pixels are no longer in the profile the image came with
+            image.metadata_mut().set_icc_chunk(new_icc_chunk);
         } else {
             info!("No ICC chunk present, no transform will be done");
         }
-- 
2.43.0


From cc06fb4a8fe3dd3261e93547e5ee8d8faa235a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 165/178] fix: wasm decode returns none for images that cannot
 be decoded

---
 crates/zune-wasm/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/zune-wasm/src/lib.rs b/crates/zune-wasm/src/lib.rs
index 5101be9..f6d01cd 100644
--- a/crates/zune-wasm/src/lib.rs
+++ b/crates/zune-wasm/src/lib.rs
@@ -504,10 +504,19 @@ impl WasmImage {
 pub fn decode(bytes: &[u8]) -> Option<WasmImage> {
     if let Some((format, content)) = ImageFormat::guess_format(ZCursor::new(bytes)) {
         if let Ok(mut decoder) = format.decoder(content) {
-            let mut image = decoder.decode().unwrap();
+            let mut image = match decoder.decode() {
+                Ok(image) => image,
+                Err(e) => {
+                    error!("Could not decode {:?}: {:?}", format, e);
+                    return None;
+                }
+            };
 
             // WASM works with 8 bit images, so convert this to an 8 biy image
-            Depth::new(BitDepth::Eight).execute(&mut image).unwrap();
+            if let Err(e) = Depth::new(BitDepth::Eight).execute(&mut image) {
+                error!("Could not convert the image to 8 bits: {:?}", e);
+                return None;
+            }
 
             return Some(WasmImage { image });
         } else {
-- 
2.43.0


From 40be1a6fdc61bd9a640e239193ddd0ce35457991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 166/178] fix: wasm recognises WebP images instead of panicking
 on them

---
 crates/zune-wasm/src/enums.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-wasm/src/enums.rs b/crates/zune-wasm/src/enums.rs
index 769beab..06afd58 100644
--- a/crates/zune-wasm/src/enums.rs
+++ b/crates/zune-wasm/src/enums.rs
@@ -95,7 +95,9 @@ pub enum WasmImageFormats {
     BMP,
 
     /// Any unknown format.
-    Unknown
+    Unknown,
+    /// Decoder only
+    WEBP
 }
 
 impl WasmImageFormats {
@@ -111,6 +113,7 @@ impl WasmImageFormats {
             ImageFormat::JPEG_XL => Self::JPEG_XL,
             ImageFormat::HDR => Self::HDR,
             ImageFormat::BMP => Self::BMP,
+            ImageFormat::WEBP => Self::WEBP,
             _ => todo!("Support format {:?}", format)
         }
     }
@@ -125,7 +128,8 @@ impl WasmImageFormats {
             WasmImageFormats::HDR => ImageFormat::HDR,
             WasmImageFormats::JPEG_XL => ImageFormat::JPEG_XL,
             WasmImageFormats::BMP => ImageFormat::BMP,
-            WasmImageFormats::Unknown => ImageFormat::Unknown
+            WasmImageFormats::Unknown => ImageFormat::Unknown,
+            WasmImageFormats::WEBP => ImageFormat::WEBP
         }
     }
 }
-- 
2.43.0


From 4674bc4a4e4be35b92bf1b6519539bc9cd47790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 167/178] fix: saving in a format without encoder leaves an
 existing file alone

---
 crates/zune-image/src/codecs.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index 69255fc..24e30c7 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -506,6 +506,12 @@ impl Image {
     /// }
     /// ```
     pub fn save_to<P: AsRef<Path>>(&self, file: P, format: ImageFormat) -> Result<(), ImageErrors> {
+        // without an encoder nothing can be written, so leave what is there alone
+        if !format.has_encoder() {
+            return Err(ImageErrors::EncodeErrors(
+                ImgEncodeErrors::NoEncoderForFormat(format)
+            ));
+        }
         // open a file for which we will write directly to
         let mut file = std::io::BufWriter::new(
             std::fs::OpenOptions::new()
-- 
2.43.0


From 048583246cbee4a93313d51a838531105ea1497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 168/178] fix: zune-image wrote the EXIF block of a JPEG with
 offsets that count from the segment's start, so that every value longer than
 four bytes was lost

---
 crates/zune-image/src/codecs/jpeg.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 282ef51..4cc9d60 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -179,18 +179,19 @@ impl EncoderTrait for JpegEncoder {
                     // explicit :)
                 } else if let Some(metadata) = &image.metadata.exif {
                     let mut writer = Writer::new();
-                    // write first tags for exif
-                    let mut buf = std::io::Cursor::new(b"Exif\x00\x00".to_vec());
-                    // set buffer position to be bytes written, to ensure we don't overwrite anything
-                    buf.set_position(6);
+                    // the offsets in a TIFF block count from its start, so write it on its own
+                    let mut buf = std::io::Cursor::new(vec![]);
 
                     for metadatum in metadata {
                         writer.push_field(metadatum);
                     }
                     let result = writer.write(&mut buf, false);
                     if result.is_ok() {
+                        // the segment starts with the tags for exif
+                        let mut segment = b"Exif\x00\x00".to_vec();
+                        segment.extend_from_slice(buf.get_ref());
                         // add the exif tag to APP1 segment
-                        encoder.add_app_segment(1, buf.get_ref())?;
+                        encoder.add_app_segment(1, &segment)?;
                     } else {
                         warn!("Writing exif failed {:?}", result);
                     }
-- 
2.43.0


From 88990701bc863fcb28918d340385fcf572d5455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 169/178] fix: the buffer size the HDR encoder promises was too
 small for run length encoded images and extra headers

---
 crates/zune-hdr/src/encoder.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 6efd5f0..caea2cd 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -59,10 +59,22 @@ impl<'a> HdrEncoder<'a> {
     ///
     /// The size of the output will depend on the nature of your data
     pub fn expected_buffer_size(&self) -> Option<usize> {
-        self.options
-            .width()
-            .checked_mul(self.options.height())?
+        let width = self.options.width();
+        // A run length encoded scanline starts with four bytes, and each of its
+        // four components has a count for every group of up to 128 samples
+        let scanline = width
             .checked_mul(4)?
+            .checked_add(4)?
+            .checked_add((width / 128 + 1) * 4)?;
+        // each extra header is written as key=value and a new line
+        let headers = self.headers.map_or(0, |headers| {
+            headers.iter().map(|(k, v)| k.len() + v.len() + 2).sum()
+        });
+
+        self.options
+            .height()
+            .checked_mul(scanline)?
+            .checked_add(headers)?
             .checked_add(1024)
     }
 
-- 
2.43.0


From 6a1291e0ef48e729c3390cf22ef047c899705b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 170/178] fix: application segments other than the five known
 ones, which may precede any scan, were unknown markers to the JPEG decoder

---
 crates/zune-jpeg/src/marker.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/zune-jpeg/src/marker.rs b/crates/zune-jpeg/src/marker.rs
index f080b41..17a5163 100644
--- a/crates/zune-jpeg/src/marker.rs
+++ b/crates/zune-jpeg/src/marker.rs
@@ -80,11 +80,7 @@ impl Marker {
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xE2 => Some(APP(2)),
-            0xED => Some(APP(13)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => Some(UNKNOWN(n))
         }
     }
-- 
2.43.0


From 0fa4f34e3d01a5586154b62dff8406e523a2559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 171/178] fix: a JPEG whose scans bring their own Huffman
 tables was rejected because those of later scans were missing at the first

---
 crates/zune-jpeg/src/mcu.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 5077ecb..c3f4b32 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -32,8 +32,10 @@ pub const DCT_BLOCK: usize = 64;
 impl<T: ZByteReaderTrait> JpegDecoder<T> {
     /// Check for existence of DC and AC Huffman Tables
     pub(crate) fn check_tables(&self) -> Result<(), DecodeErrors> {
-        // check that dc and AC tables exist outside the hot path
-        for component in &self.components {
+        // check that dc and AC tables exist outside the hot path,
+        // the tables of components in later scans may not have been sent yet
+        for &position in &self.z_order[..usize::from(self.num_scans)] {
+            let component = &self.components[position];
             let _ = &self
                 .dc_huffman_tables
                 .get(component.dc_huff_table)
-- 
2.43.0


From 5983805f044922973a8f319853d95547d44999bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 172/178] fix: without the standard library, reading a byte at
 the end of the data moved the position past the end

---
 .../src/bytestream/reader/no_std_readers.rs          | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index bc5973c..38ce9e7 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -52,9 +52,15 @@ impl<T: AsRef<[u8]>> ZCursor<T> {
 impl<T: AsRef<[u8]>>  ZCursor<T> {
     #[inline(always)]
     pub (crate) fn read_byte_no_error_impl(&mut self) -> u8 {
-        let byte = self.stream.as_ref().get(self.position).unwrap_or(&0);
-        self.position += 1;
-        *byte
+        match self.stream.as_ref().get(self.position) {
+            Some(byte) => {
+                let byte = *byte;
+                self.position += 1;
+                byte
+            }
+            // nothing was read, the position stays
+            None => 0
+        }
     }
     #[inline(always)]
     pub (crate) fn read_exact_bytes_impl(&mut self, buf: &mut [u8]) -> Result<(), ZByteIoError> {
-- 
2.43.0


From e592da55d26287c030b35582b595b3f5fccc3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 173/178] fix: without the standard library, a read of fixed
 size past the end did not say that bytes were missing, which e.g. the BMP
 decoder relies on

---
 .../src/bytestream/reader/no_std_readers.rs   | 24 ++++++-------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index 38ce9e7..14c93d2 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -75,29 +75,19 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_impl<const N: usize>(&mut self, buf: &mut [u8; N]) -> Result<(), ZByteIoError> {
-        if self.position + N <= self.stream.as_ref().len() {
-            // we are in bounds
-            let reference = self.stream.as_ref();
-            let position = self.position;
-            if let Some(buf_ref) = reference.get(position..position + N) {
+        let (_, remaining) = self.split();
+        match remaining.get(..N) {
+            Some(bytes) => {
+                buf.copy_from_slice(bytes);
                 self.position += N;
-                buf.copy_from_slice(buf_ref);
-                return Ok(());
+                Ok(())
             }
+            None => Err(ZByteIoError::NotEnoughBytes(remaining.len(), N))
         }
-        Err(ZByteIoError::Generic("Cannot satisfy read"))
     }
 
     pub (crate) fn read_const_bytes_no_error_impl<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        if self.position + N <= self.stream.as_ref().len() {
-            // we are in bounds
-            let reference = self.stream.as_ref();
-            let position = self.position;
-            if let Some(buf_ref) = reference.get(position..position + N) {
-                self.position += N;
-                buf.copy_from_slice(buf_ref);
-            }
-        }
+        let _ = self.read_const_bytes_impl(buf);
     }
 
     #[inline(always)]
-- 
2.43.0


From cc186885c00db1912f2a2bd369612f24962b1bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 174/178] fix: the scanlines of an HDR file in +X -Y order are
 its columns, they were decoded as rows

---
 crates/zune-hdr/src/decoder.rs | 45 ++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index b33f617..a0edb14 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -36,6 +36,8 @@ pub struct HdrDecoder<T: ZByteReaderTrait> {
     metadata:        BTreeMap<String, String>,
     width:           usize,
     height:          usize,
+    /// scanlines run along the columns of the image, not its rows
+    columns:         bool,
     decoded_headers: bool
 }
 
@@ -93,6 +95,7 @@ where
             options,
             width: 0,
             height: 0,
+            columns: false,
             metadata: BTreeMap::new(),
             decoded_headers: false
         }
@@ -179,6 +182,7 @@ where
             ("+X", "-Y") => {
                 self.height = coords2.parse::<usize>()?;
                 self.width = coords1.parse::<usize>()?;
+                self.columns = true;
             }
             (_, _) => {
                 return Err(HdrDecodeErrors::UnsupportedOrientation(
@@ -309,18 +313,39 @@ where
             return Err(HdrDecodeErrors::Generic("Width and height cannot be 0"));
         }
 
+        if !self.columns {
+            return self.decode_scanlines(buffer, self.width, self.height);
+        }
+        // the scanlines are the columns of the image, from left to right
+        let (width, height) = (self.width, self.height);
+        let mut columns = vec![0.0_f32; output_size];
+        self.decode_scanlines(&mut columns, height, width)?;
+
+        for (x, column) in columns.chunks_exact(height * 3).enumerate() {
+            for (y, pixel) in column.chunks_exact(3).enumerate() {
+                let position = (y * width + x) * 3;
+                buffer[position..position + 3].copy_from_slice(pixel);
+            }
+        }
+        Ok(())
+    }
+
+    /// Decode `count` scanlines of `length` pixels each, one after another, into the buffer
+    fn decode_scanlines(
+        &mut self, buffer: &mut [f32], length: usize, count: usize
+    ) -> Result<(), HdrDecodeErrors> {
         // single width scanline
-        let mut scanline = vec![0_u8; self.width * 4]; // R,G,B,E
+        let mut scanline = vec![0_u8; length * 4]; // R,G,B,E
 
-        let output_scanline_size = self.width * 3; // RGB, * width gives us size of one scanline
+        let output_scanline_size = length * 3; // RGB, * length gives us size of one scanline
 
         // read flat data
         for out_scanline in buffer
             .chunks_exact_mut(output_scanline_size)
-            .take(self.height)
+            .take(count)
         {
-            if self.width < 8 || self.width > 0x7fff {
-                self.decompress(&mut scanline, self.width as i32, 0)?;
+            if length < 8 || length > 0x7fff {
+                self.decompress(&mut scanline, length as i32, 0)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -331,7 +356,7 @@ where
                 // undo byte read
                 self.buf.rewind(1)?;
 
-                self.decompress(&mut scanline, self.width as i32, 0)?;
+                self.decompress(&mut scanline, length as i32, 0)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -344,7 +369,7 @@ where
                 scanline[0] = 2;
                 scanline[3] = i;
 
-                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
+                self.decompress(&mut scanline, length as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -355,7 +380,7 @@ where
                 let mut j = 0;
 
                 loop {
-                    if j >= self.width * 4 {
+                    if j >= length * 4 {
                         break;
                     }
                     let mut run = i32::from(self.buf.read_u8_err()?);
@@ -367,7 +392,7 @@ where
                         while run > 0 {
                             run -= 1;
 
-                            if j >= self.width * 4 {
+                            if j >= length * 4 {
                                 break;
                             }
                             new_scanline[j] = val;
@@ -377,7 +402,7 @@ where
                         while run > 0 {
                             run -= 1;
 
-                            if j >= self.width * 4 {
+                            if j >= length * 4 {
                                 break;
                             }
 
-- 
2.43.0


From e19fd2150c1436f91c2d49593c6481f4cdd63e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 175/178] fix: a zlib stream that needs a preset dictionary was
 decoded as if it didn't

---
 crates/zune-inflate/src/decoder.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 4045268..ab11049 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -271,9 +271,9 @@ impl<'a> DeflateDecoder<'a> {
         let cm = cmf & 0xF;
         let cinfo = cmf >> 4;
 
-        // let fcheck = flg & 0xF;
-        // let fdict = (flg >> 4) & 1;
-        // let flevel = flg >> 5;
+        // let fcheck = flg & 0x1F;
+        // let fdict = (flg >> 5) & 1;
+        // let flevel = flg >> 6;
 
         // confirm we have the right deflate methods
         if cm != 8 {
@@ -301,6 +301,12 @@ impl<'a> DeflateDecoder<'a> {
             ));
         }
 
+        if (flg >> 5) & 1 == 1 {
+            return Err(InflateDecodeErrors::new_with_error(
+                DecodeErrorStatus::Generic("Preset dictionaries are not supported")
+            ));
+        }
+
         self.position = 2;
 
         let data = self.decode_deflate()?;
-- 
2.43.0


From 20e3628db4be7fe0e7dfcd7953d1e2485c097221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 176/178] fix: the checksum of a gzip header was not confirmed

---
 crates/zune-inflate/src/decoder.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index ab11049..5346d5b 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -371,6 +371,8 @@ impl<'a> DeflateDecoder<'a> {
             ));
         }
 
+        let start = self.position;
+
         if self.data[self.position] != GZIP_ID1 {
             return Err(InflateDecodeErrors::new_with_error(
                 DecodeErrorStatus::CorruptData
@@ -456,6 +458,21 @@ impl<'a> DeflateDecoder<'a> {
         }
         // crc16 for gzip header
         if (flg & GZIP_FHCRC) != 0 {
+            if self.options.confirm_checksum {
+                let header = self.data.get(start..self.position);
+                let crc = self.data.get(self.position..self.position + 2);
+
+                if let (Some(header), Some(crc)) = (header, crc) {
+                    let expected = u32::from(crc[0]) | (u32::from(crc[1]) << 8);
+                    let found = !crate::crc::crc32(header, !0) & 0xFFFF;
+
+                    if expected != found {
+                        return Err(InflateDecodeErrors::new_with_error(
+                            DecodeErrorStatus::MismatchedCRC(expected, found)
+                        ));
+                    }
+                }
+            }
             self.position += 2;
         }
 
-- 
2.43.0


From fbccb84e20d060af6492e549b3787f6bfe2dff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:30 +0000
Subject: [PATCH 177/178] fix: a JPEG whose quantization tables come right
 before the scans that use them was rejected

---
 crates/zune-jpeg/src/components.rs |  3 +++
 crates/zune-jpeg/src/mcu.rs        |  6 ++++-
 crates/zune-jpeg/src/mcu_prog.rs   |  6 ++++-
 crates/zune-jpeg/src/misc.rs       | 39 +++++++++++++++++++++---------
 4 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/crates/zune-jpeg/src/components.rs b/crates/zune-jpeg/src/components.rs
index 1d1b33c..9338fb6 100644
--- a/crates/zune-jpeg/src/components.rs
+++ b/crates/zune-jpeg/src/components.rs
@@ -50,6 +50,8 @@ pub(crate) struct Components {
     pub quantization_table_number: u8,
     /// Specifies quantization table to use with this component
     pub quantization_table: [i32; 64],
+    /// whether the quantization table was set
+    pub quantization_table_set: bool,
     /// dc prediction for the component
     pub dc_pred: i32,
     /// An up-sampling function, can be basic or SSE, depending
@@ -159,6 +161,7 @@ impl Components {
             dc_huff_table: 0,
             ac_huff_table: 0,
             quantization_table: [0; 64],
+            quantization_table_set: false,
             dc_pred: 0,
             up_sampler: upsample_no_op,
             // set later
diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index c3f4b32..1590ec7 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -21,7 +21,9 @@ use crate::decoder::MAX_COMPONENTS;
 use crate::errors::DecodeErrors;
 use crate::marker::Marker;
 use crate::mcu_prog::get_marker;
-use crate::misc::{calculate_padded_width, setup_component_params};
+use crate::misc::{
+    calculate_padded_width, setup_component_params, setup_quantization_tables
+};
 use crate::worker::{color_convert, upsample};
 use crate::JpegDecoder;
 
@@ -196,6 +198,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 &self.z_order[..usize::from(self.num_scans)]
             );
 
+            setup_quantization_tables(self)?;
+
             let (scan_width, scan_height) = if all_components_in_first_scan {
                 (mcu_width, mcu_height)
             } else {
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index ea89904..8cafd89 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -35,7 +35,9 @@ use crate::errors::DecodeErrors;
 use crate::headers::parse_sos;
 use crate::marker::Marker;
 use crate::mcu::DCT_BLOCK;
-use crate::misc::{calculate_padded_width, setup_component_params};
+use crate::misc::{
+    calculate_padded_width, setup_component_params, setup_quantization_tables
+};
 
 impl<T: ZByteReaderTrait> JpegDecoder<T> {
     /// Decode a progressive image
@@ -52,6 +54,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         &mut self, pixels: &mut [u8]
     ) -> Result<(), DecodeErrors> {
         setup_component_params(self)?;
+        setup_quantization_tables(self)?;
 
         let mcu_height;
 
@@ -129,6 +132,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             match marker {
                 Marker::SOS => {
                     parse_sos(self)?;
+                    setup_quantization_tables(self)?;
 
                     stream.update_progressive_params(
                         self.succ_high,
diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 19391ba..768f8c2 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -187,6 +187,34 @@ impl fmt::Debug for SOFMarkers {
     }
 }
 
+/// Give the components of the current scan the quantization tables they
+/// refer to. A table may be defined as late as right before the first scan
+/// of a component, and later definitions don't concern that component.
+pub(crate) fn setup_quantization_tables<T: ZByteReaderTrait>(
+    img: &mut JpegDecoder<T>
+) -> Result<(), DecodeErrors> {
+    for position in &img.z_order[..usize::from(img.num_scans)] {
+        let Some(component) = img.components.get_mut(*position) else {
+            continue;
+        };
+        if component.quantization_table_set {
+            continue;
+        }
+        component.quantization_table = *img.qt_tables
+            [component.quantization_table_number as usize]
+            .as_ref()
+            .ok_or_else(|| {
+                DecodeErrors::DqtError(format!(
+                    "No quantization table for component {:?}",
+                    component.component_id
+                ))
+            })?;
+        component.quantization_table_set = true;
+    }
+    Ok(())
+}
+
+
 /// Set up component parameters.
 ///
 /// This modifies the components in place setting up details needed by other
@@ -228,23 +256,12 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
             // not equal to 1.
             img.is_interleaved = true;
         }
-        // Extract quantization tables from the arrays into components
-        let qt_table = *img.qt_tables[component.quantization_table_number as usize]
-            .as_ref()
-            .ok_or_else(|| {
-                DecodeErrors::DqtError(format!(
-                    "No quantization table for component {:?}",
-                    component.component_id
-                ))
-            })?;
-
         let x = (usize::from(img_width) * component.horizontal_sample + img.h_max - 1) / img.h_max;
         let y = (usize::from(img_height) * component.horizontal_sample + img.h_max - 1) / img.v_max;
         component.x = x;
         component.w2 = img.mcu_x * component.horizontal_sample * 8;
         // probably not needed. :)
         component.y = y;
-        component.quantization_table = qt_table;
         // initially stride contains its horizontal sub-sampling
         component.width_stride *= img.mcu_x * 8;
     }
-- 
2.43.0


From e79bc6806b821d80f58c8b5b402e831a28361718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 178/178] fix: the PNG decoder did not keep to the inflate
 limit of the options

---
 crates/zune-png/src/decoder.rs         |  4 +++-
 crates/zune-png/src/headers/readers.rs | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 5f0b993..3372c4b 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1308,7 +1308,9 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         let option = DeflateOptions::default()
             .set_size_hint(size_hint)
-            .set_limit(size_hint + 4 * (self.png_info.height))
+            .set_limit(
+                (size_hint + 4 * (self.png_info.height)).min(self.options.inflate_get_limit())
+            )
             .set_confirm_checksum(self.options.inflate_get_confirm_adler());
 
         let mut decoder = zune_inflate::DeflateDecoder::new_with_options(&flat_data.fdat, option);
diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 8eacc34..1ba9540 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -8,7 +8,7 @@ use alloc::{format, vec};
 
 use zune_core::bytestream::ZByteReaderTrait;
 use zune_core::log::{trace, warn};
-use zune_inflate::DeflateDecoder;
+use zune_inflate::{DeflateDecoder, DeflateOptions};
 
 use crate::apng::{ActlChunk, BlendOp, DisposeOp, FrameInfo, SingleFrame};
 use crate::decoder::{ItxtChunk, PLTEEntry, PngChunk, TextChunk, TimeInfo, ZtxtChunk};
@@ -373,11 +373,13 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             // read compression method
             let _ = self.stream.read_u8();
 
+            let option = DeflateOptions::default().set_limit(self.options.inflate_get_limit());
+
             // read remaining chunk
             let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
-            if let Ok(icc_uncompressed) = DeflateDecoder::new(data).decode_zlib() {
+            if let Ok(icc_uncompressed) = DeflateDecoder::new_with_options(data, option).decode_zlib() {
                 self.png_info.icc_profile = Some(icc_uncompressed);
             } else {
                 warn!("Could not decode ICC profile, error with zlib stream");
@@ -484,11 +486,13 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             // read compression method
             let _ = self.stream.read_u8();
 
+            let option = DeflateOptions::default().set_limit(self.options.inflate_get_limit());
+
             // read remaining chunk
             let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
-            if let Ok(ztxt) = DeflateDecoder::new(data).decode_zlib() {
+            if let Ok(ztxt) = DeflateDecoder::new_with_options(data, option).decode_zlib() {
                 let chunk = ZtxtChunk {
                     keyword,
                     text: ztxt
-- 
2.43.0

