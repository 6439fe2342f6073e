From 6204458b8df2f76a6eb373a517c0e0a46a86a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:10 +0000
Subject: [PATCH 01/19] fix: encode image data using color index 255

Counting the entries needed overflowed for the largest index.
---
 gift/src/encode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..fec71e6 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,9 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let n_entries =
+            u16::from(self.data().iter().copied().max().unwrap_or(0)) + 1;
+        let min_code_bits = next_high_bit(n_entries);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +230,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From c0c1ec5c1b0d5f17fdbe3dd8ced9455d26f3fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:42 +0000
Subject: [PATCH 02/19] fix: write the last bits of compressed image data

The final byte was dropped when it was only partly filled, so the last
pixels could be lost.
---
 gift/src/lzw.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..8afd256 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -223,6 +223,12 @@ impl Compressor {
             self.pack(code, buffer);
         }
         self.pack(self.end_code(), buffer);
+        // Flush remaining bits if they hold more than the end code
+        if self.n_bits > u8::from(self.code_bits) {
+            buffer.push(self.code as u8);
+            self.code = 0;
+            self.n_bits = 0;
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From a9184bba7dd781a7e8a74862af43a9fead9b3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:43 +0000
Subject: [PATCH 03/19] fix: use the right width for the LZW end code

After the last data code a decoder may already read wider codes.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8afd256..8150384 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -221,6 +221,10 @@ impl Compressor {
         }
         if let Some(code) = code {
             self.pack(code, buffer);
+            // Decoder has one more entry than inserted at this point
+            if self.next_code() == self.code_bits.entries() {
+                self.code_bits += 1;
+            }
         }
         self.pack(self.end_code(), buffer);
         // Flush remaining bits if they hold more than the end code
-- 
2.43.0


From 3fb1fbd5e90c728f67f827a29b95dde12c0e5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:07 +0000
Subject: [PATCH 04/19] fix: store the animation loop count in little-endian
 order

The NETSCAPE extension, like all of GIF, stores the low byte first.
---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From 2b3096f850a57346dd8d9d1d85d8ddf021d8dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:08 +0000
Subject: [PATCH 05/19] fix: keep pixels beneath transparent ones

Transparent pixels of a frame erased what earlier frames had drawn.
---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..6ea6cc1 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -744,11 +744,10 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            // Transparent pixels leave the raster unmodified
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 12c797960334592760c26227ecda03210f2629b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:09 +0000
Subject: [PATCH 06/19] fix: keep the delay time of decoded steps

---
 gift/src/decode.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 6ea6cc1..bc2a126 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -683,10 +683,7 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
-        let transparent_color = frame
-            .graphic_control_ext
-            .unwrap_or_default()
-            .transparent_color();
+        let control = frame.graphic_control_ext.unwrap_or_default();
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
             let mut raster = Raster::with_raster(raster);
@@ -702,7 +699,8 @@ impl<R: Read> StepsOnce<R> {
             rs.copy_color(frame.region(), SRgba8::default());
         }
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(control.transparent_color())
+            .with_delay_time_cs(Some(control.delay_time_cs())))
     }
 }
 
-- 
2.43.0


From 5c5d33d076e511c271945ebbb492ed605bc4c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:39 +0000
Subject: [PATCH 07/19] fix: draw the rows of interlaced images in order

Steps had the rows in the order they are stored in the file.
---
 gift/src/decode.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index bc2a126..0fcd026 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -735,7 +735,9 @@ fn update_frame(
     let trans_clr = frame.transparent_color();
     let width = usize::from(frame.width());
     let data = frame.image_data.data();
-    for (row, frow) in raster.rows_mut(reg).zip(data.chunks_exact(width)) {
+    let rows = stored_rows(frame);
+    for (row, n) in raster.rows_mut(reg).zip(rows) {
+        let frow = &data[n * width..][..width];
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
@@ -751,6 +753,20 @@ fn update_frame(
     Ok(())
 }
 
+/// Get the number of the stored row for each row of a frame
+fn stored_rows(frame: &Frame) -> Vec<usize> {
+    let height = usize::from(frame.height());
+    let mut rows: Vec<_> = (0..height).collect();
+    if frame.image_desc.interlaced() {
+        let passes = [(0, 8), (4, 8), (2, 4), (1, 2)];
+        let order = passes.iter().flat_map(|p| (p.0..height).step_by(p.1));
+        for (n, row) in order.enumerate() {
+            rows[row] = n;
+        }
+    }
+    rows
+}
+
 impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
-- 
2.43.0


From 6c51a9353af894424d710feb5c2bb2aa508914dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:18 +0000
Subject: [PATCH 08/19] fix: end frame and step iteration after an error

Iterating steps of an empty file never ended, and items could follow an
error.
---
 gift/src/decode.rs | 52 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 0fcd026..ff169ad 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -435,25 +435,20 @@ pub struct Frames<R: Read> {
     image_desc: Option<ImageDesc>,
     /// Local color table block
     local_color_table: Option<LocalColorTable>,
+    /// Flag when done (after an error)
+    done: bool,
 }
 
 impl<R: Read> Iterator for Frames<R> {
     type Item = Result<Frame>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        while let Some(block) = self.blocks.next() {
-            match block {
-                Ok(b) => {
-                    match self.handle_block(b) {
-                        Ok(Some(f)) => return Some(Ok(f)), // transpose
-                        Ok(None) => {}                     // need more blocks
-                        Err(e) => return Some(Err(e)),
-                    }
-                }
-                Err(e) => return Some(Err(e)),
-            }
+        if self.done {
+            return None;
         }
-        None
+        let res = self.next_frame();
+        self.done = matches!(res, Some(Err(_)));
+        res
     }
 }
 
@@ -466,15 +461,40 @@ impl<R: Read> Frames<R> {
             graphic_control_ext: None,
             image_desc: None,
             local_color_table: None,
+            done: false,
         }
     }
 
+    /// Get the next frame
+    fn next_frame(&mut self) -> Option<Result<Frame>> {
+        while let Some(block) = self.blocks.next() {
+            match block {
+                Ok(b) => {
+                    match self.handle_block(b) {
+                        Ok(Some(f)) => return Some(Ok(f)), // transpose
+                        Ok(None) => {}                     // need more blocks
+                        Err(e) => return Some(Err(e)),
+                    }
+                }
+                Err(e) => return Some(Err(e)),
+            }
+        }
+        None
+    }
+
     /// Read preamble blocks.  These are the blocks at the beginning of the
     /// file, before any frame blocks.
     pub fn preamble(&mut self) -> Result<Option<Preamble>> {
-        if self.has_frame() {
+        if self.done || self.has_frame() {
             return Ok(None);
         }
+        let res = self.read_preamble();
+        self.done = res.is_err();
+        res
+    }
+
+    /// Read blocks up to the first frame block
+    fn read_preamble(&mut self) -> Result<Option<Preamble>> {
         self.preamble = Some(Preamble::default());
         while let Some(block) = self.blocks.next() {
             self.handle_block(block?)?;
@@ -675,7 +695,11 @@ impl<R: Read> StepsOnce<R> {
     fn next_step(&mut self) -> Option<Result<Step>> {
         debug_assert!(self.raster.is_some());
         match self.frames.next() {
-            Some(Ok(f)) => Some(self.apply_frame(f)),
+            Some(Ok(f)) => {
+                let res = self.apply_frame(f);
+                self.frames.done = res.is_err();
+                Some(res)
+            }
             Some(Err(e)) => Some(Err(e)),
             None => None,
         }
-- 
2.43.0


From 9fc80e0b67efb9cc8dd49c464b9e61853dfeb6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:19 +0000
Subject: [PATCH 09/19] fix: return an error after the steps before it when
 looping

It was returned first, followed by repeats of the incomplete animation.
---
 gift/src/decode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index ff169ad..2715988 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -795,12 +795,13 @@ impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(err) = self.err.take() {
-            return Some(Err(err));
-        }
         if let Some(step) = self.steps.get(self.step_n) {
             self.step_n += 1;
             Some(Ok(step.clone()))
+        } else if let Some(err) = self.err.take() {
+            // Do not repeat a faulty animation
+            self.loop_count = None;
+            Some(Err(err))
         } else if let Some(loop_count) = self.loop_count {
             match loop_count.cmp(&1) {
                 Ordering::Greater => self.loop_count = Some(loop_count - 1),
-- 
2.43.0


From ffffa1e1a45c8fde605b2073ccd0c7f98a6dadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:46 +0000
Subject: [PATCH 10/19] fix: keep a full LZW table when decompressing

The table grew past 4096 entries, until codes no longer fit in 16 bits.
---
 gift/src/lzw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8150384..ab04575 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -393,7 +393,9 @@ impl Decompressor {
                 } else {
                     self.lookup(prefix)
                 };
-                self.push_node(Some(prefix), data);
+                if next_code < Bits::MAX.entries() {
+                    self.push_node(Some(prefix), data);
+                }
                 self.decompress_buffer(code, buffer);
             }
             None => buffer.push(code as u8),
-- 
2.43.0


From 5338f33abd30e10cbe58665b319dda772fad061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:47 +0000
Subject: [PATCH 11/19] fix: reject LZW data which starts with an undefined
 code

---
 gift/src/lzw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index ab04575..f5efa22 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -398,7 +398,8 @@ impl Decompressor {
                 }
                 self.decompress_buffer(code, buffer);
             }
-            None => buffer.push(code as u8),
+            None if code < self.clear_code() => buffer.push(code as u8),
+            None => return Err(Error::InvalidLzwData),
         }
         if next_code + 1 == self.code_bits.entries() {
             self.code_bits += 1;
-- 
2.43.0


From 8139f61d2b11bc375a6b4118edcdb22c7b8431f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:48 +0000
Subject: [PATCH 12/19] fix: stop decompressing at the LZW end code

Bytes after the end code were decoded as pixels, or rejected.
---
 gift/src/lzw.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index f5efa22..ac10085 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// Flag when end code found
+    ended: bool,
 }
 
 impl CNode {
@@ -274,6 +276,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            ended: false,
         };
         dec.reset_table();
         dec
@@ -347,7 +350,8 @@ impl Decompressor {
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
-        while let (Some(code), n_consumed) = self.unpack(bytes) {
+        while !self.ended
+            && let (Some(code), n_consumed) = self.unpack(bytes) {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
         }
@@ -366,7 +370,7 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
+            self.ended = true;
             self.prefix = None;
         } else {
             self.decompress_data(code, buffer)?;
-- 
2.43.0


From da14717ab1e3a713c1f5eac05698687ebd5f7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:49 +0000
Subject: [PATCH 13/19] fix: stop decompressing when an image is complete

A small file could expand to far more data than the image size limit.
---
 gift/src/decode.rs | 9 +++++++--
 gift/src/lzw.rs    | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 2715988..c683f49 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -314,7 +314,11 @@ impl<R: Read> Blocks<R> {
             Comment(b) => b.parse_sub_block(bytes),
             Application(b) => b.parse_sub_block(bytes),
             Unknown(b) => b.parse_sub_block(bytes),
-            ImageData(b) => b.parse_sub_block(bytes, &mut self.decompressor)?,
+            ImageData(b) => b.parse_sub_block(
+                bytes,
+                &mut self.decompressor,
+                self.image_sz,
+            )?,
             _ => panic!("Invalid state in parse_sub_block!"),
         }
         Ok(())
@@ -327,9 +331,10 @@ impl ImageData {
         &mut self,
         bytes: &[u8],
         decompressor: &mut Option<Decompressor>,
+        image_sz: usize,
     ) -> Result<()> {
         if let Some(dec) = decompressor {
-            dec.decompress(bytes, self.data_mut())?;
+            dec.decompress(bytes, self.data_mut(), image_sz)?;
             return Ok(());
         }
         panic!("Invalid state in decode_image_data!");
diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index ac10085..629f4f7 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -343,14 +343,16 @@ impl Decompressor {
         }
     }
 
-    /// Decompress a byte buffer
+    /// Decompress a byte buffer, until `image_sz` bytes have been output
     pub fn decompress(
         &mut self,
         bytes: &[u8],
         buffer: &mut Vec<u8>,
+        image_sz: usize,
     ) -> Result<()> {
         let mut bytes = bytes;
         while !self.ended
+            && buffer.len() < image_sz
             && let (Some(code), n_consumed) = self.unpack(bytes) {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
-- 
2.43.0


From 406a20ea39cb842972b8caeed51c5d5bc54a56c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:41 +0000
Subject: [PATCH 14/19] fix: apply the image size limit to the screen of steps

Any file could make the step iterator allocate a screen of 65535x65535
pixels, or panic.
---
 gift/src/decode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index c683f49..bad2ea3 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -684,8 +684,14 @@ impl<R: Read> StepsOnce<R> {
             Some(mut p) => {
                 self.global_color_table = p.global_color_table.take();
                 self.loop_count_ext = p.loop_count_ext.take();
-                let w = p.screen_width().into();
-                let h = p.screen_height().into();
+                let w: u32 = p.screen_width().into();
+                let h: u32 = p.screen_height().into();
+                // raster size must also fit in an i32
+                let max_sz = self.frames.blocks.max_image_sz;
+                let max_sz = max_sz.unwrap_or(usize::MAX).min(i32::MAX as usize);
+                if w as usize * h as usize > max_sz {
+                    return Err(Error::TooLargeImage);
+                }
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
-- 
2.43.0


From 31996033b4ad089dfcf7df4fb36c29270051f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:41 +0000
Subject: [PATCH 15/19] fix: reject empty frames and screens when making steps

Drawing a frame of no pixels, or copying a screen of none, panicked.
---
 gift/src/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index bad2ea3..f90dc21 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -718,6 +718,11 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
+        let reg = frame.region();
+        let visible = self.raster.as_ref().unwrap().intersection(reg);
+        if visible != reg || reg == Region::default() {
+            return Err(Error::InvalidFrameDimensions);
+        }
         let control = frame.graphic_control_ext.unwrap_or_default();
         let raster = if let DisposalMethod::Previous = frame.disposal_method() {
             let raster = self.raster.as_ref().unwrap();
-- 
2.43.0


From 964ce8f5fa9cc5e54613fe19bc231965eb9fac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:14 +0000
Subject: [PATCH 16/19] fix: limit color tables made from palettes to 256
 entries

A bigger palette made the table longer than the file declares.
---
 gift/src/encode.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index fec71e6..618fb52 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -439,13 +439,15 @@ fn make_image_desc(raster: &Raster<Gray8>) -> Result<ImageDesc> {
 
 /// Make a color table from a palette
 fn make_color_table(palette: &Palette) -> (ColorTableConfig, Vec<u8>) {
+    // color tables have at most 256 entries
+    let len = palette.len().min(256);
     let tbl_cfg = ColorTableConfig::new(
         ColorTableExistence::Present,
         ColorTableOrdering::NotSorted,
-        palette.len() as u16,
+        len as u16,
     );
-    let mut pal = Vec::with_capacity(palette.len() * 3);
-    for clr in palette.colors() {
+    let mut pal = Vec::with_capacity(len * 3);
+    for clr in &palette.colors()[..len] {
         pal.push(u8::from(Rgb::red(*clr)));
         pal.push(u8::from(Rgb::green(*clr)));
         pal.push(u8::from(Rgb::blue(*clr)));
-- 
2.43.0


From 773da80461abb38e407c67ce8403f9c2ad4d4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:41 +0000
Subject: [PATCH 17/19] fix: use the global color table given to the step
 encoder

It was ignored, and the palette of the first step used instead.
---
 gift/src/encode.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 618fb52..3849b08 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -371,11 +371,15 @@ impl<W: Write> StepEnc<W> {
         let image_desc = make_image_desc(raster)?;
         let image_data = raster.into();
         let (tbl_cfg, pal) = make_color_table(palette);
+        let color_table = Some(GlobalColorTable::with_colors(&pal[..]));
+        let (global_cfg, global_color_table) = match &self.global_color_table {
+            (cfg, Some(tbl)) => (*cfg, Some(tbl.clone())),
+            _ => (tbl_cfg, color_table.clone()),
+        };
         let logical_screen_desc = LogicalScreenDesc::default()
             .with_screen_width(image_desc.width())
             .with_screen_height(image_desc.height())
-            .with_color_table_config(tbl_cfg);
-        let global_color_table = Some(GlobalColorTable::with_colors(&pal[..]));
+            .with_color_table_config(global_cfg);
         let loop_count_ext = self.loop_count.clone();
         let preamble = Preamble {
             logical_screen_desc,
@@ -383,6 +387,10 @@ impl<W: Write> StepEnc<W> {
             loop_count_ext,
             ..Preamble::default()
         };
+        if self.preamble.is_none() {
+            self.frame_enc.encode_preamble(&preamble)?;
+            self.preamble = Some(preamble.clone());
+        }
         match &self.preamble {
             Some(pre) => {
                 if !pre
@@ -391,7 +399,7 @@ impl<W: Write> StepEnc<W> {
                 {
                     return Err(Error::InvalidRasterDimensions);
                 }
-                if pre.global_color_table != preamble.global_color_table {
+                if pre.global_color_table != color_table {
                     let frame = Frame::new(
                         control,
                         image_desc.with_color_table_config(tbl_cfg),
@@ -401,10 +409,7 @@ impl<W: Write> StepEnc<W> {
                     return self.frame_enc.encode_frame(&frame);
                 }
             }
-            None => {
-                self.frame_enc.encode_preamble(&preamble)?;
-                self.preamble = Some(preamble);
-            }
+            None => {}
         }
         let frame = Frame::new(control, image_desc, None, image_data);
         self.frame_enc.encode_frame(&frame)
-- 
2.43.0


From f867e7e361b623d70b54cfebb615fa42ff8530c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:42 +0000
Subject: [PATCH 18/19] fix: do not apply the graphic control of plain text to
 an image

---
 gift/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index f90dc21..a170adc 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -552,6 +552,10 @@ impl<R: Read> Frames<R> {
                 }
                 self.graphic_control_ext = Some(b);
             }
+            Block::PlainText(_) => {
+                // a graphic control only applies to the next rendering block
+                self.graphic_control_ext = None;
+            }
             Block::ImageDesc(b) => {
                 if self.image_desc.is_some() {
                     return Err(Error::InvalidBlockSequence);
-- 
2.43.0


From ad190054881e2605aa517a94170634ad990a4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:14 +0000
Subject: [PATCH 19/19] fix: keep the block iterator at its end once it has
 ended

---
 gift/src/decode.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index a170adc..bfb28f5 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -61,7 +61,6 @@ impl<R: Read> Iterator for Blocks<R> {
 
     fn next(&mut self) -> Option<Self::Item> {
         if self.done {
-            self.done = false;
             None
         } else {
             let res = self.next_block();
-- 
2.43.0

