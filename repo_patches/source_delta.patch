From 33f5878a3e3140514fce9894894db2dec568474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:00 +0000
Subject: [PATCH 01/20] fix: write the last bits of the final LZW data code

---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..9629454 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -223,6 +223,10 @@ impl Compressor {
             self.pack(code, buffer);
         }
         self.pack(self.end_code(), buffer);
+        // bits left over may still hold part of the final data code
+        if self.n_bits > u8::from(self.code_bits) {
+            buffer.push(self.code as u8);
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From 843f21b0564b20fd30da0af928663b41d4ff4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:00 +0000
Subject: [PATCH 02/20] fix: encode image data which uses color index 255

---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..5ac087a 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,8 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let max = self.data().iter().copied().max().unwrap_or(0);
+        let min_code_bits = next_high_bit(u16::from(max) + 1);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +229,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From 563e392672e0aac38522201a2d71a7ba22566227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:00 +0000
Subject: [PATCH 03/20] fix: reject an LZW code which is not a literal after a
 clear code

---
 gift/src/lzw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 9629454..b2a709c 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -390,7 +390,9 @@ impl Decompressor {
                 self.push_node(Some(prefix), data);
                 self.decompress_buffer(code, buffer);
             }
-            None => buffer.push(code as u8),
+            // The first code after a clear code must be a literal
+            None if code < self.clear_code() => buffer.push(code as u8),
+            None => return Err(Error::InvalidLzwData),
         }
         if next_code + 1 == self.code_bits.entries() {
             self.code_bits += 1;
-- 
2.43.0


From 08f1f1c0a7214f5f5ae3bf4d5a8e9c3d8962806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:00 +0000
Subject: [PATCH 04/20] fix: stop adding LZW table entries once the table is
 full

---
 gift/src/lzw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index b2a709c..8656ee5 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -387,7 +387,10 @@ impl Decompressor {
                 } else {
                     self.lookup(prefix)
                 };
-                self.push_node(Some(prefix), data);
+                // A full table stays as it is until the next clear code
+                if next_code < Bits::MAX.entries() {
+                    self.push_node(Some(prefix), data);
+                }
                 self.decompress_buffer(code, buffer);
             }
             // The first code after a clear code must be a literal
-- 
2.43.0


From 5393d9786ae1718a250a1f2bcf3cabcea03ebda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:00 +0000
Subject: [PATCH 05/20] fix: ignore everything after the LZW end code

---
 gift/src/lzw.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8656ee5..1c0d3c0 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// Flag when end code has been found
+    done: bool,
 }
 
 impl CNode {
@@ -268,6 +270,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            done: false,
         };
         dec.reset_table();
         dec
@@ -341,7 +344,9 @@ impl Decompressor {
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
-        while let (Some(code), n_consumed) = self.unpack(bytes) {
+        while !self.done
+            && let (Some(code), n_consumed) = self.unpack(bytes)
+        {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
         }
@@ -360,8 +365,7 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
-            self.prefix = None;
+            self.done = true;
         } else {
             self.decompress_data(code, buffer)?;
             self.prefix = Some(code);
-- 
2.43.0


From f3501661a8287febe35a2475099655031cd8298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:28 +0000
Subject: [PATCH 06/20] fix: end frame iteration after an invalid block
 sequence

---
 gift/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..3c01af1 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -447,7 +447,10 @@ impl<R: Read> Iterator for Frames<R> {
                     match self.handle_block(b) {
                         Ok(Some(f)) => return Some(Ok(f)), // transpose
                         Ok(None) => {}                     // need more blocks
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            self.blocks.done = true;
+                            return Some(Err(e));
+                        }
                     }
                 }
                 Err(e) => return Some(Err(e)),
-- 
2.43.0


From a4f2b7aed7a86c4cd98ace081b66909e9d8c32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:29 +0000
Subject: [PATCH 07/20] fix: end step iteration after the first error

A decoder for malformed input returned the error over and over, and
creating the looping iterator for it never finished.
---
 gift/src/decode.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 3c01af1..822d1e4 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -571,6 +571,8 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
+    /// Flag when done
+    done: bool,
 }
 
 /// A step iterator which repeats the animation.
@@ -633,15 +635,21 @@ impl<R: Read> Iterator for StepsOnce<R> {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
         if self.raster.is_none()
             && let Err(e) = self.make_raster()
         {
+            self.done = true;
             return Some(Err(e));
         }
-        match self.raster {
+        let step = match self.raster {
             Some(_) => self.next_step(),
             None => None,
-        }
+        };
+        self.done = !matches!(step, Some(Ok(_)));
+        step
     }
 }
 
@@ -653,6 +661,7 @@ impl<R: Read> StepsOnce<R> {
             global_color_table: None,
             loop_count_ext: None,
             raster: None,
+            done: false,
         }
     }
 
-- 
2.43.0


From b15344daeedb40305edfc149fbe4d2a9df9d34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:29 +0000
Subject: [PATCH 08/20] fix: return steps before the error in looping iterator

The error came first, followed by the steps decoded before it, which were
then repeated.
---
 gift/src/decode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 822d1e4..08b4836 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -770,12 +770,13 @@ impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(err) = self.err.take() {
-            return Some(Err(err));
-        }
         if let Some(step) = self.steps.get(self.step_n) {
             self.step_n += 1;
             Some(Ok(step.clone()))
+        } else if let Some(err) = self.err.take() {
+            // Don't repeat an animation which is not complete
+            self.loop_count = None;
+            Some(Err(err))
         } else if let Some(loop_count) = self.loop_count {
             match loop_count.cmp(&1) {
                 Ordering::Greater => self.loop_count = Some(loop_count - 1),
-- 
2.43.0


From b5112eccac88c84c0cdec23037bfa1f90bb84c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:29 +0000
Subject: [PATCH 09/20] fix: use little-endian byte order for the loop count

---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From bf1ee65aa2422386dfb69ee2d401150f3bab4ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:30 +0000
Subject: [PATCH 10/20] fix: reject empty frames instead of panicking

The frame is now checked before the screen is copied, since copying an
empty screen panics as well.
---
 gift/src/decode.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 08b4836..b96d087 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -695,6 +695,14 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
+        let reg = frame.region();
+        let raster = self.raster.as_ref().unwrap();
+        if reg.width() == 0
+            || reg.height() == 0
+            || raster.intersection(reg) != reg
+        {
+            return Err(Error::InvalidFrameDimensions);
+        }
         let transparent_color = frame
             .graphic_control_ext
             .unwrap_or_default()
@@ -724,19 +732,14 @@ fn update_raster(
     frame: &Frame,
     global_tbl: &Option<GlobalColorTable>,
 ) -> Result<()> {
-    let reg = frame.region();
-    if raster.intersection(reg) == reg {
-        let clrs = if let Some(tbl) = &frame.local_color_table {
-            tbl.colors()
-        } else if let Some(tbl) = global_tbl {
-            tbl.colors()
-        } else {
-            return Err(Error::MissingColorTable);
-        };
-        update_frame(raster, reg, frame, clrs)
+    let clrs = if let Some(tbl) = &frame.local_color_table {
+        tbl.colors()
+    } else if let Some(tbl) = global_tbl {
+        tbl.colors()
     } else {
-        Err(Error::InvalidFrameDimensions)
-    }
+        return Err(Error::MissingColorTable);
+    };
+    update_frame(raster, frame.region(), frame, clrs)
 }
 
 /// Update a region of a raster with a new frame
-- 
2.43.0


From 808c89008ecdb92c2e5fb58d4a3da273d4b0c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:57 +0000
Subject: [PATCH 11/20] fix: leave the raster unchanged where a frame is
 transparent

---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index b96d087..10efb28 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -759,11 +759,10 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            // Transparent pixels leave the raster as it was
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From e6d3dd6520c865b6c4ccacd5879a2f701364e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:58 +0000
Subject: [PATCH 12/20] fix: put rows of interlaced frames on their proper
 lines

---
 gift/src/decode.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 10efb28..b533e1d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -752,7 +752,15 @@ fn update_frame(
     let trans_clr = frame.transparent_color();
     let width = usize::from(frame.width());
     let data = frame.image_data.data();
-    for (row, frow) in raster.rows_mut(reg).zip(data.chunks_exact(width)) {
+    let interlaced = frame.image_desc.interlaced();
+    let height = usize::from(frame.height());
+    for (y, row) in raster.rows_mut(reg).enumerate() {
+        let n = if interlaced {
+            interlaced_row(y, height)
+        } else {
+            y
+        };
+        let frow = &data[n * width..(n + 1) * width];
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
@@ -768,6 +776,19 @@ fn update_frame(
     Ok(())
 }
 
+/// Get the position in interlaced image data of the row for one line
+fn interlaced_row(y: usize, height: usize) -> usize {
+    let pass_1 = height.div_ceil(8);
+    let pass_2 = (height + 3) / 8;
+    let pass_3 = (height + 1) / 4;
+    match y % 8 {
+        0 => y / 8,
+        4 => pass_1 + y / 8,
+        2 | 6 => pass_1 + pass_2 + y / 4,
+        _ => pass_1 + pass_2 + pass_3 + y / 2,
+    }
+}
+
 impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
-- 
2.43.0


From dcf97373cc0b2e5dc52e9e57380793d0dcf1a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:58 +0000
Subject: [PATCH 13/20] fix: keep the delay time of decoded steps

---
 gift/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index b533e1d..ef3067e 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -721,8 +721,11 @@ impl<R: Read> StepsOnce<R> {
             let rs = self.raster.as_mut().unwrap();
             rs.copy_color(frame.region(), SRgba8::default());
         }
+        let delay_time_cs =
+            frame.graphic_control_ext.map(|c| c.delay_time_cs());
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(transparent_color)
+            .with_delay_time_cs(delay_time_cs))
     }
 }
 
-- 
2.43.0


From fc4e1f83616c1efb5e8b79ec5ee1b6ff7da7ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:58 +0000
Subject: [PATCH 14/20] fix: apply the image size limit to the logical screen

A large screen made the step decoder panic or use memory without limit.
---
 gift/src/decode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index ef3067e..5c1f6c3 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -673,6 +673,12 @@ impl<R: Read> StepsOnce<R> {
                 self.loop_count_ext = p.loop_count_ext.take();
                 let w = p.screen_width().into();
                 let h = p.screen_height().into();
+                let sz = w as usize * h as usize;
+                // no raster can have more than i32::MAX pixels
+                let max_sz = self.frames.blocks.max_image_sz;
+                if sz > max_sz.unwrap_or(usize::MAX).min(i32::MAX as usize) {
+                    return Err(Error::TooLargeImage);
+                }
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
-- 
2.43.0


From db34325ad3988fdb2d0b134addb8574d07b2600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:58 +0000
Subject: [PATCH 15/20] fix: drop extra image data while decompressing

Highly compressed data could fill memory, whatever the size of the image.
---
 gift/src/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 5c1f6c3..e444531 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -314,7 +314,11 @@ impl<R: Read> Blocks<R> {
             Comment(b) => b.parse_sub_block(bytes),
             Application(b) => b.parse_sub_block(bytes),
             Unknown(b) => b.parse_sub_block(bytes),
-            ImageData(b) => b.parse_sub_block(bytes, &mut self.decompressor)?,
+            ImageData(b) => {
+                b.parse_sub_block(bytes, &mut self.decompressor)?;
+                // Keep one extra byte, so it can be noticed at the end
+                b.data_mut().truncate(self.image_sz + 1);
+            }
             _ => panic!("Invalid state in parse_sub_block!"),
         }
         Ok(())
-- 
2.43.0


From 97d39d6098b7790fd1987a71b64727432d5649a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:59 +0000
Subject: [PATCH 16/20] fix: apply a graphic control to the plain text it
 precedes

It was kept for the next image.
---
 gift/src/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index e444531..51b1636 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -528,6 +528,10 @@ impl<R: Read> Frames<R> {
                     f.comments.push(b);
                 }
             }
+            Block::PlainText(_) => {
+                // Graphic control applies to the plain text only
+                self.graphic_control_ext = None;
+            }
             Block::GraphicControl(b) => {
                 if self.has_frame() {
                     return Err(Error::InvalidBlockSequence);
-- 
2.43.0


From 97fe53d39e70a051adcb3cbd6321aa501cbb8d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:24 +0000
Subject: [PATCH 17/20] fix: write no more than 256 palette entries

---
 gift/src/encode.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5ac087a..9320fb4 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -438,13 +438,15 @@ fn make_image_desc(raster: &Raster<Gray8>) -> Result<ImageDesc> {
 
 /// Make a color table from a palette
 fn make_color_table(palette: &Palette) -> (ColorTableConfig, Vec<u8>) {
+    // A color table cannot have more than 256 entries
+    let len = palette.len().min(256);
     let tbl_cfg = ColorTableConfig::new(
         ColorTableExistence::Present,
         ColorTableOrdering::NotSorted,
-        palette.len() as u16,
+        len as u16,
     );
-    let mut pal = Vec::with_capacity(palette.len() * 3);
-    for clr in palette.colors() {
+    let mut pal = Vec::with_capacity(len * 3);
+    for clr in palette.colors().iter().take(len) {
         pal.push(u8::from(Rgb::red(*clr)));
         pal.push(u8::from(Rgb::green(*clr)));
         pal.push(u8::from(Rgb::blue(*clr)));
-- 
2.43.0


From d238f5fdb03d97846e95b290154b9451f198ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:24 +0000
Subject: [PATCH 18/20] fix: write the configured global color table

StepEnc::with_global_color_table had no effect.
---
 gift/src/encode.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 9320fb4..ae16397 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -370,11 +370,14 @@ impl<W: Write> StepEnc<W> {
         let image_desc = make_image_desc(raster)?;
         let image_data = raster.into();
         let (tbl_cfg, pal) = make_color_table(palette);
+        let (global_cfg, global_color_table) = match &self.global_color_table {
+            (cfg, Some(tbl)) => (*cfg, Some(tbl.clone())),
+            _ => (tbl_cfg, Some(GlobalColorTable::with_colors(&pal[..]))),
+        };
         let logical_screen_desc = LogicalScreenDesc::default()
             .with_screen_width(image_desc.width())
             .with_screen_height(image_desc.height())
-            .with_color_table_config(tbl_cfg);
-        let global_color_table = Some(GlobalColorTable::with_colors(&pal[..]));
+            .with_color_table_config(global_cfg);
         let loop_count_ext = self.loop_count.clone();
         let preamble = Preamble {
             logical_screen_desc,
@@ -390,21 +393,25 @@ impl<W: Write> StepEnc<W> {
                 {
                     return Err(Error::InvalidRasterDimensions);
                 }
-                if pre.global_color_table != preamble.global_color_table {
-                    let frame = Frame::new(
-                        control,
-                        image_desc.with_color_table_config(tbl_cfg),
-                        Some(LocalColorTable::with_colors(&pal[..])),
-                        image_data,
-                    );
-                    return self.frame_enc.encode_frame(&frame);
-                }
             }
             None => {
                 self.frame_enc.encode_preamble(&preamble)?;
                 self.preamble = Some(preamble);
             }
         }
+        let global_color_table = self
+            .preamble
+            .as_ref()
+            .and_then(|pre| pre.global_color_table.as_ref());
+        if global_color_table.map(|tbl| tbl.colors()) != Some(&pal[..]) {
+            let frame = Frame::new(
+                control,
+                image_desc.with_color_table_config(tbl_cfg),
+                Some(LocalColorTable::with_colors(&pal[..])),
+                image_data,
+            );
+            return self.frame_enc.encode_frame(&frame);
+        }
         let frame = Frame::new(control, image_desc, None, image_data);
         self.frame_enc.encode_frame(&frame)
     }
-- 
2.43.0


From dbcb718b4f1c2546a9a93d12a58ef99593f94dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:34 +0000
Subject: [PATCH 19/20] fix: Frames::preamble made up a preamble after the
 first frame

---
 gift/src/decode.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 51b1636..b940ce0 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -439,6 +439,8 @@ pub struct Frames<R: Read> {
     image_desc: Option<ImageDesc>,
     /// Local color table block
     local_color_table: Option<LocalColorTable>,
+    /// Flag when a frame has been read
+    begun: bool,
 }
 
 impl<R: Read> Iterator for Frames<R> {
@@ -473,13 +475,14 @@ impl<R: Read> Frames<R> {
             graphic_control_ext: None,
             image_desc: None,
             local_color_table: None,
+            begun: false,
         }
     }
 
     /// Read preamble blocks.  These are the blocks at the beginning of the
     /// file, before any frame blocks.
     pub fn preamble(&mut self) -> Result<Option<Preamble>> {
-        if self.has_frame() {
+        if self.begun || self.has_frame() {
             return Ok(None);
         }
         self.preamble = Some(Preamble::default());
@@ -558,11 +561,14 @@ impl<R: Read> Frames<R> {
                         local_color_table,
                         image_data,
                     );
+                    self.begun = true;
                     return Ok(Some(f));
                 } else {
                     return Err(Error::InvalidBlockSequence);
                 }
             }
+            // Another GIF may follow in the same stream
+            Block::Trailer(_) => self.begun = false,
             _ => {}
         }
         Ok(None)
-- 
2.43.0


From 9d5aec56ba19e068c509a4041d241b26bb403239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:48 +0000
Subject: [PATCH 20/20] fix: graphic control before the trailer applied to the
 next GIF of the stream

---
 gift/src/decode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index b940ce0..f92e39d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -568,7 +568,10 @@ impl<R: Read> Frames<R> {
                 }
             }
             // Another GIF may follow in the same stream
-            Block::Trailer(_) => self.begun = false,
+            Block::Trailer(_) => {
+                self.graphic_control_ext = None;
+                self.begun = false;
+            }
             _ => {}
         }
         Ok(None)
-- 
2.43.0

