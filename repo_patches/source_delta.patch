From d35201ccca1e7c73f55ca701a2bff52a7a69a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 1/8] fix: progressive encoding with more than 33 scans must
 not emit empty spectral bands

Splitting 64 instead of the 63 AC coefficients gave the first AC scan the
band 1..0 as soon as there was less than two coefficients per scan.
---
 src/encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..c5f5718 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -892,15 +892,15 @@ impl<W: JfifWrite> Encoder<W> {
         // Phase 2: AC scans
         let scans = scans as usize - 1;
 
-        let values_per_scan = 64 / scans;
+        let values_per_scan = 63 / scans;
 
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
+            let start = 1 + scan * values_per_scan;
             let end = if scan == scans - 1 {
                 // ensure last scan is always transfers the remaining coefficients
                 64
             } else {
-                (scan + 1) * values_per_scan
+                start + values_per_scan
             };
 
             for (i, component) in self.components.iter().enumerate() {
@@ -1090,15 +1090,15 @@ impl<W: JfifWrite> Encoder<W> {
                     if let Some(scans) = self.progressive_scans {
                         let scans = scans as usize - 1;
 
-                        let values_per_scan = 64 / scans;
+                        let values_per_scan = 63 / scans;
 
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
+                            let start = 1 + scan * values_per_scan;
                             let end = if scan == scans - 1 {
                                 // Due to rounding we might need to transfer more than values_per_scan values in the last scan
                                 64
                             } else {
-                                (scan + 1) * values_per_scan
+                                start + values_per_scan
                             };
 
                             debug_assert!(!blocks[i].is_empty());
-- 
2.43.0


From 7962ad25927d5aac113799bad5d0689608ab0d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 2/8] fix: count DC differences of restart intervals for
 optimized huffman tables

The DC prediction is reset at every restart marker, but the symbol statistics
ignored this. A category only used directly after a restart marker had no code.
---
 src/encoder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index c5f5718..e7ac207 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1073,7 +1073,14 @@ impl<W: JfifWrite> Encoder<W> {
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
+
+                    for (block_nr, block) in blocks[i].iter().enumerate() {
+                        // The DC prediction starts over after every restart marker
+                        if restart_interval > 0 && block_nr % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 136e339216e32b070d98a6693d264240ca553aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 3/8] fix: limit custom quantization tables to the 8 bit values
 that are written to the file

Values above 255 were used for quantization but truncated in the DQT segment.
---
 src/quantization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..37007cd 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,7 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From 91f620034769b5f950d0bd880cfcf67ca8abd9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 4/8] fix: accept ICC profiles with the documented maximum
 length

The documented 16,707,345 bytes need 255 chunks.
---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index e7ac207..dfa132a 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From 6c7fc5a749396adaf45c215a1a80c925b0af321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 5/8] fix: optimized huffman tables with code sizes above 32

Very skewed frequencies lead to an out of bounds panic.
---
 src/huffman.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..0515df0 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,8 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // With 257 symbols a code can be up to 256 bits long
+        let mut bits = [0u8; 257];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +168,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = 256;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +198,7 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        for i in 1..=256 {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From 0c1553b1b662d3e2a907f0d8cafa3d996d4f6a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 6/8] fix: round all 16 bit lanes in the second pass of the
 AVX2 fdct

The rounding constant was set per 32 bit lane, so every other coefficient of
the first and fifth row was truncated and differed from the scalar version.
---
 src/avx2/fdct.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..efd9dcd 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -10,19 +10,19 @@
 #[cfg(target_arch = "x86")]
 use core::arch::x86::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
-    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set1_epi16,
+    _mm256_set_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 const CONST_BITS: i32 = 13;
@@ -188,16 +188,7 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-        )
+        _mm256_set1_epi16(1 << (PASS1_BITS - 1))
     }
 
     // In-place 8x8x16-bit matrix transpose using AVX2 instructions
-- 
2.43.0


From 40eb3f82a49a0f2046f62c6f91646117a07da671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 7/8] fix: report errors from flushing the writer

encode returned Ok before the buffered data was written. BufWriter ignores
errors on drop, so failed writes with Encoder::new_file were lost silently.
---
 src/encoder.rs |  1 +
 src/writer.rs  | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/encoder.rs b/src/encoder.rs
index dfa132a..7a77d42 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -528,6 +528,7 @@ impl<W: JfifWrite> Encoder<W> {
         }
 
         self.writer.write_marker(Marker::EOI)?;
+        self.writer.flush()?;
 
         Ok(())
     }
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..4364a2e 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,14 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Flushes buffered data. Called once after the image has been written completely.
+    /// # Errors
+    ///
+    /// Return an error if the data can't be written
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +53,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        (**self).flush()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +74,11 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    fn flush(&mut self) -> Result<(), EncodingError> {
+        std::io::Write::flush(self)?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -84,6 +101,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(buf)
     }
 
+    pub fn flush(&mut self) -> Result<(), EncodingError> {
+        self.w.flush()
+    }
+
     #[inline(always)]
     pub fn write_u8(&mut self, value: u8) -> Result<(), EncodingError> {
         self.w.write_all(&[value])
-- 
2.43.0


From 3c089884a1af723e705387899e15a64d266373a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 8/8] fix: use 64 bit symbol counts for optimized huffman
 tables

The counts of large images can exceed 32 bits when they are summed up.
---
 src/encoder.rs | 4 ++--
 src/huffman.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 7a77d42..afd0b04 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1058,9 +1058,9 @@ impl<W: JfifWrite> Encoder<W> {
         let max_tables = self.components.len().min(2) as u8;
 
         for table in 0..max_tables {
-            let mut dc_freq = [0u32; 257];
+            let mut dc_freq = [0u64; 257];
             dc_freq[256] = 1;
-            let mut ac_freq = [0u32; 257];
+            let mut ac_freq = [0u64; 257];
             ac_freq[256] = 1;
 
             let mut had_ac = false;
diff --git a/src/huffman.rs b/src/huffman.rs
index 0515df0..a67f811 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -96,7 +96,7 @@ impl HuffmanTable {
 
     /// Generates an optimized huffman table as described in Section K.2
     #[allow(clippy::needless_range_loop)]
-    pub fn new_optimized(mut freq: [u32; 257]) -> HuffmanTable {
+    pub fn new_optimized(mut freq: [u64; 257]) -> HuffmanTable {
         let mut others = [-1i32; 257];
         let mut codesize = [0usize; 257];
 
@@ -104,7 +104,7 @@ impl HuffmanTable {
         // Figure K.1
         loop {
             let mut v1 = None;
-            let mut v1_min = u32::MAX;
+            let mut v1_min = u64::MAX;
 
             // Find the largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
@@ -120,7 +120,7 @@ impl HuffmanTable {
             };
 
             let mut v2 = None;
-            let mut v2_min = u32::MAX;
+            let mut v2_min = u64::MAX;
 
             // Find the next largest value with the least non zero frequency
             for (i, &f) in freq.iter().enumerate() {
-- 
2.43.0

