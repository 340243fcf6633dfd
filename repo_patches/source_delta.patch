From 33ff66595c5c5d7040e375067b0a2b8940f3b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:39 +0000
Subject: [PATCH 01/20] fix: correct all error patterns within capacity

Solving for the error locations divided by zero coefficients (0/x gave 1/x
and x/0 gave x), so about one in ten correctable blocks was rejected.
---
 src/decode/qr/correct.rs | 20 ++++++++++++--------
 src/decode/qr/galois.rs  |  4 ++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 6d02755..93b91d8 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -85,7 +85,7 @@ fn find_locs(block_info: &BlockInfo, syndromes: &[GF8]) -> Result<Vec<usize>, QR
         eq[i][..=z].clone_from_slice(&syndromes[i..(z + 1 + i)]);
     }
 
-    let sigma = solve(eq, GF8(0), GF8(1), false);
+    let sigma = solve(eq, GF8(0), false);
 
     let sigma = sigma.ok_or(QRError {
         msg: String::from("Could not calculate SIGMA"),
@@ -123,10 +123,10 @@ fn calculate_distances(syndromes: &[GF8], locs: &[usize]) -> Option<Vec<GF8>> {
         eq[i][locs.len()] = syndromes[i];
     }
 
-    solve(eq, GF8(0), GF8(1), false)
+    solve(eq, GF8(0), false)
 }
 
-fn solve<T>(mut eq: Vec<Vec<T>>, zero: T, one: T, fail_on_rank: bool) -> Option<Vec<T>>
+fn solve<T>(mut eq: Vec<Vec<T>>, zero: T, fail_on_rank: bool) -> Option<Vec<T>>
 where
     T: Div<Output = T> + Mul<Output = T> + Sub<Output = T> + Copy + PartialEq,
 {
@@ -141,6 +141,15 @@ where
     }
 
     for i in 0..num_eq {
+        // Make sure the coefficient to divide by is nonzero, if needed by swapping in another equation
+        match (i..num_eq).find(|j| eq[*j][i] != zero) {
+            Some(j) => eq.swap(i, j),
+            // If the rank is too low, can't solve
+            None if fail_on_rank => return None,
+            // There are fewer errors than equations, any solution will do
+            None => continue,
+        }
+
         // normalise equation
         for j in (i..num_coeff).rev() {
             // divide all coefficients by the first nonzero
@@ -155,11 +164,6 @@ where
                 eq[j][k] = eq[j][k] - (eq[j][i] * eq[i][k]);
             }
         }
-
-        // If the rank is too low, can't solve
-        if fail_on_rank && eq[i][num_coeff - 1] == one {
-            return None;
-        }
     }
 
     let mut solution = vec![zero; num_eq];
diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 208881e..62b3fa5 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -46,6 +46,10 @@ impl Div<GF8> for GF8 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF8) -> GF8 {
+        if self.0 == 0 {
+            return EXP8[255];
+        }
+
         let log_self = LOG8[self.0 as usize];
         let log_other = LOG8[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From d1f809e93d4568717a417018be307d621d22fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 02/20] fix: do not accept blocks that are still corrupted
 after correction

Only one syndrome was checked after correcting, so blocks damaged beyond
capacity were returned as if they had been fixed. Check all of them.
---
 src/decode/qr/correct.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/correct.rs b/src/decode/qr/correct.rs
index 93b91d8..9442b64 100644
--- a/src/decode/qr/correct.rs
+++ b/src/decode/qr/correct.rs
@@ -42,7 +42,9 @@ pub fn correct_with_error_count(
         block[block_info.total_per as usize - 1 - locs[i] as usize] ^= distance[i].0;
     }
 
-    if syndrome(&block, EXP8[0]) != GF8(0) {
+    let (all_fixed, _) = calculate_syndromes(&block, block_info);
+
+    if !all_fixed {
         return Err(QRError {
             msg: String::from("Error correcting did not fix corrupted data"),
         });
@@ -52,10 +54,11 @@ pub fn correct_with_error_count(
 }
 
 fn calculate_syndromes(block: &[u8], block_info: &BlockInfo) -> (bool, Vec<GF8>) {
-    let mut syndromes = vec![GF8(0); (block_info.ec_cap * 2) as usize];
+    let ec_per = block_info.total_per - block_info.data_per;
+    let mut syndromes = vec![GF8(0); ec_per as usize];
 
     let mut all_fine = true;
-    for i in 0..block_info.ec_cap * 2 {
+    for i in 0..ec_per {
         syndromes[i as usize] = syndrome(block, EXP8[i as usize]);
         if syndromes[i as usize] != GF8(0) {
             all_fine = false;
-- 
2.43.0


From c3a23ba2c3dc36248cd1849eefbd6e27be99150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 03/20] fix: correct up to three errors anywhere in the format
 information

An error in the last bit was never corrected, some patterns of three errors
were not recognised as errors at all and others were miscalculated because
of division of or by zero.
---
 src/decode/qr/format.rs | 49 ++++++++++++++++++-----------------------
 src/decode/qr/galois.rs |  4 ++++
 2 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/decode/qr/format.rs b/src/decode/qr/format.rs
index 4350edb..da35a16 100644
--- a/src/decode/qr/format.rs
+++ b/src/decode/qr/format.rs
@@ -65,41 +65,26 @@ fn format2(data: &QRData) -> Result<Vec<u8>, QRError> {
 }
 
 fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
-    let mut s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
+    let (s1, s3, s5) = syndromes(&format);
 
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if (s1, s3, s5) == (GF4(0), GF4(0), GF4(0)) {
+        // all syndromes == 0, no error detected
         return Ok(format);
     }
 
     let s2 = s1 * s1;
     let s4 = s2 * s2;
 
-    let mut s3 = GF4(0);
-    let mut s5 = GF4(0);
-
-    for i in 0..format.len() {
-        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
-        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
-    }
-
     let sigma1 = s1;
     let sigma2 = ((s5 + s4 * sigma1) - s2 * (s3 + s2 * sigma1)) / (s3 - s1 * s2);
     let sigma3 = s3 + s2 * sigma1 + s1 * sigma2;
 
     let mut error_pos = vec![];
 
-    for i in 0..16 {
+    for i in 1..16 {
         let x = GF4(i);
         if sigma3 + sigma2 * x + sigma1 * x * x + x * x * x == GF4(0) {
-            let log = LOG4[i as usize];
-            if log != 0 {
-                error_pos.push(log);
-            }
+            error_pos.push(LOG4[i as usize]);
         }
     }
 
@@ -108,14 +93,8 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
         format[len - error as usize - 1] ^= 1;
     }
 
-    s1 = GF4(0);
-
-    for i in 0..format.len() {
-        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
-    }
-
-    if s1 == GF4(0) {
-        // syndrome == 0, no error detected
+    if syndromes(&format) == (GF4(0), GF4(0), GF4(0)) {
+        // all syndromes == 0, no error detected
         return Ok(format);
     }
 
@@ -124,6 +103,20 @@ fn correct(mut format: Vec<u8>) -> Result<Vec<u8>, QRError> {
     })
 }
 
+fn syndromes(format: &[u8]) -> (GF4, GF4, GF4) {
+    let mut s1 = GF4(0);
+    let mut s3 = GF4(0);
+    let mut s5 = GF4(0);
+
+    for i in 0..format.len() {
+        s1 = s1 + GF4(format[format.len() - i - 1]) * EXP4[i % 15];
+        s3 = s3 + GF4(format[format.len() - i - 1]) * EXP4[(3 * i) % 15];
+        s5 = s5 + GF4(format[format.len() - i - 1]) * EXP4[(5 * i) % 15];
+    }
+
+    (s1, s3, s5)
+}
+
 fn error_correction(bytes: u8) -> Option<ECLevel> {
     match bytes {
         0b01 => Some(ECLevel::LOW),
diff --git a/src/decode/qr/galois.rs b/src/decode/qr/galois.rs
index 62b3fa5..09ff935 100644
--- a/src/decode/qr/galois.rs
+++ b/src/decode/qr/galois.rs
@@ -102,6 +102,10 @@ impl Div<GF4> for GF4 {
 
     #[allow(clippy::suspicious_arithmetic_impl)]
     fn div(self, other: GF4) -> GF4 {
+        if self.0 == 0 {
+            return EXP4[15];
+        }
+
         let log_self = LOG4[self.0 as usize];
         let log_other = LOG4[other.0 as usize];
         let mut diff = i16::from(log_self) - i16::from(log_other);
-- 
2.43.0


From f19f1a38e25b7df8713140c573616c540932f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 04/20] fix: keep track of the bits left when chomping part of
 a byte

Bits taken from within a byte were not subtracted from the bits left, so a
refused request could eat bits and make later valid requests fail. Also
refuse requests of more than 16 bits as documented.
---
 src/util/chomp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/chomp.rs b/src/util/chomp.rs
index e31e9cf..8ce8d81 100644
--- a/src/util/chomp.rs
+++ b/src/util/chomp.rs
@@ -59,6 +59,10 @@ impl Chomp {
     /// Try to chomp `nr_bits` bits. If not enough bits are left, or requesting more than 16 bits the provided `err` will be returned
     /// If requesting fewer than 16 bits, the result will be in the least significant bits of the u16
     pub fn chomp_or_u16<E: Clone>(&mut self, nr_bits: u8, err: E) -> Result<u16, E> {
+        if nr_bits > 16 || BitCount(nr_bits as usize) > self.bits_left {
+            return Err(err);
+        }
+
         let mut bits = nr_bits;
 
         let mut result: u16 = 0;
@@ -125,6 +129,7 @@ impl Chomp {
             *byte <<= nr_bits.0;
 
             self.bits_left_in_byte -= nr_bits;
+            self.bits_left -= nr_bits;
 
             Some(result)
         } else {
-- 
2.43.0


From b3bf82653fed62f85a411b41e7dfddbbeb7a4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 05/20] fix: return an error for an invalid last alphanumeric
 character

The last character of an odd number of characters is read from 6 bits,
values above 44 caused an index out of bounds panic.
---
 src/decode/qr/data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index 5643416..cff46ea 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -123,6 +123,13 @@ fn alphanumeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
         if length == 1 {
             let chars = read_bits_u16(chomp, 6)?;
+
+            if chars > 44 {
+                return Err(QRError {
+                    msg: format!("Invalid character in alphanumeric data {}", chars),
+                });
+            }
+
             result.push(ALPHANUMERIC[chars as usize]);
 
             break;
-- 
2.43.0


From a92cd85b2ed261517d6b8b6aff7341408636ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 06/20] fix: return an error for invalid digits in numeric data

Groups of digits with a value that does not fit in the number of digits
were returned as if they had an extra digit.
---
 src/decode/qr/data.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/decode/qr/data.rs b/src/decode/qr/data.rs
index cff46ea..8afc92c 100644
--- a/src/decode/qr/data.rs
+++ b/src/decode/qr/data.rs
@@ -45,7 +45,7 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
 
     while length > 0 {
         if length >= 3 {
-            let digits = read_bits_u16(chomp, 10)?;
+            let digits = read_digits(chomp, 10, 999)?;
             result.push_str(&format!("{:03}", digits));
 
             length -= 3;
@@ -53,14 +53,14 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
         }
 
         if length == 2 {
-            let digits = read_bits_u16(chomp, 7)?;
+            let digits = read_digits(chomp, 7, 99)?;
             result.push_str(&format!("{:02}", digits));
 
             break;
         }
 
         if length == 1 {
-            let digits = read_bits_u16(chomp, 4)?;
+            let digits = read_digits(chomp, 4, 9)?;
             result.push_str(&format!("{:01}", digits));
 
             break;
@@ -72,6 +72,18 @@ fn numeric(chomp: &mut Chomp, version: u32) -> Result<String, QRError> {
     Ok(result)
 }
 
+fn read_digits(chomp: &mut Chomp, bits: u8, max: u16) -> Result<u16, QRError> {
+    let digits = read_bits_u16(chomp, bits)?;
+
+    if digits > max {
+        return Err(QRError {
+            msg: format!("Invalid digits in numeric data {}", digits),
+        });
+    }
+
+    Ok(digits)
+}
+
 const ALPHANUMERIC: [char; 45] = [
     '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I',
     'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z', ' ', '$',
-- 
2.43.0


From 40183e05a073a7e682b048bc8cbdf6ae0eb8a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 07/20] fix: do not let a look-alike next to a finder pattern
 hide it

Any candidate within 7 modules of an earlier one was dropped as a repeat, also
when the earlier one was a chance pattern in the data modules sharing an edge
with the real finder (6 modules away), so some clean codes were not found.
---
 src/detect/linescan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 3c26e3b..a1509b0 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -80,7 +80,7 @@ impl Detect<GrayImage> for LineScan {
             };
 
             for candidate in &candidates {
-                if dist(&finder, &candidate.location) < 7.0 * module_size {
+                if dist(&finder, &candidate.location) < 5.0 * module_size {
                     // The candidate location we have found was already detected and stored on a previous line.
                     last_pixel = p.channels()[0];
                     pattern.slide();
-- 
2.43.0


From 2dc26ddb561d5bb38c3f9901190b87ab79613e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 08/20] fix: return an error for a code that extends beyond the
 image

Sampling a module outside the right or bottom edge panicked.
---
 src/extract/qr/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 30fda7f..9e1a59a 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -57,7 +57,14 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             for _ in 0..size {
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
-                let pixel = prepared.get_pixel(x, y)[0];
+                let pixel = match prepared.get_pixel_checked(x, y) {
+                    Some(pixel) => pixel[0],
+                    None => {
+                        return Err(QRError {
+                            msg: String::from("QR Code extends beyond the image"),
+                        });
+                    }
+                };
 
                 #[cfg(feature = "debug-images")]
                 {
-- 
2.43.0


From f2807432f797081533d9d9cae799f543c15a2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 09/20] fix: check that all corners of an alignment pattern are
 inside the image

Only two opposite corners were checked, which panicked for codes that are not
upright when the other two are outside the right or bottom edge.
---
 src/extract/qr/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 9e1a59a..efb02c6 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -324,16 +324,23 @@ fn is_alignment(prepared: &GrayImage, p: Point, dx: Delta, dy: Delta, scale: f64
         }
     }
 
-    let top_left = p - 2.0 * dx - 2.0 * dy;
-    if top_left.x < 0.0 || top_left.y < 0.0 {
-        return false;
-    }
-
-    let bottom_right = p + 2.0 * dx + 2.0 * dy;
+    // All four corners have to be inside the image, as the code can have any orientation
     let dims = prepared.dimensions();
+    let corners = [
+        p - 2.0 * dx - 2.0 * dy,
+        p + 2.0 * dx - 2.0 * dy,
+        p - 2.0 * dx + 2.0 * dy,
+        p + 2.0 * dx + 2.0 * dy,
+    ];
+
+    for corner in &corners {
+        if corner.x < 0.0 || corner.y < 0.0 {
+            return false;
+        }
 
-    if bottom_right.x.round() >= f64::from(dims.0) || bottom_right.y.round() >= f64::from(dims.1) {
-        return false;
+        if corner.x.round() >= f64::from(dims.0) || corner.y.round() >= f64::from(dims.1) {
+            return false;
+        }
     }
 
     for x in -2..2 {
-- 
2.43.0


From c68366b48ed67159b6eb1ad9578ac2996656319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 10/20] fix: count the last blocks of the image in the local
 mean

The partial blocks at the right and bottom edge were left out of every mean, and
images smaller than one block (or a block mean size of 1) panicked as there
were no blocks left to take the mean of.
---
 src/prepare/blockedmean.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index 8100593..caec3b9 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -87,6 +87,7 @@ impl BlockedMean {
         height: ImageCoord,
     ) -> Vec<Stats> {
         let block_stride = BlockCoord((self.block_mean_size.0 - 1) / 2);
+        let end_stride = max(BlockCoord(1), block_stride);
         let (block_width, block_height) = as_block_coords(width, height, self.block_size);
 
         let mut block_means = vec![
@@ -102,9 +103,9 @@ impl BlockedMean {
         for block_x in range_inc(BlockCoord(0), block_width) {
             for block_y in range_inc(BlockCoord(0), block_height) {
                 let x_start = max(BlockCoord(0), block_x.saturating_sub(block_stride));
-                let x_end = min(block_width, block_x + block_stride);
+                let x_end = min(block_width + BlockCoord(1), block_x + end_stride);
                 let y_start = max(BlockCoord(0), block_y.saturating_sub(block_stride));
-                let y_end = min(block_height, block_y + block_stride);
+                let y_end = min(block_height + BlockCoord(1), block_y + end_stride);
 
                 let mut total = 0;
                 let mut count = 0;
-- 
2.43.0


From 9dddf99832127470d27f5cb5cb7a64d3b8b0558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 11/20] fix: bound debug images by their height

The y coordinates were bounded by the width, which panicked for codes at the
bottom of a landscape image when the debug-images feature is on.
---
 src/detect/linescan.rs | 2 +-
 src/extract/qr/mod.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index a1509b0..147f57c 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -135,7 +135,7 @@ impl Detect<GrayImage> for LineScan {
                 let x_start = (loc.x - 3.5 * c.module_size).max(0.0_f64) as u32;
                 let x_end = min(img.dimensions().0, (loc.x + 3.5 * c.module_size) as u32);
                 let y_start = (loc.y - 3.5 * c.module_size).max(0.0_f64) as u32;
-                let y_end = min(img.dimensions().0, (loc.y + 3.5 * c.module_size) as u32);
+                let y_end = min(img.dimensions().1, (loc.y + 3.5 * c.module_size) as u32);
 
                 for x in x_start..x_end {
                     for y in y_start..y_end {
diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index efb02c6..73423d2 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -70,7 +70,7 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
                 {
                     if pixel == 0 {
                         for i in max(0, x.saturating_sub(2))..min(img.dimensions().0, x + 2) {
-                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().0, y + 2) {
+                            for j in max(0, y.saturating_sub(2))..min(img.dimensions().1, y + 2) {
                                 img.put_pixel(i, j, Rgb([255, 0, 0]));
                             }
                         }
@@ -243,7 +243,7 @@ fn determine_perspective(
         );
         let y_start = max(0, (est_alignment.y - 2.5 * loc.module_size) as u32);
         let y_end = min(
-            img.dimensions().0,
+            img.dimensions().1,
             (est_alignment.y + 2.5 * loc.module_size) as u32,
         );
 
-- 
2.43.0


From 169b14187dc7df3120eafbe109eb373272c6162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:50 +0000
Subject: [PATCH 12/20] fix: do not take the first line of a finder after a
 wide gap for noise

---
 src/detect/linescan.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 147f57c..532196c 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -46,17 +46,21 @@ impl Detect<GrayImage> for LineScan {
 
         let mut last_pixel = 127;
         let mut pattern = QRFinderPattern::new();
+        // The same without ignoring noise: the first line of a finder after a wide gap is not noise
+        let mut exact = QRFinderPattern::new();
         'pixels: for (x, y, p) in prepared.enumerate_pixels() {
             // Step 1
             // A new line, construct a new QRFinderPattern
             if x == 0 {
                 last_pixel = 127;
                 pattern = QRFinderPattern::new();
+                exact = QRFinderPattern::new();
             }
 
             // A pixel of the same color, add to the count in the last position
             if p.channels()[0] == last_pixel {
                 pattern.6 += 1;
+                exact.6 += 1;
 
                 if x != prepared.dimensions().0 - 1 {
                     continue 'pixels;
@@ -65,13 +69,16 @@ impl Detect<GrayImage> for LineScan {
 
             // A pixel color switch, but the current pattern does not look like a finder
             // Slide the pattern and continue searching
-            if !pattern.looks_like_finder() {
+            let mut module_size = if pattern.looks_like_finder() {
+                pattern.est_mod_size()
+            } else if exact.looks_like_finder() {
+                exact.est_mod_size()
+            } else {
                 last_pixel = p.channels()[0];
                 pattern.slide();
+                exact.shift();
                 continue 'pixels;
-            }
-
-            let mut module_size = pattern.est_mod_size();
+            };
 
             // A finder pattern is 1-1-3-1-1 modules wide, so subtract 3.5 modules to get the x coordinate in the center
             let mut finder = Point {
@@ -84,6 +91,7 @@ impl Detect<GrayImage> for LineScan {
                     // The candidate location we have found was already detected and stored on a previous line.
                     last_pixel = p.channels()[0];
                     pattern.slide();
+                    exact.shift();
 
                     continue 'pixels;
                 }
@@ -97,6 +105,7 @@ impl Detect<GrayImage> for LineScan {
                 if vert.is_none() {
                     last_pixel = p.channels()[0];
                     pattern.slide();
+                    exact.shift();
 
                     continue 'pixels;
                 }
@@ -120,6 +129,7 @@ impl Detect<GrayImage> for LineScan {
 
             last_pixel = p.channels()[0];
             pattern.slide();
+            exact.shift();
         }
 
         debug!("Candidate QR Locators {:#?}", candidates);
@@ -383,17 +393,21 @@ impl QRFinderPattern {
             self.1 = self.0;
             self.0 = 0;
         } else {
-            // the pixels inverted so slide the pattern down and start a new count in the last position
-            self.0 = self.1;
-            self.1 = self.2;
-            self.2 = self.3;
-            self.3 = self.4;
-            self.4 = self.5;
-            self.5 = self.6;
-            self.6 = 1;
+            self.shift();
         }
     }
 
+    fn shift(&mut self) {
+        // the pixels inverted so slide the pattern down and start a new count in the last position
+        self.0 = self.1;
+        self.1 = self.2;
+        self.2 = self.3;
+        self.3 = self.4;
+        self.4 = self.5;
+        self.5 = self.6;
+        self.6 = 1;
+    }
+
     fn est_mod_size(&self) -> f64 {
         f64::from(self.2 + self.3 + self.4 + self.5 + self.6) / 7.0
     }
-- 
2.43.0


From eb21d3c2425ae169c0443978728a93a2a38d66e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 13/20] fix: measure a finder again through its center when the
 code is tilted

---
 src/detect/linescan.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 532196c..8187249 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -99,6 +99,7 @@ impl Detect<GrayImage> for LineScan {
 
             // Step 2
             // Run the refinement functions on the candidate location
+            let candidate_x = finder.x;
             for (refine_func, dx, dy, is_diagonal) in &refine_func {
                 let vert = refine_func(self, prepared, &finder, module_size);
 
@@ -121,6 +122,24 @@ impl Detect<GrayImage> for LineScan {
                 }
             }
 
+            // The vertical refinement was not through the center when the code is tilted, so check again
+            // that there is a pattern, and where it is if the center turned out to be somewhere else
+            match self.refine_vertical(prepared, &finder, module_size) {
+                Some(vert) => {
+                    if (finder.x - candidate_x).abs() > module_size / 2.0 {
+                        finder.y = vert.location.y - 3.5 * vert.last_module_size;
+                    }
+                    module_size = vert.module_size;
+                }
+                None => {
+                    last_pixel = p.channels()[0];
+                    pattern.slide();
+                    exact.shift();
+
+                    continue 'pixels;
+                }
+            }
+
             candidates.push(QRFinderPosition {
                 location: finder,
                 module_size,
-- 
2.43.0


From fb8d85a3f044e039ad5f51369f1ddd5aba477041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 14/20] fix: do not let a pixel of noise in the middle of a
 finder hide it

---
 src/detect/linescan.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index 8187249..aed5e1e 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -101,7 +101,7 @@ impl Detect<GrayImage> for LineScan {
             // Run the refinement functions on the candidate location
             let candidate_x = finder.x;
             for (refine_func, dx, dy, is_diagonal) in &refine_func {
-                let vert = refine_func(self, prepared, &finder, module_size);
+                let vert = refine_near(refine_func, self, prepared, &finder, module_size, *dx > *dy);
 
                 if vert.is_none() {
                     last_pixel = p.channels()[0];
@@ -124,7 +124,8 @@ impl Detect<GrayImage> for LineScan {
 
             // The vertical refinement was not through the center when the code is tilted, so check again
             // that there is a pattern, and where it is if the center turned out to be somewhere else
-            match self.refine_vertical(prepared, &finder, module_size) {
+            let (refine_vertical, ..) = &refine_func[0];
+            match refine_near(refine_vertical, self, prepared, &finder, module_size, false) {
                 Some(vert) => {
                     if (finder.x - candidate_x).abs() > module_size / 2.0 {
                         finder.y = vert.location.y - 3.5 * vert.last_module_size;
@@ -466,6 +467,33 @@ impl QRFinderPattern {
     }
 }
 
+// In a finder of some size, noise on the very line that is checked should not hide it,
+// so try the lines next to it as well
+fn refine_near(
+    refine_func: &Refine,
+    scan: &LineScan,
+    prepared: &GrayImage,
+    finder: &Point,
+    module_size: f64,
+    is_horizontal: bool,
+) -> Option<QRFinderPosition> {
+    let offsets: &[f64] = if module_size < 8.0 {
+        &[0.0]
+    } else {
+        &[0.0, 1.0, -1.0]
+    };
+
+    offsets.iter().find_map(|offset| {
+        let mut near = *finder;
+        if is_horizontal {
+            near.y += offset;
+        } else {
+            near.x += offset;
+        }
+        refine_func(scan, prepared, &near, module_size)
+    })
+}
+
 #[inline]
 fn diff(a: f64, b: f64) -> f64 {
     if a > b {
-- 
2.43.0


From 340c4156fcf4d0a80c31ec3fbe13a4e8be2c7066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 15/20] fix: do not let a look-alike of another size hide a
 finder

---
 src/detect/linescan.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index aed5e1e..d8fe498 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -86,15 +86,13 @@ impl Detect<GrayImage> for LineScan {
                 y: f64::from(y),
             };
 
-            for candidate in &candidates {
-                if dist(&finder, &candidate.location) < 5.0 * module_size {
-                    // The candidate location we have found was already detected and stored on a previous line.
-                    last_pixel = p.channels()[0];
-                    pattern.slide();
-                    exact.shift();
+            if is_known(&candidates, &finder, module_size) {
+                // The candidate location we have found was already detected and stored on a previous line.
+                last_pixel = p.channels()[0];
+                pattern.slide();
+                exact.shift();
 
-                    continue 'pixels;
-                }
+                continue 'pixels;
             }
 
             // Step 2
@@ -141,11 +139,13 @@ impl Detect<GrayImage> for LineScan {
                 }
             }
 
-            candidates.push(QRFinderPosition {
-                location: finder,
-                module_size,
-                last_module_size: 0.0,
-            });
+            if !is_known(&candidates, &finder, module_size) {
+                candidates.push(QRFinderPosition {
+                    location: finder,
+                    module_size,
+                    last_module_size: 0.0,
+                });
+            }
 
             last_pixel = p.channels()[0];
             pattern.slide();
@@ -467,6 +467,14 @@ impl QRFinderPattern {
     }
 }
 
+// Something of a different size nearby is a look-alike that must not hide the finder
+fn is_known(candidates: &[QRFinderPosition], finder: &Point, module_size: f64) -> bool {
+    candidates.iter().any(|candidate| {
+        dist(finder, &candidate.location) < 3.5 * module_size
+            && diff(module_size, candidate.module_size) < 0.25
+    })
+}
+
 // In a finder of some size, noise on the very line that is checked should not hide it,
 // so try the lines next to it as well
 fn refine_near(
-- 
2.43.0


From 7ebbf5018c618d6462b66ddf20b9dca958a85ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 16/20] fix: return an error for a code that extends beyond the
 left or top of the image

---
 src/extract/qr/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extract/qr/mod.rs b/src/extract/qr/mod.rs
index 73423d2..7aeee10 100644
--- a/src/extract/qr/mod.rs
+++ b/src/extract/qr/mod.rs
@@ -55,11 +55,12 @@ impl Extract<GrayImage, QRLocation, QRData, QRError> for QRExtractor {
             let mut line = start - 3.0 * dx;
 
             for _ in 0..size {
+                let inside = line.x.round() >= 0.0 && line.y.round() >= 0.0;
                 let x = line.x.round() as u32;
                 let y = line.y.round() as u32;
                 let pixel = match prepared.get_pixel_checked(x, y) {
-                    Some(pixel) => pixel[0],
-                    None => {
+                    Some(pixel) if inside => pixel[0],
+                    _ => {
                         return Err(QRError {
                             msg: String::from("QR Code extends beyond the image"),
                         });
-- 
2.43.0


From 83b704013e39c0b5f811783191b6e74be2ab37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 17/20] fix: return an empty prepared image for a picture
 without pixels

---
 src/prepare/blockedmean.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prepare/blockedmean.rs b/src/prepare/blockedmean.rs
index caec3b9..f432666 100644
--- a/src/prepare/blockedmean.rs
+++ b/src/prepare/blockedmean.rs
@@ -34,6 +34,12 @@ impl BlockedMean {
 
 impl <D> Prepare<D, GrayImage> for BlockedMean where D: GenericImageView<Pixel = Rgba<u8>> {
     fn prepare(&self, input: &D) -> GrayImage {
+        // Nothing to do for an image without pixels, and not all of them can be iterated over
+        let (width, height) = input.dimensions();
+        if width == 0 || height == 0 {
+            return GrayImage::new(width, height);
+        }
+
         let grayscale = grayscale(input);
 
         let dimensions = grayscale.dimensions();
-- 
2.43.0


From fa2cc2ae6d60632300f4f722ad3dcd312aeb739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 18/20] fix: noise in the last run of a finder pattern no
 longer moves its centre

---
 src/detect/linescan.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index d8fe498..c3a6c55 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -335,6 +335,7 @@ impl LineScan {
         let mut pattern = QRFinderPattern::new();
         let mut last_x = 0;
         let mut last_y = 0;
+        let mut found = None;
 
         // Loop over provided range and basically execute the same logic as above
         for (x, y) in range_x.zip(range_y) {
@@ -342,14 +343,20 @@ impl LineScan {
             if p == last_pixel {
                 pattern.6 += 1;
             } else {
+                // What followed the pattern was more than noise in its last run, so that run was complete
+                if found.is_some() && !pattern.is_noise() {
+                    return found;
+                }
+
                 // The current pattern needs to look like a finder (1-1-3-1-1)
                 // Also the module size needs to be similar to the candidate we are refining,
                 // except when checking the diagonal because that is unreliable on lower resolutions
+                found = None;
                 if pattern.looks_like_finder()
                     && (diff(module_size, pattern.est_mod_size()) < 0.2 || is_diagonal)
                 {
                     let new_est_mod_size = (module_size + pattern.est_mod_size()) / 2.0;
-                    return Some(QRFinderPosition {
+                    found = Some(QRFinderPosition {
                         location: Point {
                             x: f64::from(x),
                             y: f64::from(y),
@@ -367,6 +374,10 @@ impl LineScan {
             last_y = y;
         }
 
+        if found.is_some() {
+            return found;
+        }
+
         // The current pattern needs to look like a finder (1-1-3-1-1)
         // Also the module size needs to be similar to the candidate we are refining,
         // except when checking the diagonal because that is unreliable on lower resolutions
@@ -396,8 +407,12 @@ impl QRFinderPattern {
         QRFinderPattern(0, 0, 0, 0, 0, 0, 0)
     }
 
+    fn is_noise(&self) -> bool {
+        f64::from(self.6) < f64::from(self.5) / 10.0 && self.4 != 0
+    }
+
     fn slide(&mut self) {
-        if f64::from(self.6) < f64::from(self.5) / 10.0 && self.4 != 0 {
+        if self.is_noise() {
             // we slid last time because the pixels inverted,
             // but it turned out that it was only for a few pixels
             // likely it was just some noise in the image
-- 
2.43.0


From b19041f6bb3be9388fa86df4532483b3bb91683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 19/20] fix: tell the version of larger codes by their timing
 patterns

The version of a code was estimated from the measured size of its modules alone, which is off by one or two
versions for many larger codes whose modules are not a whole number of pixels, so that they could not be read.
---
 src/detect/linescan.rs | 60 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index c3a6c55..e5139b4 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -227,7 +227,7 @@ impl Detect<GrayImage> for LineScan {
                         &candidates[candidate3].location,
                         candidates[candidate1].module_size,
                     ) {
-                        locations.push(Location::QR(qr));
+                        locations.push(Location::QR(adjust_version(prepared, qr)));
                     }
                 }
             }
@@ -616,6 +616,64 @@ fn find_qr_internal(
     }
 }
 
+// The module size can only be measured to a fraction of a pixel, which makes a difference of a version or two
+// for larger codes. From version 7 on, the timing patterns between the finders tell which version it really is.
+fn adjust_version(prepared: &GrayImage, qr: QRLocation) -> QRLocation {
+    let estimate = qr.version;
+    if estimate < 7 || estimate > 42 {
+        return qr;
+    }
+
+    // Some of the modules might be damaged or, if the code is not flat, not quite where they should be
+    let max_errors = 0.3;
+    if timing_errors(prepared, &qr, estimate) <= max_errors {
+        return qr;
+    }
+
+    let mut version = estimate;
+    let mut least_errors = max_errors;
+    for v in &[estimate - 1, estimate + 1, estimate - 2, estimate + 2] {
+        let errors = timing_errors(prepared, &qr, *v);
+        if *v <= 40 && errors < least_errors {
+            version = *v;
+            least_errors = errors;
+        }
+    }
+
+    QRLocation { version, ..qr }
+}
+
+// The share of the modules on both timing patterns that have the wrong color if it is this version
+fn timing_errors(prepared: &GrayImage, qr: &QRLocation, version: u32) -> f64 {
+    let size = 17 + 4 * version;
+    let dx = (qr.top_right - qr.top_left) / f64::from(size - 7);
+    let dy = (qr.bottom_left - qr.top_left) / f64::from(size - 7);
+
+    let mut total = 0;
+    let mut wrong = 0;
+
+    // the finders and their separators end at the 8th module, the finder centers are at the 4th
+    for i in 8..size - 8 {
+        let dark = i % 2 == 0;
+        let offset = f64::from(i) - 3.0;
+        let on_row = qr.top_left + offset * dx + 3.0 * dy;
+        let on_column = qr.top_left + offset * dy + 3.0 * dx;
+
+        for p in &[on_row, on_column] {
+            let inside = p.x >= 0.0 && p.y >= 0.0;
+            let pixel = prepared.get_pixel_checked(p.x as u32, p.y as u32);
+
+            total += 1;
+            match pixel {
+                Some(pixel) if inside && (pixel[0] == 0) == dark => {}
+                _ => wrong += 1,
+            }
+        }
+    }
+
+    f64::from(wrong) / f64::from(total)
+}
+
 #[derive(Debug)]
 pub struct QRFinderPosition {
     pub location: Point,
-- 
2.43.0


From c636ab45c24984cb3d70391bf1a80deac9049f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 20/20] fix: codes of version 7 are not taken for version 6

The timing patterns have to be looked at when the estimate is 6 as well, as the code might be of version 7.
---
 src/detect/linescan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detect/linescan.rs b/src/detect/linescan.rs
index e5139b4..ba137ed 100644
--- a/src/detect/linescan.rs
+++ b/src/detect/linescan.rs
@@ -617,10 +617,10 @@ fn find_qr_internal(
 }
 
 // The module size can only be measured to a fraction of a pixel, which makes a difference of a version or two
-// for larger codes. From version 7 on, the timing patterns between the finders tell which version it really is.
+// for larger codes. From version 6 on, the timing patterns between the finders tell which version it really is.
 fn adjust_version(prepared: &GrayImage, qr: QRLocation) -> QRLocation {
     let estimate = qr.version;
-    if estimate < 7 || estimate > 42 {
+    if estimate < 6 || estimate > 42 {
         return qr;
     }
 
-- 
2.43.0

