From 94950412e24642ed5c3a858764caa290fbc4167d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 01/39] fix: clamp neighborhood coordinates to the nearest edge
 pixel

---
 src/image/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index aa14c82..214805b 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -319,7 +319,7 @@ impl<T: Number> Image<T> {
 
             for i in 0..size {
                 let mut curr_y = start_y + (i as i32);
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                curr_y = curr_y.clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(x, curr_y as u32));
             }
@@ -330,7 +330,7 @@ impl<T: Number> Image<T> {
 
             for i in 0..size {
                 let mut curr_x = start_x + (i as i32);
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
+                curr_x = curr_x.clamp(0, self.info.width as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, y));
             }
@@ -357,8 +357,8 @@ impl<T: Number> Image<T> {
                 let mut curr_x = start_x + (j as i32);
                 let mut curr_y = start_y + (i as i32);
 
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                curr_x = curr_x.clamp(0, self.info.width as i32 - 1);
+                curr_y = curr_y.clamp(0, self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, curr_y as u32));
             }
-- 
2.43.0


From 226b7540dae594368f786b9654d168b69bd04542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 02/39] fix: store sub-image pixels in row-major order

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 214805b..5ef8d90 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for i in x..(x + width) {
-            for j in y..(y + height) {
+        for j in y..(y + height) {
+            for i in x..(x + width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From 924dc2abfa4eb825dd7dccef53c5bbb02aa2190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 03/39] fix: crop accepts rectangles touching the edge and does
 not overflow

---
 src/transform.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 3947459..0409b8a 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -13,12 +13,12 @@ use crate::util;
 /// and height `height`
 #[cfg(not(feature = "rayon"))]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if (x as u64 + width as u64) > input.info().width as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, (x as u64 + width as u64))));
+    } else if (y as u64 + height as u64) > input.info().height as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, (y as u64 + height as u64))));
     }
 
     let mut output = Image::blank(ImageInfo::new(width, height,
@@ -37,12 +37,12 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// and height `height`
 #[cfg(feature = "rayon")]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if (x as u64 + width as u64) > input.info().width as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, (x as u64 + width as u64))));
+    } else if (y as u64 + height as u64) > input.info().height as u64 {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, (y as u64 + height as u64))));
     }
 
     let size = width * height;
-- 
2.43.0


From cb76cadf217ef9e7932fd2f47b8a7af242a53899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 04/39] fix: superimpose checks alpha against [0, 1]

---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 0409b8a..5571d79 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -62,7 +62,7 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// pixel values of `front`
 pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha: f32) -> ImgProcResult<Image<f32>> {
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
-    error::check_in_range(0.0, 1.0, alpha, "alpha")?;
+    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
     let width = std::cmp::min(x + front.info().width, back.info().width);
-- 
2.43.0


From 28abdebe692887bcd86d5daed67c9f5a0bb76585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 05/39] fix: brightness bias check does not overflow on
 i16::MIN

---
 src/tone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tone.rs b/src/tone.rs
index 72b3968..0757da8 100644
--- a/src/tone.rs
+++ b/src/tone.rs
@@ -16,7 +16,7 @@ use std::collections::HashMap;
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     #[cfg(feature = "simd")]
     {
@@ -43,7 +43,7 @@ fn brightness_rgb_norm(input: &Image<u8>, bias: i16) -> Image<u8> {
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness_lab(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     let mut lab = colorspace::srgb_to_lab_f32(input, &White::D50);
     let bias_lab = (bias as f32) / 255.0 * 100.0;
-- 
2.43.0


From 74880508842a32090331aa8a21954318be25bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 06/39] fix: nearest neighbor scaling stays inside the input

---
 src/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 5571d79..ea8a212 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -430,7 +430,9 @@ fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32
     let x_in = (((x + 1) as f32 / x_factor).ceil() - 1.0) as u32;
     let y_in = (((y + 1) as f32 / y_factor).ceil() - 1.0) as u32;
 
-    input.get_pixel(x_in, y_in)
+    // An output dimension that is rounded up samples past the last row or column
+    input.get_pixel(std::cmp::min(x_in, input.info().width - 1),
+                    std::cmp::min(y_in, input.info().height - 1))
 }
 
 fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
-- 
2.43.0


From ae424528a1c0343f9dc3c11855ed79184b25fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 07/39] fix: bilinear scaling favors the nearer pixels and
 stays inside the input

---
 src/transform.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index ea8a212..bfe2410 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -438,9 +438,9 @@ fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32
 fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
     let x_in = x as f32 / x_factor;
     let y_in = y as f32 / y_factor;
-    let x_1 = x_in.floor() as u32;
+    let x_1 = std::cmp::min(x_in.floor() as u32, input.info().width - 1);
     let x_2 = std::cmp::min(x_in.ceil() as u32, input.info().width - 1);
-    let y_1 = y_in.floor() as u32;
+    let y_1 = std::cmp::min(y_in.floor() as u32, input.info().height - 1);
     let y_2 = std::cmp::min(y_in.ceil() as u32, input.info().height - 1);
     let x_weight = x_in - (x_1 as f32);
     let y_weight = y_in - (y_1 as f32);
@@ -452,10 +452,10 @@ fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32
 
     let mut p_out = Vec::with_capacity(input.info().channels as usize);
     for c in 0..(input.info().channels as usize) {
-        p_out.push(p1[c] * x_weight * y_weight
-            + p2[c] * (1.0 - x_weight) * y_weight
-            + p3[c] * x_weight * (1.0 - y_weight)
-            + p4[c] * (1.0 - x_weight) * (1.0 - y_weight));
+        p_out.push(p1[c] * (1.0 - x_weight) * (1.0 - y_weight)
+            + p2[c] * x_weight * (1.0 - y_weight)
+            + p3[c] * (1.0 - x_weight) * y_weight
+            + p4[c] * x_weight * y_weight);
     }
 
     p_out
-- 
2.43.0


From ebe963cb6f828f433742b6ee3b0ef6f1f59a0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 08/39] fix: overlay and superimpose positions near u32::MAX do
 not overflow

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index bfe2410..3aee137 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -65,8 +65,8 @@ pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha:
     error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
@@ -90,8 +90,8 @@ pub fn overlay<T: Number>(back: &Image<T>, front: &Image<T>, x: u32, y: u32) ->
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
-- 
2.43.0


From d4a43908954793555c127d86644e235d752367ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 09/39] fix: SIMD brightness processes the remainder and skips
 every alpha channel

---
 src/simd.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index c4ab1ca..7739806 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -22,13 +22,21 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     // Mask the alpha bit if present
     if input.info().alpha {
         let zeroes_256 = _mm256_setzero_si256();
-        let alpha_mask = _mm256_set1_epi32(-2 * 2_i32.pow(30));
+        let alpha_mask = if input.info().channels == 2 {
+            _mm256_set1_epi16(-2 * 2_i16.pow(14))
+        } else {
+            _mm256_set1_epi32(-2 * 2_i32.pow(30))
+        };
         val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
     }
 
+    // The alpha mask can only be reused for every chunk if chunks contain whole pixels
+    let channels = input.info().channels as u32;
+    let is_aligned = !input.info().alpha || channels == 2 || channels == 4;
+
     // Process 32 bytes at a time
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while is_aligned && (i + 32) <= num_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -47,8 +55,10 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     }
 
     // Process the remaining bytes normally
-    if i > num_bytes {
-        for j in (i - 32)..num_bytes {
+    for j in i..num_bytes {
+        if input.info().alpha && (j + 1) % channels == 0 {
+            data[j as usize] = input.data()[j as usize];
+        } else {
             data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
         }
     }
-- 
2.43.0


From d77451e6df1c9ad6982af3fe059543c5d5bc887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 10/39] fix: SIMD channel add stays inside its buffers and
 processes the remainder

---
 src/simd.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 7739806..cada5d6 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -85,7 +85,7 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
             1 => _mm256_set1_epi32(0x8000),
             2 => _mm256_set1_epi32(0x800000),
             3 => _mm256_set1_epi32(-0x80000000),
-            _ => _mm256_setzero_si256()
+            _ => _mm256_set1_epi8(-1)
         }
     } else {
         match n {
@@ -95,7 +95,7 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
                                    0x800000800000, -0x7FFFFF7FFFFF8000),
             2 => _mm256_set_epi64x(0x800000800000, -0x7FFFFF7FFFFF8000,
                                    0x80000080000080, 0x800000800000),
-            _ => _mm256_setzero_si256()
+            _ => _mm256_set1_epi8(-1)
         }
     };
     val_256 = _mm256_blendv_epi8(zeroes_256, val_256, mask);
@@ -111,7 +111,7 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     }
 
     let mut i = 0;
-    while (i + step) <= num_bytes {
+    while (i + 32) <= num_bytes {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
@@ -126,10 +126,13 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         i += step;
     }
 
-    if i > num_bytes {
-        for j in ((i - step)..num_bytes).step_by(input.info().channels as usize) {
-            let index = j as usize + n as usize;
-            data[index] = (input.data()[index] as i16 + val).clamp(0, 255) as u8;
+    // Process the remaining bytes normally
+    let channels = input.info().channels as u32;
+    for j in i..num_bytes {
+        if n as u32 >= channels || j % channels == n as u32 {
+            data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
+        } else {
+            data[j as usize] = input.data()[j as usize];
         }
     }
 
-- 
2.43.0


From 14e68a601141d3786b273d41b17b910ac305da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 11/39] fix: SIMD averages equal the scalar average and stay
 inside their buffers

---
 src/simd.rs | 56 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index cada5d6..97a98fe 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -193,6 +193,24 @@ pub unsafe fn deinterleave_4_256_u8(input: &Image<u8>, offset: usize) -> (__m256
     (r_256, g_256, b_256, a_256)
 }
 
+/// Computes the average, rounded down, of each group of corresponding 8-bit integers
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+#[target_feature(enable = "avx2")]
+unsafe fn avg_3_256_u8(x: __m256i, y: __m256i, z: __m256i) -> __m256i {
+    let zeroes_256 = _mm256_setzero_si256();
+    let third_256 = _mm256_set1_epi16(-0x5555); // 0xAAAB, or 2^17 / 3 rounded up
+
+    let sum_lo = _mm256_add_epi16(_mm256_unpacklo_epi8(z, zeroes_256),
+                                  _mm256_add_epi16(_mm256_unpacklo_epi8(x, zeroes_256),
+                                                   _mm256_unpacklo_epi8(y, zeroes_256)));
+    let sum_hi = _mm256_add_epi16(_mm256_unpackhi_epi8(z, zeroes_256),
+                                  _mm256_add_epi16(_mm256_unpackhi_epi8(x, zeroes_256),
+                                                   _mm256_unpackhi_epi8(y, zeroes_256)));
+
+    _mm256_packus_epi16(_mm256_srli_epi16(_mm256_mulhi_epu16(sum_lo, third_256), 1),
+                        _mm256_srli_epi16(_mm256_mulhi_epu16(sum_hi, third_256), 1))
+}
+
 /// Computes the average of each 3-channel pixel of `input` and returns a grayscale image
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
@@ -200,15 +218,13 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
     let channels = input.info().channels as usize;
     let chunk_size = 32 * channels;
     let num_bytes = input.info().full_size() as usize;
-    let mut data: Vec<u8> = vec![0; (num_bytes / 3) as usize];
+    let mut data: Vec<u8> = vec![0; input.info().size() as usize];
 
     let mut i: usize= 0;
-    while (i + chunk_size) <= num_bytes {
+    while channels == 3 && (i + chunk_size) <= num_bytes {
         let (r, g, b) = deinterleave_3_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256_u8(r, g, b);
 
         _mm256_storeu_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                 as *mut _, avg_rgb);
@@ -216,11 +232,13 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(3) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / channels] = (sum / 3.0).round() as u8;
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let mut sum = 0;
+        for c in 0..channels {
+            sum += input.data()[j + c] as usize;
         }
+        data[j / channels] = (sum / channels) as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, 1,
@@ -235,15 +253,13 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
     let channels = input.info().channels as usize;
     let chunk_size = 32 * channels;
     let num_bytes = input.info().full_size() as usize;
-    let mut data: Vec<u8> = vec![0; (num_bytes / 2) as usize];
+    let mut data: Vec<u8> = vec![0; 2 * input.info().size() as usize];
 
     let mut i: usize= 0;
-    while (i + chunk_size) <= num_bytes {
+    while channels == 4 && (i + chunk_size) <= num_bytes {
         let (r, g, b, a) = deinterleave_4_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256_u8(r, g, b);
 
         // Interleave the alpha and grayscale channels
         let unpacked_lo = _mm256_unpacklo_epi8(avg_rgb, a);
@@ -260,12 +276,14 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(channels) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / 2] = (sum / 3.0).round() as u8;
-            data[j / 2 + 1] = input.data()[i + 3];
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let mut sum = 0;
+        for c in 0..(channels - 1) {
+            sum += input.data()[j + c] as usize;
         }
+        data[2 * (j / channels)] = (sum / (channels - 1)) as u8;
+        data[2 * (j / channels) + 1] = input.data()[j + channels - 1];
     }
 
     Image::from_vec(input.info().width, input.info().height, 2,
-- 
2.43.0


From dc43ad5897faf090eef066a09d693cbb2a052c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 12/39] fix: histogram percentiles count the first occurrence
 of a value once

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index f2edec9..c09ffdb 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -41,7 +41,7 @@ pub fn generate_histogram_percentiles(input: &Image<f32>, percentiles: &mut Hash
     for y in 0..(input.info().height) {
         for x in 0..(input.info().width) {
             let p = (input.get_pixel(x, y)[0] * precision).round() as i32;
-            let count = histogram.entry(p).or_insert(1);
+            let count = histogram.entry(p).or_insert(0);
             *count += 1;
         }
     }
-- 
2.43.0


From 3254d97fc6d22a5bd0accaaa44ed18f081641572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 13/39] fix: PixelIter::size_hint returns the number of
 remaining pixels

---
 src/image/pixel_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 798e9af..73b58c7 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -67,7 +67,7 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = ((self.x_max + 1) * (self.y_max + 1)) as usize;
+        let size = ((self.x_max + 1) * (self.y_max + 1) - (self.y * (self.x_max + 1) + self.x)) as usize;
         (size, Some(size))
     }
 }
-- 
2.43.0


From a5829a87f6be29c2268ffea9bc85d3dd06e64246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 14/39] fix: box_filter applies a normalized kernel of the
 requested size

---
 src/filter/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index c07eb92..897a577 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -132,8 +132,8 @@ pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<
 pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let len = (size * size) as usize;
-    let kernel = vec![1.0 / ((size * size) as f32); len];
+    let len = size as usize;
+    let kernel = vec![1.0 / (size as f32); len];
 
     Ok(separable_filter(input, &kernel, &kernel)?)
 }
-- 
2.43.0


From cc38f3345202f9822e95254be1207f3296a205d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 15/39] fix: vector_mul rejects every matrix of the wrong size

---
 src/util/math.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index b4ee90b..322c8ce 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -8,9 +8,8 @@ use rulinalg::matrix::{Matrix, BaseMatrix};
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     let mut output = vec![0.into(); rows];
 
@@ -26,9 +25,8 @@ pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
 /// Returns the result of the multiplication of a square matrix by a vector in `output`
 pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) -> ImgProcResult<()> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     output.clear();
     for _ in 0..rows {
-- 
2.43.0


From 3a6559f69283cd505c1bfbc682f0912fcd796858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 16/39] fix: the spatial matrix includes the weight of the
 center

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index c09ffdb..b304328 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -117,7 +117,7 @@ pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>>
 
     for y in 0..(center + 1) {
         for x in 0..(center + 1) {
-            if mat[(y * size + x) as usize] == 0.0 && !(x == center && y == center) {
+            if mat[(y * size + x) as usize] == 0.0 {
                 let dist = math::distance(center, center, x, y);
                 let g = math::gaussian_fn(dist, spatial)?;
                 mat[(y * size + x) as usize] = g;
-- 
2.43.0


From 6987694530c257c792d1f27c2a119366313f150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 17/39] fix: bilateral_filter uses an odd window size

---
 src/filter/bilateral.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 9e1639a..0b56801 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -14,7 +14,10 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels) = input.info().whc();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let mut size = ((spatial * 4.0) + 1.0) as u32;
+    if size % 2 == 0 {
+        size += 1; // The window must have a central pixel
+    }
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
@@ -43,7 +46,10 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
     error::check_non_neg(spatial, "spatial")?;
 
     let (width, height, channels, alpha) = input.info().whca();
-    let size = ((spatial * 4.0) + 1.0) as u32;
+    let mut size = ((spatial * 4.0) + 1.0) as u32;
+    if size % 2 == 0 {
+        size += 1; // The window must have a central pixel
+    }
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
-- 
2.43.0


From 84e308ea8ff74eefc456fff7a2b60ae63c5b9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 18/39] fix: separate_kernel accepts a kernel of size 1

---
 src/util/math.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/math.rs b/src/util/math.rs
index 322c8ce..982f98f 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -44,6 +44,11 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
+    // A single value has no singular value decomposition
+    if kernel.len() == 1 {
+        return Some((kernel.to_vec(), vec![1.0]));
+    }
+
     let size = (kernel.len() as f32).sqrt() as usize;
     let kernel_mat = Matrix::new(size, size, kernel);
     let size = kernel_mat.cols();
-- 
2.43.0


From 4b50bab9f7eecef8740176467c419517021affd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 19/39] fix: morphology sums are exact for images of every size

---
 src/morphology.rs | 26 +++++++++++++-------------
 src/util/mod.rs   |  8 ++++----
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6026868..e3c2f0f 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -10,9 +10,9 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let size = 2 * radius as i64 + 1;
+    let max_sum = size.saturating_mul(size).saturating_mul(255);
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -35,7 +35,7 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
                 y_bot += radius;
             }
 
-            if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
+            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] == max_sum {
                 output.set_pixel(x, y, &[255]);
             }
         }
@@ -50,7 +50,7 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -73,7 +73,7 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
                 y_bot += radius;
             }
 
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
+            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255 {
                 output.set_pixel(x, y, &[255]);
             }
         }
@@ -88,7 +88,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -111,7 +111,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
                 y_bot += radius;
             }
 
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
+            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255 {
                 output.set_pixel(x, y, &[255]);
             }
         }
@@ -136,9 +136,9 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
     let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
+    let size = 2 * radius as i64 + 1;
+    let max_sum = size.saturating_mul(size).saturating_mul(255);
+    let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
     let mut output = Image::blank(input.info());
 
     for y in 0..height {
@@ -162,8 +162,8 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             }
 
             let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
-            let erode = ((sum - max_sum).abs() < f32::EPSILON);
-            let dilate = (sum >= 255.0);
+            let erode = (sum == max_sum);
+            let dilate = (sum >= 255);
 
             if erode ^ dilate {
                 output.set_pixel(x, y, &[255]);
diff --git a/src/util/mod.rs b/src/util/mod.rs
index b304328..636d468 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -160,10 +160,10 @@ pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>>
 
 /// Generates a summed-area table in the format of another `Image` of the same type and dimensions
 /// as `input`
-pub fn generate_summed_area_table(input: &Image<f32>) -> Image<f32> {
+pub fn generate_summed_area_table<T: Number>(input: &Image<T>) -> Image<T> {
     let mut output = Image::blank(input.info());
     let (width, height, channels) = input.info().whc();
-    let zeroes = vec![0.0; channels as usize];
+    let zeroes = vec![0.into(); channels as usize];
 
     for y in 0..height {
         for x in 0..width {
@@ -197,11 +197,11 @@ pub fn generate_summed_area_table(input: &Image<f32>) -> Image<f32> {
 
 /// Computes the sum of pixel intensities over a rectangular region with top left corner located
 /// at `(x_0, y_0)` and bottom right corner located at `(x_1, y_1)`
-pub fn rectangular_intensity_sum(summed_area_table: &Image<f32>, x_0: u32, y_0: u32, x_1: u32, y_1: u32) -> Vec<f32> {
+pub fn rectangular_intensity_sum<T: Number>(summed_area_table: &Image<T>, x_0: u32, y_0: u32, x_1: u32, y_1: u32) -> Vec<T> {
     let channels = summed_area_table.info().channels as usize;
     let mut sum = Vec::new();
 
-    let zeroes = vec![0.0; channels];
+    let zeroes = vec![0.into(); channels];
     let mut top_left = zeroes.as_slice();
     let mut top_right = zeroes.as_slice();
     let mut bot_left = zeroes.as_slice();
-- 
2.43.0


From 8d139ba164cf5001032c3423130724c43df40f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 20/39] fix: morphology windows at the border cover the part
 inside the image

---
 src/morphology.rs | 48 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index e3c2f0f..90efb85 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -24,15 +24,23 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width - x {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height - y {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] == max_sum {
@@ -62,15 +70,23 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width - x {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height - y {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255 {
@@ -100,15 +116,23 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width - x {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height - y {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255 {
@@ -150,15 +174,23 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             if x >= radius {
                 x_top -= radius;
+            } else {
+                x_top = 0;
             }
-            if x < width - radius {
+            if radius < width - x {
                 x_bot += radius;
+            } else {
+                x_bot = width - 1;
             }
             if y >= radius {
                 y_top -= radius;
+            } else {
+                y_top = 0;
             }
-            if y < height - radius {
+            if radius < height - y {
                 y_bot += radius;
+            } else {
+                y_bot = height - 1;
             }
 
             let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
-- 
2.43.0


From 29be21ffe293ee17376d4c8849339de11759037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 21/39] fix: majority compares the set pixels with half of the
 window

---
 src/morphology.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 90efb85..8a8af95 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -135,7 +135,8 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
                 y_bot = height - 1;
             }
 
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255 {
+            let count = (x_bot - x_top + 1) as i64 * (y_bot - y_top + 1) as i64;
+            if 2 * util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] > 255 * count {
                 output.set_pixel(x, y, &[255]);
             }
         }
-- 
2.43.0


From a8bee67fb80d892347a02cae8eeae3215c120a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 22/39] fix: morphology accepts grayscale images with an alpha
 channel

---
 src/morphology.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 8a8af95..eb1b7f0 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -13,7 +13,7 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     let size = 2 * radius as i64 + 1;
     let max_sum = size.saturating_mul(size).saturating_mul(255);
     let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -44,7 +44,7 @@ pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] == max_sum {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -59,7 +59,7 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
     let (width, height) =  input.info().wh();
     let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -90,7 +90,7 @@ pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             }
 
             if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255 {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -105,7 +105,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
     let (width, height) =  input.info().wh();
     let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -137,7 +137,7 @@ pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 
             let count = (x_bot - x_top + 1) as i64 * (y_bot - y_top + 1) as i64;
             if 2 * util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] > 255 * count {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
@@ -164,7 +164,7 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     let size = 2 * radius as i64 + 1;
     let max_sum = size.saturating_mul(size).saturating_mul(255);
     let table = util::generate_summed_area_table(&input.map_channels(|channel| channel as i64));
-    let mut output = Image::blank(input.info());
+    let mut output = input.map_channels_if_alpha(|_| 0, |a| a);
 
     for y in 0..height {
         for x in 0..width {
@@ -199,7 +199,7 @@ pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
             let dilate = (sum >= 255);
 
             if erode ^ dilate {
-                output.set_pixel(x, y, &[255]);
+                output.get_pixel_mut(x, y)[0] = 255;
             }
         }
     }
-- 
2.43.0


From 15319c9692d070d78c8b98f67a444649fdf19aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 23/39] fix: derivative masks accept grayscale images with an
 alpha channel

---
 src/filter/edge.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filter/edge.rs b/src/filter/edge.rs
index 07d83e0..cfafe99 100644
--- a/src/filter/edge.rs
+++ b/src/filter/edge.rs
@@ -14,10 +14,10 @@ pub fn derivative_mask(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[f
     let img_x = filter::separable_filter(&input, &vert_kernel, &horz_kernel)?;
     let img_y = filter::separable_filter(&input, &horz_kernel, &vert_kernel)?;
 
-    let mut output = Image::blank(input.info());
+    let mut output = input.clone();
 
-    for i in 0..(output.info().full_size() as usize) {
-        output.set_pixel_indexed(i, &[(img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt()]);
+    for i in 0..(output.info().size() as usize) {
+        output[i][0] = (img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt();
     }
 
     Ok(output)
-- 
2.43.0


From 88fb1f4fb8a7b41288470cfd4ac3a6431275271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 24/39] fix: median below the previous median is found when
 exactly half of the window is smaller

---
 src/filter/median.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2054ab4..2e545ba 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -304,9 +304,6 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                                                         // the previous median
 
             match sum.cmp(&center) {
-                Ordering::Equal => { // The current median is equal to the previous median
-                    p_out.push(pivot);
-                },
                 Ordering::Less => { // The current median is greater than the previous median,
                                     // so the histogram should be scanned upwards
                     for key in pivot..=255 {
@@ -321,7 +318,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                         sum += add;
                     }
                 },
-                Ordering::Greater => { // The current median is less than the previous median, so the histogram
+                Ordering::Equal | Ordering::Greater => { // The current median is less than the previous median, so the histogram
                                        // should be scanned downwards
                     for key in (0..pivot).rev() {
                         sum -= hist.data().get_count(key as usize, i);
-- 
2.43.0


From dcb9172d9afa2939908bda67dea28086912c3a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 25/39] fix: median and alpha-trimmed mean filters do not
 overwrite the last column

---
 src/filter/median.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2e545ba..ccf8610 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -288,8 +288,10 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        // The last group of columns can extend past the edge of the image
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, 0, &p_out);
+        }
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -333,8 +335,10 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        // The last group of columns can extend past the edge of the image
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, y, &p_out);
+        }
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -648,8 +652,10 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        // The last group of columns can extend past the edge of the image
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, 0, &p_out);
+        }
     }
 }
 
@@ -660,8 +666,10 @@ fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_ou
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        // The last group of columns can extend past the edge of the image
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, y, &p_out);
+        }
     }
 }
 
-- 
2.43.0


From a0efba39b05ab109ff31436bfd4e1d46296c080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 26/39] fix: alpha-trimmed mean filter averages exactly the
 untrimmed values

---
 src/filter/median.rs | 233 +++++--------------------------------------
 1 file changed, 25 insertions(+), 208 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index ccf8610..b53fcbb 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::error::{ImgProcResult, ImgProcError};
 use crate::image::{Image, BaseImage};
 
-use std::cmp::{Ordering, Reverse};
+use std::cmp::Ordering;
 
 /// Applies a median filter, where each output pixel is the median of the pixels in a
 /// `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image. Based on Ben Weiss' partial
@@ -369,28 +369,19 @@ fn set_pivots_med(histograms: &mut Vec<MedianHist>, pivots: &[u8], index: usize)
 #[derive(Debug, Clone)]
 struct MeanHist {
     data: PartialHistograms,
-    sums: Vec<i32>, // The sum of all the participating pixel values in the kernel for each pixel
-    lower: Vec<Vec<u8>>, // Vectors of all the lowest discarded pixel values in the kernel
-                         // for each pixel
-    upper: Vec<Vec<u8>>, // Vectors of all the highest discarded pixel values in the kernel for
-                         // each pixel
-    trim: usize, // The number of pixel values discarded at the low and high ends of each kernel
-                 // (equal to half of alpha)
-    len: f32, // The number of participating pixel values in each kernel
+    trim: i32, // The number of pixel values discarded at the low and high ends of each kernel
+               // (equal to half of alpha)
+    len: i32, // The number of participating pixel values in each kernel
 }
 
 impl MeanHist {
     fn new(radius: usize, n_cols: usize, alpha: u32) -> Self {
         let size = 2 * radius + 1;
-        let len = ((size * size) - alpha as usize) as f32;
 
         MeanHist {
             data: PartialHistograms::new(radius, n_cols),
-            sums: Vec::with_capacity(n_cols),
-            lower: Vec::with_capacity(n_cols),
-            upper: Vec::with_capacity(n_cols),
-            trim: (alpha as usize) / 2,
-            len,
+            trim: (alpha / 2) as i32,
+            len: ((size * size) - alpha as usize) as i32,
         }
     }
 
@@ -398,168 +389,28 @@ impl MeanHist {
         &self.data
     }
 
-    fn init(&mut self) {
-        self.sums = vec![0; self.data.n_cols];
-        self.lower = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-        self.upper = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-    }
-
-    // By some miracle, this seems to work!
     fn update(&mut self, p_in: &[&[u8]], channel_index: usize, add: bool) {
-        if !self.sums.is_empty() {
-            if add {
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        if val < lower {
-                            self.lower[n].remove(self.trim -  1);
-                            self.sums[n] += lower as i32;
-
-                            let pos = self.lower[n].binary_search(&val).unwrap_or_else(|e| e);
-                            self.lower[n].insert(pos, val);
-                        } else if val > upper {
-                            self.upper[n].remove(self.trim - 1);
-                            self.sums[n] += upper as i32;
-
-                            let pos = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse).unwrap_or_else(|e| e);
-                            self.upper[n].insert(pos, val);
-                        } else {
-                            self.sums[n] += val as i32;
-                        }
-                    }
-                }
-                self.data.update(p_in, channel_index, add);
-            } else {
-                self.data.update(p_in, channel_index, add);
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        let mut lower_count = self.data.get_count(lower as usize, n);
-                        let mut upper_count = self.data.get_count(upper as usize, n);
-
-                        for j in i..(n + self.data.size) {
-                            if p_in[j][channel_index] == lower {
-                                lower_count += 1;
-                            } else if p_in[j][channel_index] == upper {
-                                upper_count += 1;
-                            }
-                        }
-
-                        for j in self.lower[n].iter().rev() {
-                            if *j == lower {
-                                lower_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        for j in self.upper[n].iter().rev() {
-                            if *j == upper {
-                                upper_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        if val == lower && lower_count == 0 {
-                            self.lower[n].remove(self.trim - 1);
-                            self.get_next_lower(n, lower_count, lower);
-                        } else if val < lower {
-                            let res = self.lower[n].binary_search(&val);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.lower[n].remove(pos);
-                                    self.get_next_lower(n, lower_count, lower);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else if val == upper && upper_count == 0 {
-                            self.upper[n].remove(self.trim - 1);
-                            self.get_next_upper(n, upper_count, upper);
-                        } else if val > upper {
-                            let res = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.upper[n].remove(pos);
-                                    self.get_next_upper(n, upper_count, upper);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else {
-                            self.sums[n] -= val as i32;
-                        }
-                    }
-                }
-            }
-        } else {
-            self.data.update(p_in, channel_index, add);
-        }
-    }
-
-    fn set_sum(&mut self, sum: i32, index: usize) {
-        self.sums[index] = sum;
-    }
-
-    fn set_upper(&mut self, vals: Vec<u8>, index: usize) {
-        self.upper[index] = vals;
-    }
-
-    fn set_lower(&mut self, vals: Vec<u8>, index: usize) {
-        self.lower[index] = vals;
-    }
-
-    fn upper(&self, index: usize) -> u8 {
-        self.upper[index][self.trim-1]
-    }
-
-    fn lower(&self, index: usize) -> u8 {
-        self.lower[index][self.trim-1]
+        self.data.update(p_in, channel_index, add);
     }
 
+    // Returns the mean of the participating pixel values in the kernel for the pixel at the given
+    // index
     fn get_mean(&self, index: usize) -> u8 {
-        ((self.sums[index] as f32) / self.len).round() as u8
-    }
-
-    fn get_next_lower(&mut self, n: usize, lower_count: i32, lower: u8) {
-        if lower_count > 0 {
-            self.lower[n].push(lower);
-            self.sums[n] -= lower as i32;
-        } else {
-            for key in (lower + 1)..=255 {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.lower[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
+        let mut lower = self.trim; // The number of lowest values that are still to be discarded
+        let mut rest = self.len; // The number of participating values that are still to be added
+        let mut sum = 0;
+
+        for key in 0u8..=255 {
+            let count = self.data().get_count(key as usize, index);
+            let discard = std::cmp::min(count, lower);
+            let add = std::cmp::min(count - discard, rest);
+
+            lower -= discard;
+            rest -= add;
+            sum += add * key as i32;
         }
-    }
 
-    fn get_next_upper(&mut self, n: usize, upper_count: i32, upper: u8) {
-        if upper_count > 0 {
-            self.upper[n].push(upper);
-            self.sums[n] -= upper as i32;
-        } else {
-            for key in (0..upper).rev() {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.upper[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
-        }
+        ((sum as f32) / self.len as f32).round() as u8
     }
 }
 
@@ -569,7 +420,7 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
     let mut p_out = Vec::with_capacity(channels as usize);
 
     // Initialize histogram and process first row
-    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, alpha, n_cols, x);
+    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, n_cols, x);
 
     // Update histogram and process remaining rows
     let mut row_in = Vec::with_capacity(n_cols);
@@ -596,9 +447,8 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
 }
 
 fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec<MeanHist>,
-                  p_out: &mut Vec<u8>, radius: u32, alpha: u32, n_cols: usize, x: u32) {
+                  p_out: &mut Vec<u8>, radius: u32, n_cols: usize, x: u32) {
     let (width, height) = input.info().wh();
-    let size = 2 * radius + 1;
 
     // Initialize histograms
     let mut row_in = Vec::with_capacity(n_cols);
@@ -609,46 +459,13 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
         }
 
         add_row_mean(histograms, &row_in);
-    }
-
-    // Initialize histograms
-    for hist in histograms.iter_mut() {
-        hist.init();
+        row_in.clear();
     }
 
     // Compute first mean values
-    let trim = (alpha as usize) / 2;
-    let upper_trim = (size * size) as usize - trim;
     for i in 0..n_cols {
         p_out.clear();
         for hist in histograms.iter_mut() {
-            let mut count = 0;
-            let mut sum = 0;
-            let mut upper = Vec::with_capacity(trim);
-            let mut lower = Vec::with_capacity(trim);
-
-            for key in 0u8..=255 {
-                let mut add = hist.data().get_count(key as usize, i);
-                count += add;
-                sum += add * key as i32;
-
-                while lower.len() < trim && add > 0 {
-                    lower.push(key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-
-                while (count as usize) > upper_trim && upper.len() < trim && add > 0 {
-                    upper.insert(0, key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-            }
-
-            hist.set_sum(sum, i);
-            hist.set_upper(upper, i);
-            hist.set_lower(lower, i);
-
             p_out.push(hist.get_mean(i));
         }
 
-- 
2.43.0


From 563ebc62c4ff2379637971127d5c068280dc2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 27/39] fix: keep sheared pixels inside the output when their
 position is rounded up

shear() panicked for factors whose positions round up to the edge of the
output (2x3 image, factors 1/3).
---
 src/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 3aee137..b3e9a4d 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -310,7 +310,9 @@ pub fn shear(input: &Image<f32>, shear_x: f32, shear_y: f32) -> ImgProcResult<Im
                 coords[1] += offset_y;
             }
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32, input.get_pixel(x, y));
+            // A coordinate can be rounded up to the edge of the output
+            output.set_pixel(std::cmp::min(coords[0] as u32, w_out - 1),
+                             std::cmp::min(coords[1] as u32, h_out - 1), input.get_pixel(x, y));
         }
     }
 
-- 
2.43.0


From 23c7fd8ac8c58318ef7b4eb9d4ffdfe191518a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:18 +0000
Subject: [PATCH 28/39] fix: keep rectangular_intensity_sum from underflowing
 on unsigned tables

bot_right - top_right - bot_left is negative for e.g. the lower right pixel
of the u32 image [[5, 0], [0, 1]].
---
 src/util/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 636d468..1880c29 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -219,7 +219,8 @@ pub fn rectangular_intensity_sum<T: Number>(summed_area_table: &Image<T>, x_0: u
     }
 
     for i in 0..channels {
-        sum.push(bot_right[i] - top_right[i] - bot_left[i] + top_left[i]);
+        // This order keeps every intermediate result of unsigned types non-negative
+        sum.push((bot_right[i] - top_right[i]) - (bot_left[i] - top_left[i]));
     }
 
     sum
-- 
2.43.0


From 248844302febd13bf0dfc9522370a35101efc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 29/39] fix: keep generate_summed_area_table from overflowing
 on sums that fit

p_in + p_top + p_left counts the upper left part twice, e.g. 200 + 10 + 200
for the u8 image [[200, 0], [0, 10]].
---
 src/util/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 1880c29..2d8ea4d 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -185,7 +185,8 @@ pub fn generate_summed_area_table<T: Number>(input: &Image<T>) -> Image<T> {
             }
 
             for c in 0..(channels as usize) {
-                p_out.push(p_in[c] + p_top[c] + p_left[c] - p_diag[c]);
+                // This order keeps every intermediate result of unsigned types below the sum
+                p_out.push(p_in[c] + p_top[c] + (p_left[c] - p_diag[c]));
             }
 
             output.set_pixel(x, y, &p_out);
-- 
2.43.0


From 51eb5b6d87f1c2df847527660e52c9f95dcc882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 30/39] fix: SIMD add overflowed its chunk counter on images of
 nearly 4 GiB

---
 src/simd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 97a98fe..c6fa309 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -36,7 +36,7 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
 
     // Process 32 bytes at a time
     let mut i = 0;
-    while is_aligned && (i + 32) <= num_bytes {
+    while is_aligned && num_bytes - i >= 32 {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -111,7 +111,7 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     }
 
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while num_bytes - i >= 32 {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
-- 
2.43.0


From 24fd2f780d5ac2ad13ffc37c6466787096be00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 31/39] fix: alpha_trimmed_mean_filter rejects the window size
 without overflowing

---
 src/filter/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index b53fcbb..40df916 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -27,9 +27,9 @@ pub fn median_filter(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>>
 /// pixels in a `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image, with the lowest
 /// `alpha / 2` pixels and the highest `alpha / 2` pixels removed.
 pub fn alpha_trimmed_mean_filter(input: &Image<u8>, radius: u32, alpha: u32) -> ImgProcResult<Image<u8>> {
-    let size = 2 * radius + 1;
+    let size = 2 * radius as u64 + 1;
     error::check_even(alpha, "alpha")?;
-    if alpha >= (size * size) {
+    if alpha as u64 >= size.saturating_mul(size) {
         return Err(ImgProcError::InvalidArgError(format!("invalid alpha: size is {}, but alpha is {}", size, alpha)));
     }
 
-- 
2.43.0


From 6a6ca6ffa83c78e8406c979d899b1d25d9cbddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 32/39] fix: MeanHist::get_mean sums in 64 bits and rounds the
 exact quotient

---
 src/filter/median.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 40df916..1494fea 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -398,7 +398,7 @@ impl MeanHist {
     fn get_mean(&self, index: usize) -> u8 {
         let mut lower = self.trim; // The number of lowest values that are still to be discarded
         let mut rest = self.len; // The number of participating values that are still to be added
-        let mut sum = 0;
+        let mut sum: i64 = 0;
 
         for key in 0u8..=255 {
             let count = self.data().get_count(key as usize, index);
@@ -407,10 +407,12 @@ impl MeanHist {
 
             lower -= discard;
             rest -= add;
-            sum += add * key as i32;
+            sum += add as i64 * key as i64;
         }
 
-        ((sum as f32) / self.len as f32).round() as u8
+        // Integer division that rounds to the nearest value
+        let len = self.len as i64;
+        ((2 * sum + len) / (2 * len)) as u8
     }
 }
 
-- 
2.43.0


From f82890d4899746830ee671fc280743e1a4740511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 33/39] fix: separate_kernel did not terminate (or panicked)
 for kernels such as the 7x7 Gaussian

The singular value decomposition it relied on loops forever on some rank-one
kernels and fails on others, which made gaussian_blur(img, 7, 1.0) hang.
A rank-one matrix is the product of the column and the row through its
largest entry, which needs no iterative decomposition.
---
 src/util/math.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index 982f98f..92c1d26 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -3,7 +3,6 @@ use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
 use std::f32::consts::{PI, E};
-use rulinalg::matrix::{Matrix, BaseMatrix};
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -44,30 +43,43 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
-    // A single value has no singular value decomposition
     if kernel.len() == 1 {
         return Some((kernel.to_vec(), vec![1.0]));
     }
 
     let size = (kernel.len() as f32).sqrt() as usize;
-    let kernel_mat = Matrix::new(size, size, kernel);
-    let size = kernel_mat.cols();
-    let (s, u, v) = kernel_mat.svd().unwrap();
+
+    // Find the value of the largest magnitude
+    let mut pivot = 0;
+    for i in 1..kernel.len() {
+        if kernel[i].abs() > kernel[pivot].abs() {
+            pivot = i;
+        }
+    }
+
+    let scalar = kernel[pivot];
+    if scalar == 0.0 {
+        return None;
+    }
+
+    // A separable kernel is the product of the column and the row through that value
+    let mut vertical_kernel = Vec::with_capacity(size);
+    let mut horizontal_kernel = Vec::with_capacity(size);
+    for i in 0..size {
+        vertical_kernel.push(kernel[i * size + pivot % size]);
+        horizontal_kernel.push(kernel[pivot / size * size + i] / scalar);
+    }
 
     // Check if kernel is separable
-    if s.data()[0] != 0.0 {
-        for i in 1..size {
-            if s.data()[i * size + i] != 0.0 {
+    for i in 0..size {
+        for j in 0..size {
+            let diff = vertical_kernel[i] * horizontal_kernel[j] - kernel[i * size + j];
+            if !(diff.abs() <= scalar.abs() * 1e-6) {
                 return None;
             }
         }
-    } else {
-        return None;
     }
 
-    let scalar = s.data()[0].sqrt();
-    let vertical_kernel = (u.col(0).as_slice().into_matrix() * scalar).into_vec();
-    let horizontal_kernel = (v.transpose().row(0).as_slice().into_matrix() * scalar).into_vec();
     Some((vertical_kernel, horizontal_kernel))
 }
 
-- 
2.43.0


From b09c941a46cb50a9a1e8e48eadaa64848f2c12e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:47 +0000
Subject: [PATCH 34/39] fix: rotate lost rows and columns of the picture, also
 for multiples of 90 degrees

Every input pixel was also written to the left of its own position, over
pixels drawn before, and positions were one pixel off for even sizes and cut
off at the edge: rotate(img, 0.0) was not the identity. Look up the input pixel
for the center of each output pixel instead.
---
 src/transform.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index b3e9a4d..9f0d43c 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -228,29 +228,27 @@ pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
     let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
 
-    let w_out = (x_max - x_min) as u32;
-    let h_out = (y_max - y_min) as u32;
+    let w_out = (x_max - x_min).round() as u32;
+    let h_out = (y_max - y_min).round() as u32;
 
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
                                                  input.info().channels, input.info().alpha));
-    let mut coords = Vec::with_capacity(input.info().channels as usize);
-
-    for j in 0..h_in {
-        for i in 0..w_in {
-            let x1 = (i as f32) - (x as f32);
-            let y1 = (y as f32) - (j as f32);
+    let inverse = [cos, sin, -sin, cos];
+    let mut coords = Vec::with_capacity(2);
 
-            util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
+    for j in 0..h_out {
+        for i in 0..w_out {
+            // Rotate the center of the output pixel back to the input image
+            let x1 = (i as f32) + 0.5 + x_min;
+            let y1 = y_max - (j as f32) - 0.5;
 
-            coords[0] += x_max - 1.0;
-            coords[1] = y_max - coords[1] - 1.0;
+            util::vector_mul_mut(&inverse, &[x1, y1], &mut coords)?;
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32,
-                             input.get_pixel(i, j));
+            let x_in = (coords[0] + (x as f32)).floor();
+            let y_in = ((y as f32) - coords[1]).floor();
 
-            // Cover up "holes" left by rotation algorithm
-            if coords[0] >= 1.0 {
-                output.set_pixel(coords[0] as u32 - 1, coords[1] as u32, input.get_pixel(i, j));
+            if x_in >= 0.0 && x_in < (w_in as f32) && y_in >= 0.0 && y_in < (h_in as f32) {
+                output.set_pixel(i, j, input.get_pixel(x_in as u32, y_in as u32));
             }
         }
     }
-- 
2.43.0


From 64f441bafc4aeeab56b7b14a0a23abddda8321e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 35/39] fix: iterating over an empty image ends instead of
 panicking

---
 src/image/pixel_iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 73b58c7..acc5ea6 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -36,6 +36,11 @@ pub struct PixelIter<'a, T: Number> {
 
 impl<'a, T: Number> PixelIter<'a, T> {
     pub fn new(image: &'a Image<T>) -> Self {
+        if image.info().width == 0 || image.info().height == 0 {
+            // There is no pixel to start with
+            return PixelIter { image, x: 1, y: 0, x_max: 0, y_max: 0 };
+        }
+
         PixelIter {
             image,
             x: 0,
-- 
2.43.0


From c80f1ec16c985e91e6a74afabdacc6e8e3f5d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:50 +0000
Subject: [PATCH 36/39] fix: mapping the pixels of an image without pixels no
 longer divides by zero

---
 src/image/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 5ef8d90..ef5987c 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -404,7 +404,14 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        let channels = if self.info.size() > 0 {
+            (data.len() as u32 / self.info.size()) as u8
+        } else {
+            // There is no pixel to measure: a blank one tells how many channels `f` produces
+            let blank: Vec<T> = vec![0.into(); self.info.channels as usize];
+            f(&blank, &mut p_out);
+            p_out.len() as u8
+        };
 
         Image {
             info: ImageInfo {
@@ -436,7 +443,15 @@ impl<T: Number> Image<T> {
             data.append(&mut p_out);
         }
 
-        let channels = (data.len() as u32 / self.info.size()) as u8;
+        let channels = if self.info.size() > 0 {
+            (data.len() as u32 / self.info.size()) as u8
+        } else {
+            // There is no pixel to measure: a blank one tells how many channels `f` produces
+            let blank: Vec<T> = vec![0.into(); self.info.channels as usize];
+            f(blank.channels_without_alpha(), &mut p_out);
+            p_out.push(g(blank.alpha()));
+            p_out.len() as u8
+        };
 
         Image {
             info: ImageInfo {
-- 
2.43.0


From 65faa87efe97406863a05c691413eeb83b3a415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:52 +0000
Subject: [PATCH 37/39] fix: median and alpha-trimmed mean filters accept an
 image without rows

---
 src/filter/median.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 1494fea..8b6581d 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -15,6 +15,9 @@ pub fn median_filter(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>>
     }
 
     let mut output = Image::blank(input.info());
+    if input.info().height == 0 {
+        return Ok(output);
+    }
 
     for x in (0..output.info().width).step_by(n_cols) {
         process_cols_med(input, &mut output, radius, n_cols, x);
@@ -39,6 +42,9 @@ pub fn alpha_trimmed_mean_filter(input: &Image<u8>, radius: u32, alpha: u32) ->
     }
 
     let mut output = Image::blank(input.info());
+    if input.info().height == 0 {
+        return Ok(output);
+    }
 
     for x in (0..output.info().width).step_by(n_cols) {
         process_cols_mean(input, &mut output, radius, alpha, n_cols, x);
-- 
2.43.0


From 882c654ab51f5b7ba16607d924e4bc187f1d0a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:54 +0000
Subject: [PATCH 38/39] fix: normalising the Laplacian of an empty image no
 longer panics

---
 src/filter/edge.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/filter/edge.rs b/src/filter/edge.rs
index cfafe99..baf931e 100644
--- a/src/filter/edge.rs
+++ b/src/filter/edge.rs
@@ -57,6 +57,10 @@ pub fn laplacian_of_gaussian(input: &Image<f32>, size: u32, sigma: f32) -> ImgPr
 pub fn normalize_laplacian(input: &Image<f32>) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
+    if input.data().is_empty() {
+        return Ok(Image::blank(input.info()));
+    }
+
     let min = *input.data().iter().min_by(|x, y| x.partial_cmp(y).unwrap()).unwrap();
     let max = *input.data().iter().max_by(|x, y| x.partial_cmp(y).unwrap()).unwrap();
 
-- 
2.43.0


From e079b1fc7341a621f15697cd85d61a88eed72703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:55 +0000
Subject: [PATCH 39/39] fix: apply_2d_kernel compares the kernel with the size
 of a sub-image that is not square

---
 src/util/math.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index 92c1d26..87b0aa9 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -185,10 +185,10 @@ pub fn apply_1d_kernel(input: &SubImage<f32>, kernel: &[f32]) -> ImgProcResult<V
 /// Applies a 2D kernel
 #[cfg(not(feature = "rayon"))]
 pub fn apply_2d_kernel(input: &SubImage<f32>, output: &mut Vec<f32>, kernel: &[f32]) -> ImgProcResult<()> {
-    let size = input.info().width as usize;
+    let (width, height) = (input.info().width as usize, input.info().height as usize);
 
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_equal(kernel.len(), size * size, "pixels and kernel dimensions")?;
+    error::check_equal(kernel.len(), width * height, "pixels and kernel dimensions")?;
 
     output.clear();
     for _ in 0..input.info().channels {
@@ -196,9 +196,9 @@ pub fn apply_2d_kernel(input: &SubImage<f32>, output: &mut Vec<f32>, kernel: &[f
     }
 
     // Apply kernel
-    for y in 0..size {
-        for x in 0..size {
-            let index = y * size + x;
+    for y in 0..height {
+        for x in 0..width {
+            let index = y * width + x;
             for (j, val) in output.iter_mut().enumerate() {
                 *val += kernel[index] * input[index][j];
             }
@@ -211,17 +211,17 @@ pub fn apply_2d_kernel(input: &SubImage<f32>, output: &mut Vec<f32>, kernel: &[f
 /// Applies a 2D kernel
 #[cfg(feature = "rayon")]
 pub fn apply_2d_kernel(input: &SubImage<f32>, kernel: &[f32]) -> ImgProcResult<Vec<f32>> {
-    let size = input.info().width as usize;
+    let (width, height) = (input.info().width as usize, input.info().height as usize);
 
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_equal(kernel.len(), size * size, "pixels and kernel dimensions")?;
+    error::check_equal(kernel.len(), width * height, "pixels and kernel dimensions")?;
 
     let mut output = vec![0.0; input.info().channels as usize];
 
     // Apply kernel
-    for y in 0..size {
-        for x in 0..size {
-            let index = y * size + x;
+    for y in 0..height {
+        for x in 0..width {
+            let index = y * width + x;
             for (j, val) in output.iter_mut().enumerate() {
                 *val += kernel[index] * input[index][j];
             }
-- 
2.43.0

