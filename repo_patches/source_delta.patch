From 5730cf5da1e1c2f1ed3509a18fd829db1a5ff083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:20 +0000
Subject: [PATCH 01/56] fix: trim repeatedly until no uniform border is left

Trimming rows can make the outermost columns uniform (and vice versa). The
documentation promises to repeat until no more uniform borders can be removed,
but each side was only visited once.
---
 src/trim.c | 292 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 156 insertions(+), 136 deletions(-)

diff --git a/src/trim.c b/src/trim.c
index 63680ee..24f4784 100644
--- a/src/trim.c
+++ b/src/trim.c
@@ -83,94 +83,104 @@ uint8_t *fcv_trim(
   uint32_t right = w;
   uint32_t bottom = h;
 
-  // Trim from the left
-  while (left < right) {
-    const uint8_t *ref_pixel = &data[(top * w + left) * channels];
-    bool can_trim = true;
-
-    // Check if the entire left column has the same color as the reference pixel
-    for (uint32_t y = top; y < bottom; y++) {
-      const uint8_t *pixel = &data[(y * w + left) * channels];
-      if (!pixels_match(pixel, ref_pixel, channels)) {
-        can_trim = false;
+  // Removing a row can make a column uniform (and vice versa),
+  // so repeat until no more borders can be removed
+  bool trimmed;
+  do {
+    uint32_t prev_width = right - left;
+    uint32_t prev_height = bottom - top;
+
+    // Trim from the left
+    while (left < right) {
+      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      bool can_trim = true;
+
+      // Check if the entire left column has the same color as the reference pixel
+      for (uint32_t y = top; y < bottom; y++) {
+        const uint8_t *pixel = &data[(y * w + left) * channels];
+        if (!pixels_match(pixel, ref_pixel, channels)) {
+          can_trim = false;
+          break;
+        }
+      }
+
+      if (can_trim && right - left > 1) {
+        left++;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim && right - left > 1) {
-      left++;
-    }
-    else {
-      break;
-    }
-  }
+    // Trim from the right
+    while (left < right) {
+      const uint8_t *ref_pixel = &data[(top * w + (right - 1)) * channels];
+      bool can_trim = true;
+
+      // Check if the entire right column has the same color as the reference
+      // pixel
+      for (uint32_t y = top; y < bottom; y++) {
+        const uint8_t *pixel = &data[(y * w + (right - 1)) * channels];
+        if (!pixels_match(pixel, ref_pixel, channels)) {
+          can_trim = false;
+          break;
+        }
+      }
 
-  // Trim from the right
-  while (left < right) {
-    const uint8_t *ref_pixel = &data[(top * w + (right - 1)) * channels];
-    bool can_trim = true;
-
-    // Check if the entire right column has the same color as the reference
-    // pixel
-    for (uint32_t y = top; y < bottom; y++) {
-      const uint8_t *pixel = &data[(y * w + (right - 1)) * channels];
-      if (!pixels_match(pixel, ref_pixel, channels)) {
-        can_trim = false;
+      if (can_trim && right - left > 1) {
+        right--;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim && right - left > 1) {
-      right--;
-    }
-    else {
-      break;
-    }
-  }
-
-  // Trim from the top
-  while (top < bottom && bottom - top > 1) {
-    const uint8_t *ref_pixel = &data[(top * w + left) * channels];
-    bool can_trim = true;
+    // Trim from the top
+    while (top < bottom && bottom - top > 1) {
+      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      bool can_trim = true;
+
+      // Check if the entire top row has the same color as the reference pixel
+      for (uint32_t x = left; x < right; x++) {
+        const uint8_t *pixel = &data[(top * w + x) * channels];
+        if (!pixels_match(pixel, ref_pixel, channels)) {
+          can_trim = false;
+          break;
+        }
+      }
 
-    // Check if the entire top row has the same color as the reference pixel
-    for (uint32_t x = left; x < right; x++) {
-      const uint8_t *pixel = &data[(top * w + x) * channels];
-      if (!pixels_match(pixel, ref_pixel, channels)) {
-        can_trim = false;
+      if (can_trim) {
+        top++;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim) {
-      top++;
-    }
-    else {
-      break;
-    }
-  }
-
-  // Trim from the bottom
-  while (top < bottom && bottom - top > 1) {
-    const uint8_t *ref_pixel = &data[((bottom - 1) * w + left) * channels];
-    bool can_trim = true;
+    // Trim from the bottom
+    while (top < bottom && bottom - top > 1) {
+      const uint8_t *ref_pixel = &data[((bottom - 1) * w + left) * channels];
+      bool can_trim = true;
+
+      // Check if the entire bottom row has the same color as the reference pixel
+      for (uint32_t x = left; x < right; x++) {
+        const uint8_t *pixel = &data[((bottom - 1) * w + x) * channels];
+        if (!pixels_match(pixel, ref_pixel, channels)) {
+          can_trim = false;
+          break;
+        }
+      }
 
-    // Check if the entire bottom row has the same color as the reference pixel
-    for (uint32_t x = left; x < right; x++) {
-      const uint8_t *pixel = &data[((bottom - 1) * w + x) * channels];
-      if (!pixels_match(pixel, ref_pixel, channels)) {
-        can_trim = false;
+      if (can_trim) {
+        bottom--;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim) {
-      bottom--;
-    }
-    else {
-      break;
-    }
-  }
+    trimmed = right - left != prev_width || bottom - top != prev_height;
+  } while (trimmed);
 
   // Calculate new dimensions
   uint32_t new_width = right - left;
@@ -252,93 +262,103 @@ uint8_t *fcv_trim_threshold(
   uint32_t right = w;
   uint32_t bottom = h;
 
-  // Trim from the left
-  while (left < right) {
-    const uint8_t *ref_pixel = &data[(top * w + left) * channels];
-    bool can_trim = true;
+  // Removing a row can make a column uniform (and vice versa),
+  // so repeat until no more borders can be removed
+  bool trimmed;
+  do {
+    uint32_t prev_width = right - left;
+    uint32_t prev_height = bottom - top;
+
+    // Trim from the left
+    while (left < right) {
+      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      bool can_trim = true;
+
+      // Check if the entire left column matches within threshold
+      for (uint32_t y = top; y < bottom; y++) {
+        const uint8_t *pixel = &data[(y * w + left) * channels];
+        if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
+          can_trim = false;
+          break;
+        }
+      }
 
-    // Check if the entire left column matches within threshold
-    for (uint32_t y = top; y < bottom; y++) {
-      const uint8_t *pixel = &data[(y * w + left) * channels];
-      if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
-        can_trim = false;
+      if (can_trim && right - left > 1) {
+        left++;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim && right - left > 1) {
-      left++;
-    }
-    else {
-      break;
-    }
-  }
-
-  // Trim from the right
-  while (left < right) {
-    const uint8_t *ref_pixel = &data[(top * w + (right - 1)) * channels];
-    bool can_trim = true;
+    // Trim from the right
+    while (left < right) {
+      const uint8_t *ref_pixel = &data[(top * w + (right - 1)) * channels];
+      bool can_trim = true;
+
+      // Check if the entire right column matches within threshold
+      for (uint32_t y = top; y < bottom; y++) {
+        const uint8_t *pixel = &data[(y * w + (right - 1)) * channels];
+        if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
+          can_trim = false;
+          break;
+        }
+      }
 
-    // Check if the entire right column matches within threshold
-    for (uint32_t y = top; y < bottom; y++) {
-      const uint8_t *pixel = &data[(y * w + (right - 1)) * channels];
-      if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
-        can_trim = false;
+      if (can_trim && right - left > 1) {
+        right--;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim && right - left > 1) {
-      right--;
-    }
-    else {
-      break;
-    }
-  }
-
-  // Trim from the top
-  while (top < bottom && bottom - top > 1) {
-    const uint8_t *ref_pixel = &data[(top * w + left) * channels];
-    bool can_trim = true;
+    // Trim from the top
+    while (top < bottom && bottom - top > 1) {
+      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      bool can_trim = true;
+
+      // Check if the entire top row matches within threshold
+      for (uint32_t x = left; x < right; x++) {
+        const uint8_t *pixel = &data[(top * w + x) * channels];
+        if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
+          can_trim = false;
+          break;
+        }
+      }
 
-    // Check if the entire top row matches within threshold
-    for (uint32_t x = left; x < right; x++) {
-      const uint8_t *pixel = &data[(top * w + x) * channels];
-      if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
-        can_trim = false;
+      if (can_trim) {
+        top++;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim) {
-      top++;
-    }
-    else {
-      break;
-    }
-  }
-
-  // Trim from the bottom
-  while (top < bottom && bottom - top > 1) {
-    const uint8_t *ref_pixel = &data[((bottom - 1) * w + left) * channels];
-    bool can_trim = true;
+    // Trim from the bottom
+    while (top < bottom && bottom - top > 1) {
+      const uint8_t *ref_pixel = &data[((bottom - 1) * w + left) * channels];
+      bool can_trim = true;
+
+      // Check if the entire bottom row matches within threshold
+      for (uint32_t x = left; x < right; x++) {
+        const uint8_t *pixel = &data[((bottom - 1) * w + x) * channels];
+        if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
+          can_trim = false;
+          break;
+        }
+      }
 
-    // Check if the entire bottom row matches within threshold
-    for (uint32_t x = left; x < right; x++) {
-      const uint8_t *pixel = &data[((bottom - 1) * w + x) * channels];
-      if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
-        can_trim = false;
+      if (can_trim) {
+        bottom--;
+      }
+      else {
         break;
       }
     }
 
-    if (can_trim) {
-      bottom--;
-    }
-    else {
-      break;
-    }
-  }
+    trimmed = right - left != prev_width || bottom - top != prev_height;
+  } while (trimmed);
 
   // Calculate new dimensions
   uint32_t new_width = right - left;
-- 
2.43.0


From 65aa00644491f96d532f1e3837c5ea1333917048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:18 +0000
Subject: [PATCH 02/56] fix: align the area filter of resize with the input
 pixels

Input pixel i covers the interval [i, i + 1), but the filter window was
computed in pixel-centre coordinates. Shrunk images were shifted by half an
input pixel, and mixed shrinking/enlarging could produce black rows.
---
 src/conversion.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index fb47d7c..46d1298 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -661,8 +661,9 @@ uint8_t *fcv_resize(
   for (uint32_t out_y = 0; out_y < *out_height; out_y++) {
     for (uint32_t out_x = 0; out_x < *out_width; out_x++) {
       if (resize_x < 1.0 || resize_y < 1.0) {
-        double src_x = (out_x + 0.5) / resize_x - 0.5;
-        double src_y = (out_y + 0.5) / resize_y - 0.5;
+        // Input pixel i covers the interval [i, i + 1)
+        double src_x = (out_x + 0.5) / resize_x;
+        double src_y = (out_y + 0.5) / resize_y;
 
         double filter_size_x = 1.0 / resize_x;
         double filter_size_y = 1.0 / resize_y;
-- 
2.43.0


From be0a98c5f3b87a1b3fc318f52d7af1ca71be9b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:07 +0000
Subject: [PATCH 03/56] fix: resize to the exact target size despite
 floating-point rounding

The product of size and factor can end up just below the intended integer,
e.g. 49 * (256.0 / 49) or 100 * 0.29, which lost one row or column.
---
 src/conversion.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 46d1298..9a3cb5c 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -631,12 +631,14 @@ uint8_t *fcv_resize(
   double new_width_d = (double)width * resize_x;
   double new_height_d = (double)height * resize_y;
 
-  if (new_width_d > UINT32_MAX || new_height_d > UINT32_MAX) {
+  if (new_width_d >= UINT32_MAX || new_height_d >= UINT32_MAX) {
     return NULL;
   }
 
-  *out_width = (uint32_t)new_width_d;
-  *out_height = (uint32_t)new_height_d;
+  // Round down, but don't lose a pixel if the product is only below an integer
+  // due to the limited floating-point precision (e.g. 49 * (256.0 / 49))
+  *out_width = (uint32_t)(new_width_d * (1.0 + 1e-12));
+  *out_height = (uint32_t)(new_height_d * (1.0 + 1e-12));
 
   if (*out_width == 0 || *out_height == 0) {
     return NULL;
-- 
2.43.0


From 7ea626caf28302f6e8b0c6673c1d396a75ff624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 04/56] fix: round instead of truncate in gaussian blur

Truncating the weighted average darkened images by up to two levels: even a
plain white image became 254.
---
 src/conversion.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 9a3cb5c..ddba3ca 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -435,9 +435,9 @@ uint8_t *fcv_apply_gaussian_blur(
       }
 
       uint32_t rgba_index = (y * width + x) * 4;
-      blurred_data[rgba_index] = r_sum / weight_sum;
-      blurred_data[rgba_index + 1] = g_sum / weight_sum;
-      blurred_data[rgba_index + 2] = b_sum / weight_sum;
+      blurred_data[rgba_index] = r_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 1] = g_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 2] = b_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 3] = 255;
     }
   }
@@ -480,9 +480,9 @@ uint8_t *fcv_apply_gaussian_blur(
       }
 
       uint32_t rgba_index = (y * width + x) * 4;
-      blurred_data[rgba_index] = r_sum / weight_sum;
-      blurred_data[rgba_index + 1] = g_sum / weight_sum;
-      blurred_data[rgba_index + 2] = b_sum / weight_sum;
+      blurred_data[rgba_index] = r_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 1] = g_sum / weight_sum + 0.5f;
+      blurred_data[rgba_index + 2] = b_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 3] = 255;
     }
   }
-- 
2.43.0


From c12ebfdf46e99c0dc51bcb2929dc3a55eef619d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 05/56] fix: center the gaussian kernel for fractional blur
 radii

Subtracting the fractional radius and truncating made the kernel asymmetric
(e.g. offsets -2 -1 0 0 1 for radius 2.5), which shifted the image.
---
 src/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index ddba3ca..2106c45 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -400,7 +400,7 @@ uint8_t *fcv_apply_gaussian_blur(
   float sqrt_two_pi_sigma = sqrt(2 * M_PI) * sigma;
 
   for (uint32_t i = 0; i < kernel_size; i++) {
-    int32_t x = i - radius;
+    int32_t x = (int32_t)i - (int32_t)radius;
     kernel[i] = exp(-(x * x) / two_sigma_sq) / sqrt_two_pi_sigma;
   }
 
-- 
2.43.0


From fb4eb4da37deed57a149f0cb37a7c8ff8d0043a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 06/56] fix: avoid NaN weights for very small blur radii

Sigma squared underflows to 0 for tiny radii, so that the weights became NaN
and the result undefined.
---
 src/conversion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 2106c45..b181a8a 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -397,11 +397,11 @@ uint8_t *fcv_apply_gaussian_blur(
   float sigma = radius / 3.0;
   float sigma_sq = sigma * sigma;
   float two_sigma_sq = 2 * sigma_sq;
-  float sqrt_two_pi_sigma = sqrt(2 * M_PI) * sigma;
 
   for (uint32_t i = 0; i < kernel_size; i++) {
     int32_t x = (int32_t)i - (int32_t)radius;
-    kernel[i] = exp(-(x * x) / two_sigma_sq) / sqrt_two_pi_sigma;
+    // The weights are normalized by their sum when the kernel is applied
+    kernel[i] = x == 0 ? 1.0 : exp(-(x * x) / two_sigma_sq);
   }
 
   // Apply the kernel in the horizontal direction
-- 
2.43.0


From dd1d84d5d006731914de8840718376288b427289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 07/56] fix: use double precision for the variance in Otsu
 thresholding

---
 src/conversion.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index b181a8a..a10779c 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -276,20 +276,20 @@ uint8_t *fcv_otsu_threshold_rgba(
     histogram[grayscale_img[i]]++;
   }
 
-  float histogram_norm[256] = {0};
+  double histogram_norm[256] = {0};
   for (uint32_t i = 0; i < 256; i++) {
-    histogram_norm[i] = (float)histogram[i] / img_length_px;
+    histogram_norm[i] = (double)histogram[i] / img_length_px;
   }
 
-  float global_mean = 0.0;
+  double global_mean = 0.0;
 
   for (uint32_t i = 0; i < 256; i++) {
     global_mean += i * histogram_norm[i];
   }
 
-  float cumulative_sum = 0.0;
-  float cumulative_mean = 0.0;
-  float max_variance = 0.0;
+  double cumulative_sum = 0.0;
+  double cumulative_mean = 0.0;
+  double max_variance = 0.0;
   int32_t optimal_threshold = 0;
 
   for (uint32_t i = 0; i < 256; i++) {
@@ -300,10 +300,10 @@ uint8_t *fcv_otsu_threshold_rgba(
       continue;
     }
 
-    float mean1 = cumulative_mean / cumulative_sum;
-    float mean2 = (global_mean - cumulative_mean) / (1 - cumulative_sum);
+    double mean1 = cumulative_mean / cumulative_sum;
+    double mean2 = (global_mean - cumulative_mean) / (1 - cumulative_sum);
 
-    float class_variance =
+    double class_variance =
       cumulative_sum * (1 - cumulative_sum) * (mean1 - mean2) * (mean1 - mean2);
 
     if (class_variance > max_variance) {
-- 
2.43.0


From 809da4e85c145ccfb95c6c985de289b447a1369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:36 +0000
Subject: [PATCH 08/56] fix: keep double thresholds of Otsu thresholding within
 0 to 255

---
 src/conversion.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index a10779c..3fa3bfb 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -315,11 +315,14 @@ uint8_t *fcv_otsu_threshold_rgba(
   const int32_t threshold_range_offset = 16;
 
   if (use_double_threshold) {
+    // Keep the thresholds in the range of uint8_t
+    int32_t lower_threshold = optimal_threshold - threshold_range_offset;
+    int32_t upper_threshold = optimal_threshold + threshold_range_offset;
     apply_double_threshold(
       img_length_px,
       grayscale_img,
-      optimal_threshold - threshold_range_offset,
-      optimal_threshold + threshold_range_offset
+      lower_threshold < 0 ? 0 : lower_threshold,
+      upper_threshold > 255 ? 255 : upper_threshold
     );
   }
   else {
-- 
2.43.0


From ea97319599780c92e42e5746c49e16de09e30c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:11 +0000
Subject: [PATCH 09/56] fix: convert RGB input correctly in Sobel edge
 detection

---
 src/sobel_edge_detection.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sobel_edge_detection.c b/src/sobel_edge_detection.c
index 755e692..c7487a8 100644
--- a/src/sobel_edge_detection.c
+++ b/src/sobel_edge_detection.c
@@ -34,7 +34,8 @@ uint8_t *fcv_sobel_edge_detection(
   uint32_t channels,
   uint8_t const *const data
 ) {
-  if (!data || width == 0 || height == 0 || channels == 0) {
+  if (!data || width == 0 || height == 0 ||
+      (channels != 1 && channels != 3 && channels != 4)) {
     return NULL;
   }
 
@@ -57,8 +58,21 @@ uint8_t *fcv_sobel_edge_detection(
     grayscale_data = (uint8_t *)data;
     allocated_grayscale = false;
   }
+  else if (channels == 3) {
+    // RGB input without alpha channel, convert to grayscale
+    grayscale_data = malloc(img_length_px);
+    if (!grayscale_data) {
+      return NULL;
+    }
+    for (size_t i = 0; i < img_length_px; i++) {
+      uint8_t const *const pixel = data + i * 3;
+      grayscale_data[i] =
+        (pixel[0] * R_WEIGHT + pixel[1] * G_WEIGHT + pixel[2] * B_WEIGHT) >> 8;
+    }
+    allocated_grayscale = true;
+  }
   else {
-    // Multi-channel input, convert to grayscale
+    // RGBA input, convert to grayscale
     grayscale_data = fcv_rgba_to_grayscale(width, height, data);
     if (!grayscale_data) {
       return NULL;
-- 
2.43.0


From d02aa87aaf68d1d39118db6c02b2e303954faf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:49 +0000
Subject: [PATCH 10/56] fix: avoid integer overflow for large disk radii in
 binary morphology

---
 src/binary_closing_disk.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/binary_closing_disk.c b/src/binary_closing_disk.c
index 5e2fcbd..ba6ee5f 100644
--- a/src/binary_closing_disk.c
+++ b/src/binary_closing_disk.c
@@ -29,6 +29,12 @@ uint8_t *fcv_binary_dilation_disk(
   }
   size_t num_pixels = (size_t)width * (size_t)height;
 
+  // A larger disk already covers the whole image from every pixel,
+  // so limiting the radius changes nothing but avoids integer overflow
+  if (radius > (int64_t)width + height) {
+    radius = width + height;
+  }
+
   uint8_t *result = malloc(num_pixels);
   if (!result) {
     return NULL;
@@ -50,7 +56,7 @@ uint8_t *fcv_binary_dilation_disk(
             // Check if point32_t is within disk (use slightly larger radius for
             // better connectivity)
             double r_eff = radius + 0.5;
-            if (dx * dx + dy * dy <= r_eff * r_eff) {
+            if ((double)dx * dx + (double)dy * dy <= r_eff * r_eff) {
               int32_t ny = y + dy;
               int32_t nx = x + dx;
 
@@ -86,6 +92,12 @@ static uint8_t *binary_erosion_disk_internal(
   }
   size_t num_pixels = (size_t)width * (size_t)height;
 
+  // A larger disk already covers the whole image from every pixel,
+  // so limiting the radius changes nothing but avoids integer overflow
+  if (radius > (int64_t)width + height) {
+    radius = width + height;
+  }
+
   uint8_t *result = malloc(num_pixels);
   if (!result) {
     return NULL;
@@ -107,7 +119,7 @@ static uint8_t *binary_erosion_disk_internal(
           // Check if point32_t is within disk (use slightly larger radius for
           // better connectivity)
           double r_eff = radius + 0.5;
-          if (dx * dx + dy * dy <= r_eff * r_eff) {
+          if ((double)dx * dx + (double)dy * dy <= r_eff * r_eff) {
             int32_t ny = y + dy;
             int32_t nx = x + dx;
 
-- 
2.43.0


From d35a5d85c434622d7870665ef1b8353558da55b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 11/56] fix: update the decision variable of Bresenham's circle
 algorithm correctly

---
 src/draw.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 7c0375c..e65a43b 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -164,14 +164,14 @@ void fcv_draw_circle(
   fcv_draw_circle_points(data, width, height, channels, cx, cy, x, y, r, g, b);
 
   while (y >= x) {
-    x++;
     if (d > 0) {
-      y--;
       d = d + 4 * (x - y) + 10;
+      y--;
     }
     else {
       d = d + 4 * x + 6;
     }
+    x++;
     fcv_draw_circle_points(
       data,
       width,
@@ -244,14 +244,14 @@ void fcv_draw_disk(
   fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
 
   while (y >= x) {
-    x++;
     if (d > 0) {
-      y--;
       d = d + 4 * (x - y) + 10;
+      y--;
     }
     else {
       d = d + 4 * x + 6;
     }
+    x++;
     fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
   }
 }
-- 
2.43.0


From 7df0cd83d1842778e4a5a1bd7d7d59bc2c6886b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 12/56] fix: draw a single pixel for circles and disks of
 radius 0

---
 src/draw.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index e65a43b..5916b42 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -163,7 +163,7 @@ void fcv_draw_circle(
   // Initial points
   fcv_draw_circle_points(data, width, height, channels, cx, cy, x, y, r, g, b);
 
-  while (y >= x) {
+  while (y > x) {
     if (d > 0) {
       d = d + 4 * (x - y) + 10;
       y--;
@@ -243,7 +243,7 @@ void fcv_draw_disk(
   // Initial filled lines
   fcv_fill_disk_lines(data, width, height, channels, cx, cy, x, y, r, g, b);
 
-  while (y >= x) {
+  while (y > x) {
     if (d > 0) {
       d = d + 4 * (x - y) + 10;
       y--;
-- 
2.43.0


From 1541b4b563bf666e3046f0491aa6ff59b5f72066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:46 +0000
Subject: [PATCH 13/56] fix: clip the lines of large disks to the image

---
 src/draw.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index 5916b42..ce097e5 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -92,8 +92,13 @@ void fcv_fill_disk_lines(
   uint8_t g,
   uint8_t b
 ) {
+  // Clip the lines horizontally to the image
+  int64_t last_x = (int64_t)width - 1;
+  int64_t start = cx - x > 0 ? cx - x : 0;
+  int64_t end = cx + x < last_x ? cx + x : last_x;
+
   // Fill horizontal lines at y offsets
-  for (int32_t i = cx - x; i <= cx + x; i++) {
+  for (int64_t i = start; i <= end; i++) {
     fcv_set_circle_pixel(data, width, height, channels, i, cy + y, r, g, b);
     fcv_set_circle_pixel(data, width, height, channels, i, cy - y, r, g, b);
   }
@@ -101,7 +106,9 @@ void fcv_fill_disk_lines(
   // Fill horizontal lines at x offsets
   // (avoid duplicating center line when x == y)
   if (x != y) {
-    for (int32_t i = cx - y; i <= cx + y; i++) {
+    start = cx - y > 0 ? cx - y : 0;
+    end = cx + y < last_x ? cx + y : last_x;
+    for (int64_t i = start; i <= end; i++) {
       fcv_set_circle_pixel(data, width, height, channels, i, cy + x, r, g, b);
       fcv_set_circle_pixel(data, width, height, channels, i, cy - x, r, g, b);
     }
-- 
2.43.0


From ece0e5324931a42d4f777c8f6b5c9b46795bd0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 14/56] fix: avoid integer overflow for far away or huge
 circles and disks

---
 src/draw.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index ce097e5..020af16 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -150,7 +150,13 @@ void fcv_draw_circle(
   }
 
   // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  if (radius > INT32_MAX / 8) {
+    return;
+  }
+
+  // A center that far away can not be converted to int32_t or
+  // would overflow later on, and the shape does not reach the image anyway
+  if (fabs(center_x) > INT32_MAX / 2 || fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
@@ -230,7 +236,13 @@ void fcv_draw_disk(
   }
 
   // Reject excessive radius to prevent integer overflow in Bresenham algorithm
-  if (radius > INT32_MAX / 2) {
+  if (radius > INT32_MAX / 8) {
+    return;
+  }
+
+  // A center that far away can not be converted to int32_t or
+  // would overflow later on, and the shape does not reach the image anyway
+  if (fabs(center_x) > INT32_MAX / 2 || fabs(center_y) > INT32_MAX / 2) {
     return;
   }
 
-- 
2.43.0


From 771a5f73668065bcf4961c4f1f1ca8a30b5ade3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 15/56] fix: avoid integer overflow in the histogram of large
 images

---
 src/histogram.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/histogram.c b/src/histogram.c
index 398f17c..60dce3f 100644
--- a/src/histogram.c
+++ b/src/histogram.c
@@ -149,7 +149,7 @@ uint8_t *fcv_generate_histogram(
   for (int x = 0; x < 256; x++) {
     if (is_grayscale) {
       // Draw white histogram for grayscale
-      uint32_t bar_height = (hist_gray[x] * hist_height) / max_count;
+      uint32_t bar_height = ((uint64_t)hist_gray[x] * hist_height) / max_count;
       for (uint32_t y = 0; y < bar_height; y++) {
         uint32_t output_x = x;
         uint32_t output_y = hist_height - 1 - y;
@@ -163,11 +163,11 @@ uint8_t *fcv_generate_histogram(
     }
     else {
       // Draw overlapping colored histograms for RGB
-      uint32_t bar_height_r = (hist_r[x] * hist_height) / max_count;
+      uint32_t bar_height_r = ((uint64_t)hist_r[x] * hist_height) / max_count;
       uint32_t bar_height_g =
-        (channels >= 3) ? (hist_g[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? ((uint64_t)hist_g[x] * hist_height) / max_count : 0;
       uint32_t bar_height_b =
-        (channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? ((uint64_t)hist_b[x] * hist_height) / max_count : 0;
 
       uint32_t max_bar_height = bar_height_r;
       if (bar_height_g > max_bar_height) {
-- 
2.43.0


From 7265e9986543901d6fa818afdcf9a5fc828cca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 16/56] fix: keep the flooding order of watershed independent
 of duplicate markers

---
 src/watershed_segmentation.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 5457a4f..5452242 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -177,14 +177,13 @@ uint8_t *fcv_watershed_segmentation(
     return NULL;
   }
 
-  // Initialize markers and add to queue
+  // Initialize markers
   for (uint32_t m = 0; m < num_markers; m++) {
     int32_t marker_x = (int32_t)markers[m].x;
     int32_t marker_y = (int32_t)markers[m].y;
     int32_t idx = marker_y * width + marker_x;
     int32_t label = (int32_t)m; // Label starts from 0
     labels[idx] = label;
-    enqueue(queue, marker_x, marker_y, label);
   }
 
   // Level-wise watershed algorithm - process pixels in elevation order
-- 
2.43.0


From bb6844b68299e525947a5acf93cb09e54d1f37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 17/56] fix: check watershed markers before converting them to
 integers

---
 src/watershed_segmentation.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index 5452242..d2a9f88 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -125,12 +125,10 @@ uint8_t *fcv_watershed_segmentation(
       return NULL;
     }
 
-    int32_t marker_x = (int32_t)markers[m].x;
-    int32_t marker_y = (int32_t)markers[m].y;
-
     // Check bounds - if any marker is invalid, fail the entire operation
-    if (marker_x < 0 || marker_x >= (int32_t)width || marker_y < 0 ||
-        marker_y >= (int32_t)height) {
+    // (before the conversion to int32_t, which truncates towards zero)
+    if (markers[m].x <= -1 || markers[m].x >= width || markers[m].y <= -1 ||
+        markers[m].y >= height) {
       return NULL;
     }
   }
-- 
2.43.0


From 76a08767482b5ef4624b5ef99d9f6ae81ce83490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 18/56] fix: avoid out-of-bounds access in foerstner_corner for
 small images

---
 src/foerstner_corner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 9743a2f..4ca6e18 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -110,8 +110,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Simple box filter smoothing
-  for (uint32_t y = half_kernel; y < height - half_kernel; y++) {
-    for (uint32_t x = half_kernel; x < width - half_kernel; x++) {
+  for (uint32_t y = half_kernel; y + half_kernel < height; y++) {
+    for (uint32_t x = half_kernel; x + half_kernel < width; x++) {
       uint32_t idx = y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int32_t count = 0;
-- 
2.43.0


From 01dbf6399932a59b15322a5bc360405496439c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:39 +0000
Subject: [PATCH 19/56] fix: handle all values of sigma in foerstner_corner

---
 src/foerstner_corner.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 4ca6e18..0215ed0 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -23,7 +23,7 @@ uint8_t *fcv_foerstner_corner(
   uint8_t const *const gray_data,
   double sigma
 ) {
-  if (!gray_data || width == 0 || height == 0) {
+  if (!gray_data || width == 0 || height == 0 || !isfinite(sigma)) {
     return NULL;
   }
 
@@ -87,9 +87,12 @@ uint8_t *fcv_foerstner_corner(
 
   // Apply Gaussian smoothing to structure tensor elements
   // For simplicity, use a basic box filter approximation when sigma is small
-  int32_t kernel_size = (int32_t)(3 * sigma) | 1; // Ensure odd size
-  if (kernel_size < 3) {
-    kernel_size = 3;
+  int32_t kernel_size = 3;
+  if (3 * sigma >= INT32_MAX) {
+    kernel_size = INT32_MAX;
+  }
+  else if (3 * sigma > kernel_size) {
+    kernel_size = (int32_t)(3 * sigma) | 1; // Ensure odd size
   }
   int32_t half_kernel = kernel_size / 2;
 
-- 
2.43.0


From 54b0b53842403d4084b0daf76deb5a0d347efcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:10 +0000
Subject: [PATCH 20/56] fix: do not modify the caller's matrix in
 apply_matrix_3x3

---
 src/perspectivetransform.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 5c4f496..3c46f3d 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -286,7 +286,9 @@ uint8_t *fcv_apply_matrix_3x3(
     return NULL;
   }
 
-  // Patch flip matrix if needed
+  // Patch flip matrix if needed (in a copy, as the matrix belongs to the caller)
+  Matrix3x3 patched_mat = *tmat;
+  tmat = &patched_mat;
   if (fabs(tmat->m00 + 1.0) < 1e-9 && fabs(tmat->m11 + 1.0) < 1e-9 &&
       tmat->m02 == 0.0 && tmat->m12 == 0.0) {
     tmat->m02 = in_width - 1;
-- 
2.43.0


From 78e90630820cdcb7bc0657b04955425eaddd8fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:10 +0000
Subject: [PATCH 21/56] fix: avoid integer overflow for far away positions in
 apply_matrix_3x3

---
 src/perspectivetransform.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 3c46f3d..d252e74 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -313,6 +313,12 @@ uint8_t *fcv_apply_matrix_3x3(
       double srcX = (tmat->m00 * out_x + tmat->m01 * out_y + tmat->m02) / w;
       double srcY = (tmat->m10 * out_x + tmat->m11 * out_y + tmat->m12) / w;
 
+      // Skip positions outside of the source image
+      // (also prevents integer overflow in the following conversions)
+      if (!(srcX >= 0 && srcX < in_width && srcY >= 0 && srcY < in_height)) {
+        continue;
+      }
+
       // Convert source coordinates to integers
       int32_t x0 = (int32_t)floor(srcX);
       int32_t y0 = (int32_t)floor(srcY);
-- 
2.43.0


From 1eade75558ce625423826e5b7537d2ada4a070ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:38 +0000
Subject: [PATCH 22/56] fix: round instead of truncate in apply_matrix_3x3

---
 src/perspectivetransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index d252e74..e38e1be 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -352,7 +352,7 @@ uint8_t *fcv_apply_matrix_3x3(
         for (int32_t c = 0; c < 4; ++c) {
           out_data[(out_y * out_width + out_x) * 4 + c] =
             (uint8_t)(p00[c] * (1 - dx) * (1 - dy) + p01[c] * dx * (1 - dy) +
-                      p10[c] * (1 - dx) * dy + p11[c] * dx * dy);
+                      p10[c] * (1 - dx) * dy + p11[c] * dx * dy + 0.5);
         }
       }
     }
-- 
2.43.0


From 17b1744060328b2486357ce220d782c9ef57976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:09 +0000
Subject: [PATCH 23/56] fix: always return an allocated matrix from
 calculate_perspective_transform

---
 src/extract_document.c     | 20 ++------------------
 src/perspectivetransform.c | 32 ++++++++++++++------------------
 2 files changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/extract_document.c b/src/extract_document.c
index 5d4f982..1e1a967 100644
--- a/src/extract_document.c
+++ b/src/extract_document.c
@@ -56,15 +56,7 @@ uint8_t *fcv_extract_document(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
@@ -151,15 +143,7 @@ uint8_t *fcv_extract_document_auto(
     transform_matrix
   );
 
-  // Free the transformation matrix if it's not the identity matrix
-  if (transform_matrix &&
-      !(transform_matrix->m00 == 1.0 && transform_matrix->m01 == 0.0 &&
-        transform_matrix->m02 == 0.0 && transform_matrix->m10 == 0.0 &&
-        transform_matrix->m11 == 1.0 && transform_matrix->m12 == 0.0 &&
-        transform_matrix->m20 == 0.0 && transform_matrix->m21 == 0.0 &&
-        transform_matrix->m22 == 1.0)) {
-    free(transform_matrix);
-  }
+  free(transform_matrix);
 
   return result;
 }
diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index e38e1be..0d0d056 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -103,6 +103,8 @@ int32_t solve_linear_system(double A[8][8], double b[8], double x[8]) {
 /**
  * Calculate the perspective transformation matrix
  * from the source and destination corner coordinates.
+ * Returns the identity matrix if there is no such transformation.
+ * The caller must free the returned matrix.
  */
 Matrix3x3 *fcv_calculate_perspective_transform(
   Corners *src_corners,
@@ -113,12 +115,18 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   double b[8] = {0};
   double x[8] = {0};
 
+  // The result belongs to the caller, so it is always allocated
+  Matrix3x3 *result = malloc(sizeof(Matrix3x3));
+  if (!result) {
+    return NULL;
+  }
+
   // Identity matrix as fallback
-  static Matrix3x3 identity = {1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
+  *result = (Matrix3x3){1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0};
 
   if (!src_corners || !dst_corners) {
     log("Error: NULL pointer passed to calculate_perspective_transform\n");
-    return &identity;
+    return result;
   }
 
 #ifdef DEBUG_LOGGING
@@ -159,7 +167,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
       isnan(dst_corners->br_x) || isnan(dst_corners->br_y) ||
       isnan(dst_corners->bl_x) || isnan(dst_corners->bl_y)) {
     log("Error: Invalid coordinates (NaN) detected\n");
-    return &identity;
+    return result;
   }
 
   // Set up the system of equations
@@ -197,7 +205,7 @@ Matrix3x3 *fcv_calculate_perspective_transform(
     // Validate extracted coordinates
     if (isinf(srcX) || isinf(srcY) || isinf(dstX) || isinf(dstY)) {
       log("Error: Invalid coordinates (Inf) detected\n");
-      return &identity;
+      return result;
     }
 
     // First four equations for x coordinates
@@ -220,18 +228,17 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   log("Solve the system of equations …\n");
   if (!solve_linear_system(A, b, x)) {
     log("Failed to solve system, returning identity matrix\n");
-    return &identity;
+    return result;
   }
 
   // Validate solution
   for (int32_t i = 0; i < 8; i++) {
     if (isnan(x[i]) || isinf(x[i]) || fabs(x[i]) > 1e6) {
       log("Error: Invalid solution values detected\n");
-      return &identity;
+      return result;
     }
   }
 
-  Matrix3x3 *result = malloc(sizeof(Matrix3x3));
   *result = (Matrix3x3){x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], 1.0};
 
 #ifdef DEBUG_LOGGING
@@ -241,17 +248,6 @@ Matrix3x3 *fcv_calculate_perspective_transform(
   fprintf(stderr, "%f, %f, %f\n", result->m20, result->m21, result->m22);
 #endif
 
-  // Final validation of the result matrix
-  if (isnan(result->m00) || isnan(result->m01) || isnan(result->m02) ||
-      isnan(result->m10) || isnan(result->m11) || isnan(result->m12) ||
-      isnan(result->m20) || isnan(result->m21) || isnan(result->m22) ||
-      isinf(result->m00) || isinf(result->m01) || isinf(result->m02) ||
-      isinf(result->m10) || isinf(result->m11) || isinf(result->m12) ||
-      isinf(result->m20) || isinf(result->m21) || isinf(result->m22)) {
-    log("Error: Invalid values in result matrix\n");
-    return &identity;
-  }
-
   return result;
 }
 
-- 
2.43.0


From 8416b0f45bf042dc01ad1648420546b2856ed226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 24/56] fix: handle images with fewer than 4 corner peaks in
 detect_corners

---
 src/corner_detection.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index ff61e14..6fccd03 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -384,8 +384,17 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     exit(EXIT_FAILURE);
   }
 
+  // At least 3 corners are necessary to determine the document
+  if (peaks->count < 3) {
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
+
   // First, sort all corners to get them in clockwise order
-  Point2D *sorted_result = malloc(peaks->count * sizeof(Point2D));
+  // (3 corners get completed to 4 corners)
+  Point2D *sorted_result =
+    malloc((peaks->count < 4 ? 4 : peaks->count) * sizeof(Point2D));
   sort_corners(
     width,
     height,
@@ -494,17 +503,16 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     free(angle_indices);
   }
   else {
-    // Use all available corners if we have 4 or fewer, already in clockwise
-    // order
+    // Use all 4 corners, already in clockwise order
     sorted_corners =
       (Corners){.tl_x = sorted_result[0].x * scale_x,
                 .tl_y = sorted_result[0].y * scale_y,
-                .tr_x = sorted_result[1 % peaks->count].x * scale_x,
-                .tr_y = sorted_result[1 % peaks->count].y * scale_y,
-                .br_x = sorted_result[2 % peaks->count].x * scale_x,
-                .br_y = sorted_result[2 % peaks->count].y * scale_y,
-                .bl_x = sorted_result[3 % peaks->count].x * scale_x,
-                .bl_y = sorted_result[3 % peaks->count].y * scale_y};
+                .tr_x = sorted_result[1].x * scale_x,
+                .tr_y = sorted_result[1].y * scale_y,
+                .br_x = sorted_result[2].x * scale_x,
+                .br_y = sorted_result[2].y * scale_y,
+                .bl_x = sorted_result[3].x * scale_x,
+                .bl_y = sorted_result[3].y * scale_y};
   }
 
   free(sorted_result);
-- 
2.43.0


From b0b3bad60469afcdb9b15fb7bc33936a7774b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 25/56] fix: free the corner peaks in detect_corners

---
 src/corner_detection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 6fccd03..4f1217f 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -610,6 +610,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)resized_image);
 #endif
 
+  free(peaks->points);
   free(peaks);
   return sorted_corners;
 }
-- 
2.43.0


From 4a0e5fd63e85fa1d7720cf1409da5162e9d35384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 26/56] fix: do not abort on missing images in detect_corners

---
 src/corner_detection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 4f1217f..33f911f 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -110,9 +110,9 @@ void write_debug_img(Image img, const char *filename) {
  */
 Corners
 fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
-  assert(image != NULL);
-  assert(width > 0);
-  assert(height > 0);
+  if (!image || width <= 0 || height <= 0) {
+    return (Corners){0};
+  }
 
   Corners default_corners = {
     .tl_x = 0,
-- 
2.43.0


From e1e484c11f338945ffe89d1bcf92aed4c22f2765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:09 +0000
Subject: [PATCH 27/56] fix: free the watershed result in detect_corners

---
 src/corner_detection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 33f911f..56203e8 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -257,6 +257,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       out_width * 4
     );
   }
+  free((void *)segmented_image_wide);
 
 #ifdef DEBUG_LOGGING
   out_img.width = out_width;
-- 
2.43.0


From 043e463ca595931c02a88c974d9b46b67312375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:59 +0000
Subject: [PATCH 28/56] fix: return default corners instead of ending the
 process in detect_corners

---
 src/corner_detection.c | 56 +++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/corner_detection.c b/src/corner_detection.c
index 56203e8..f8f6594 100644
--- a/src/corner_detection.c
+++ b/src/corner_detection.c
@@ -147,7 +147,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)grayscale_image);
   if (!resized_image) {
     fprintf(stderr, "Error: Failed to resize image\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -168,7 +168,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
 #endif
   if (!blurred_image) {
     fprintf(stderr, "Error: Failed to apply Gaussian blur\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 4. Create elevation map with Sobel edge detection
@@ -177,7 +177,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)blurred_image);
   if (!elevation_map) {
     fprintf(stderr, "Error: Failed to create elevation map with Sobel\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // 5. Flatten elevation map at center to not get trapped in a local minimum
@@ -208,7 +208,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free(elevation_map);
   if (!bordered_elevation_map) {
     fprintf(stderr, "Error: Failed to add black border to elevation map\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -225,7 +225,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!markers) {
     fprintf(stderr, "Error: Failed to allocate memory for markers\n");
     free((void *)bordered_elevation_map);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   // Set center as foreground marker and upper left corner as background marker
   // Adjust for the added border (border width = 1)
@@ -242,13 +242,17 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   );
   free((void *)bordered_elevation_map);
   free((void *)markers);
+  if (!segmented_image_wide) {
+    fprintf(stderr, "Error: Failed to perform watershed segmentation\n");
+    return default_corners;
+  }
 
   // Remove 1 pixel border from segmented image
   uint8_t *segmented_image = malloc(out_width * out_height * 4);
   if (!segmented_image) {
     fprintf(stderr, "Error: Failed to allocate memory for segmented image\n");
     free((void *)segmented_image_wide);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
   for (uint32_t y = 1; y < bordered_height - 1; y++) {
     memcpy(
@@ -272,7 +276,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (region_count != 2) {
     fprintf(stderr, "Error: Expected 2 regions, found %d\n", region_count);
     free((void *)segmented_image);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Convert red pixel (marker 1 - foreground) to white
@@ -285,6 +289,10 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     "00FF00"  // green -> black
   );
   free((void *)segmented_image);
+  if (!segmented_binary) {
+    fprintf(stderr, "Error: Failed to convert segmented image to binary\n");
+    return default_corners;
+  }
 
 #ifdef DEBUG_LOGGING
   out_img.data = segmented_binary;
@@ -302,7 +310,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_binary);
   if (!segmented_closed) {
     fprintf(stderr, "Error: Failed to perform binary closing\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
 #ifdef DEBUG_LOGGING
@@ -320,7 +328,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)segmented_closed);
   if (!corner_response) {
     fprintf(stderr, "Error: Failed to compute corner response\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // Extract `w` channel (error ellipse size) for visualization
@@ -328,7 +336,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   if (!w_channel) {
     fprintf(stderr, "Error: Failed to allocate memory for w channel\n");
     free((void *)corner_response);
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   for (uint32_t i = 0; i < out_width * out_height; i++) {
@@ -382,7 +390,7 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   free((void *)corner_response);
   if (!peaks) {
     fprintf(stderr, "Error: Failed to find corner peaks\n");
-    exit(EXIT_FAILURE);
+    return default_corners;
   }
 
   // At least 3 corners are necessary to determine the document
@@ -396,7 +404,13 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
   // (3 corners get completed to 4 corners)
   Point2D *sorted_result =
     malloc((peaks->count < 4 ? 4 : peaks->count) * sizeof(Point2D));
-  sort_corners(
+  if (!sorted_result) {
+    fprintf(stderr, "Error: Failed to allocate memory for sorted corners\n");
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
+  Corners all_sorted = sort_corners(
     width,
     height,
     out_width,
@@ -405,6 +419,15 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
     peaks->count,
     sorted_result
   );
+  // All coordinates are 0 if the corners could not be sorted
+  // (only the top left of distinct corners can be at the origin)
+  if (all_sorted.br_x == 0 && all_sorted.br_y == 0) {
+    fprintf(stderr, "Error: Failed to sort corners\n");
+    free(sorted_result);
+    free(peaks->points);
+    free(peaks);
+    return default_corners;
+  }
 
   // Scale corners back to original image dimensions
   double scale_x = (double)width / out_width;
@@ -420,6 +443,15 @@ fcv_detect_corners(const uint8_t *image, int32_t width, int32_t height) {
       double angle_abs;
     } AngleIndex;
     AngleIndex *angle_indices = malloc(peaks->count * sizeof(AngleIndex));
+    if (!angles || !angle_indices) {
+      fprintf(stderr, "Error: Failed to allocate memory for angles\n");
+      free(angles);
+      free(angle_indices);
+      free(sorted_result);
+      free(peaks->points);
+      free(peaks);
+      return default_corners;
+    }
 
     for (uint32_t i = 0; i < peaks->count; i++) {
       // Get the three consecutive points for angle calculation
-- 
2.43.0


From 594b5f13f2ff66f1012af011a37449ed1767845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:22 +0000
Subject: [PATCH 29/56] fix: ignore EXIF orientation values outside of 1 to 8

---
 src/exif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index 50415a2..2e2fdfc 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -96,6 +96,9 @@ int32_t fcv_get_exif_orientation(char const *filename) {
         if (tag == 0x0112) { // Orientation
           uint16_t orientation = read_u16(file, is_little_endian);
           fclose(file);
+          if (orientation < 1 || orientation > 8) {
+            return 1; // Invalid or truncated value
+          }
           return (int32_t)orientation;
         }
         else {
-- 
2.43.0


From 95df50088f22529aea89a81ade97b8e5ad6662b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 30/56] fix: avoid signed overflow when reading 32 bit EXIF
 values

---
 src/exif.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exif.c b/src/exif.c
index 2e2fdfc..6f8a83a 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -23,9 +23,11 @@ static uint32_t read_u32(FILE *file, int is_little_endian) {
     return 0;
   }
   if (is_little_endian) {
-    return (uint32_t)(buf[0] | (buf[1] << 8) | (buf[2] << 16) | (buf[3] << 24));
+    return (uint32_t)buf[0] | ((uint32_t)buf[1] << 8) |
+           ((uint32_t)buf[2] << 16) | ((uint32_t)buf[3] << 24);
   }
-  return (uint32_t)((buf[0] << 24) | (buf[1] << 16) | (buf[2] << 8) | buf[3]);
+  return ((uint32_t)buf[0] << 24) | ((uint32_t)buf[1] << 16) |
+         ((uint32_t)buf[2] << 8) | (uint32_t)buf[3];
 }
 
 int32_t fcv_get_exif_orientation(char const *filename) {
-- 
2.43.0


From a545573b7c1dc941c0343dc7e6a536ebad8d559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:23 +0000
Subject: [PATCH 31/56] fix: skip fill bytes before JPEG markers when looking
 for EXIF data

---
 src/exif.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index 6f8a83a..79cfbf3 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -49,6 +49,12 @@ int32_t fcv_get_exif_orientation(char const *filename) {
       break;
     }
 
+    // Any marker may be preceded by an arbitrary number of fill bytes
+    if (marker[1] == 0xFF) {
+      fseek(file, -1, SEEK_CUR);
+      continue;
+    }
+
     if (marker[1] == 0xD9 || marker[1] == 0xDA) { // EOI or SOS
       break;
     }
-- 
2.43.0


From 8bbc26b3c0356a0479a57bbcf81d37ae8c0b3224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 32/56] fix: do not loop forever on truncated JPEG segments
 when looking for EXIF data

---
 src/exif.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif.c b/src/exif.c
index 79cfbf3..4a9ae76 100644
--- a/src/exif.c
+++ b/src/exif.c
@@ -60,6 +60,9 @@ int32_t fcv_get_exif_orientation(char const *filename) {
     }
 
     uint16_t size = read_u16(file, 0); // Markers are always big-endian
+    if (size < 2) { // Size includes itself => corrupt or truncated file
+      break;
+    }
 
     if (marker[1] == 0xE1) { // APP1 - EXIF
       uint8_t exif_header[6];
-- 
2.43.0


From 04af05e941d57f530b555853e87e7bbb37494f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:06 +0000
Subject: [PATCH 33/56] fix: do not cut off long operation parameters on the
 command line

---
 src/cli.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 41a3164..63f6854 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -38,7 +38,7 @@ typedef struct {
   double param2;
   double param3;
   double param4;
-  char param_str[64]; // For string parameters like "50%" or "200x300"
+  char *param_str; // For string parameters like "50%" or "200x300"
   int32_t has_param;
   int32_t has_param2;
   int32_t has_param3;
@@ -156,6 +156,9 @@ Pipeline *create_pipeline(void) {
 
 void free_pipeline(Pipeline *p) {
   if (p) {
+    for (int32_t i = 0; i < p->count; i++) {
+      free(p->ops[i].param_str);
+    }
     free(p->ops);
     free(p);
   }
@@ -206,18 +209,10 @@ void add_operation(
   p->ops[p->count].param4 = param4;
   p->ops[p->count].has_param4 = has_param4;
 
-  if (has_string_param && param_str) {
-    strncpy(
-      p->ops[p->count].param_str,
-      param_str,
-      sizeof(p->ops[p->count].param_str) - 1
-    );
-    p->ops[p->count].param_str[sizeof(p->ops[p->count].param_str) - 1] = '\0';
-  }
-  else {
-    p->ops[p->count].param_str[0] = '\0';
-  }
-  p->ops[p->count].has_string_param = has_string_param;
+  // Parameters can be arbitrarily long (e.g. list of watershed markers)
+  p->ops[p->count].param_str =
+    (has_string_param && param_str) ? strdup(param_str) : NULL;
+  p->ops[p->count].has_string_param = p->ops[p->count].param_str != NULL;
 
   p->count++;
 }
-- 
2.43.0


From 0d41a739834a4bb7a5f7d322f1e3627ea5b4525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:34 +0000
Subject: [PATCH 34/56] fix: accept quoted watershed markers as shown in the
 usage

---
 src/cli.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index 63f6854..8e075fc 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -575,7 +575,14 @@ int32_t parse_pipeline(
         }
       }
       else if (strcmp(piece, "watershed") == 0) {
-        /* Watershed operation requires: x1×y1,x2×y2,... */
+        /* Watershed operation requires: x1×y1 x2×y2 ... */
+        /* optional surrounding quotes */
+        size_t params_len = strlen(params_str);
+        if (params_len >= 2 && params_str[0] == '\'' &&
+            params_str[params_len - 1] == '\'') {
+          params_str[params_len - 1] = '\0';
+          params_str = trim_whitespace(params_str + 1);
+        }
         add_operation(
           pipeline,
           piece,
-- 
2.43.0


From 9de97e8a3d30fb7fbce15ed6bc7342d7cbd9495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:01 +0000
Subject: [PATCH 35/56] fix: reject out-of-range numbers on the command line

---
 src/cli.c | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 8e075fc..b5aea7a 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -639,10 +639,11 @@ int32_t parse_pipeline(
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
-          uint32_t out_width = (uint32_t)atoi(trim_whitespace(params_copy));
-          uint32_t out_height = (uint32_t)atoi(trim_whitespace(x_pos + 1));
+          long out_width = strtol(trim_whitespace(params_copy), NULL, 10);
+          long out_height = strtol(trim_whitespace(x_pos + 1), NULL, 10);
 
-          if (out_width > 0 && out_height > 0) {
+          if (out_width > 0 && out_width <= INT_MAX && out_height > 0 &&
+              out_height <= INT_MAX) {
             add_operation(
               pipeline,
               piece,
@@ -811,6 +812,15 @@ int32_t parse_pipeline(
   return 1;
 }
 
+/* Check that the radius for binary morphology can be converted to int32_t */
+static int32_t is_valid_radius(double radius) {
+  if (!(radius >= 0 && radius <= INT_MAX)) {
+    fprintf(stderr, "Error: Invalid radius %g\n", radius);
+    return 0;
+  }
+  return 1;
+}
+
 uint8_t *apply_operation(
   int32_t *width,
   int32_t *height,
@@ -1221,9 +1231,11 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: rotate requires an angle parameter\n");
       return NULL;
     }
-    int angle = (int)param;
     // Normalize angle to 0-359 range
-    angle = ((angle % 360) + 360) % 360;
+    double angle = fmod(param, 360.0);
+    if (angle < 0) {
+      angle += 360.0;
+    }
     if (angle != 0 && angle != 90 && angle != 180 && angle != 270) {
       fprintf(stderr, "Error: rotate angle must be a multiple of 90\n");
       return NULL;
@@ -1301,6 +1313,11 @@ uint8_t *apply_operation(
       return NULL;
     }
 
+    if (!(param <= UINT_MAX)) {
+      fprintf(stderr, "Error: border width is too large\n");
+      return NULL;
+    }
+
     uint32_t border_width = (uint32_t)param;
     uint32_t output_width, output_height;
 
@@ -1327,6 +1344,9 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: erode operation requires radius parameter\n");
       return NULL;
     }
+    if (!is_valid_radius(param)) {
+      return NULL;
+    }
 
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
@@ -1353,6 +1373,9 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: dilate operation requires radius parameter\n");
       return NULL;
     }
+    if (!is_valid_radius(param)) {
+      return NULL;
+    }
 
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
@@ -1379,6 +1402,9 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: close operation requires radius parameter\n");
       return NULL;
     }
+    if (!is_valid_radius(param)) {
+      return NULL;
+    }
 
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
@@ -1405,6 +1431,9 @@ uint8_t *apply_operation(
       fprintf(stderr, "Error: open operation requires radius parameter\n");
       return NULL;
     }
+    if (!is_valid_radius(param)) {
+      return NULL;
+    }
 
     // Convert RGBA to grayscale for binary morphology
     uint8_t *grayscale_data =
-- 
2.43.0


From fcff7d3ae3f56f08b967e1fa2b0c306ecdc81f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:29 +0000
Subject: [PATCH 36/56] fix: avoid integer overflow when copying large images
 on the command line

---
 src/cli.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index b5aea7a..df5afa7 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -942,9 +942,10 @@ uint8_t *apply_operation(
     printf("  }\n");
 
     // Return a copy of the input data without modification
-    uint8_t *result = malloc(*width * *height * 4);
+    size_t img_length_byte = (size_t)*width * *height * 4;
+    uint8_t *result = malloc(img_length_byte);
     if (result) {
-      memcpy(result, input_data, *width * *height * 4);
+      memcpy(result, input_data, img_length_byte);
     }
     return result;
   }
@@ -957,7 +958,7 @@ uint8_t *apply_operation(
     printf("    Bottom-left:  (%.0f, %.0f)\n", cs.bl_x, cs.bl_y);
 
     // Create a copy of the input data and draw disks at detected corners
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)*width * *height * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       return NULL;
@@ -1002,7 +1003,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)*width * *height * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
@@ -1036,7 +1037,7 @@ uint8_t *apply_operation(
     double center_y = param3;
     double radius = param;
 
-    uint32_t img_length_byte = (*width) * (*height) * 4;
+    size_t img_length_byte = (size_t)*width * *height * 4;
     uint8_t *result = malloc(img_length_byte);
     if (!result) {
       free(param_copy);
-- 
2.43.0


From 1a0f33e90d05be5d58b586905f699307724f1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:59 +0000
Subject: [PATCH 37/56] fix: write JPEG for output names with an upper case
 extension

---
 src/cli.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.c b/src/cli.c
index df5afa7..b31f273 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1661,7 +1661,8 @@ int32_t main(int32_t argc, char *argv[]) {
       write_result =
         stbi_write_png(output_path, width, height, 4, result_data, width * 4);
     }
-    else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0)) {
+    else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0 ||
+                     strcmp(ext, ".JPG") == 0 || strcmp(ext, ".JPEG") == 0)) {
       if (pipeline_has_binarization(pipeline)) {
         fprintf(
           stderr,
-- 
2.43.0


From f39c1e0a9dc9f1347c4c99f1b05ce4e7ac603d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:30 +0000
Subject: [PATCH 38/56] fix: report incompletely written output files

---
 src/cli.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index b31f273..a881b78 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1539,6 +1539,51 @@ uint8_t *execute_pipeline(
   return current_data;
 }
 
+typedef struct {
+  const char *path;
+  FILE *file;
+  int32_t failed;
+} OutputFile;
+
+/* Callback for stb_image_write which keeps track of write errors */
+static void write_to_output(void *context, void *data, int size) {
+  OutputFile *output = context;
+  if (!output->file && !output->failed) {
+    output->file = fopen(output->path, "wb");
+  }
+  if (!output->file || size < 0 ||
+      fwrite(data, 1, size, output->file) != (size_t)size) {
+    output->failed = 1;
+  }
+}
+
+/* Returns 1 if the image was written completely and 0 otherwise */
+static int32_t save_image(
+  const char *path,
+  int32_t width,
+  int32_t height,
+  const uint8_t *data,
+  int32_t as_jpeg
+) {
+  OutputFile output = {.path = path, .file = NULL, .failed = 0};
+  int32_t encoded =
+    as_jpeg
+      ? stbi_write_jpg_to_func(write_to_output, &output, width, height, 4, data, 90)
+      : stbi_write_png_to_func(
+          write_to_output,
+          &output,
+          width,
+          height,
+          4,
+          data,
+          width * 4
+        );
+  if (output.file && fclose(output.file) != 0) {
+    output.failed = 1;
+  }
+  return encoded && !output.failed;
+}
+
 int32_t main(int32_t argc, char *argv[]) {
   if (argc < 3) {
     print32_t_usage(argv[0]);
@@ -1658,8 +1703,7 @@ int32_t main(int32_t argc, char *argv[]) {
     int32_t write_result;
     const char *ext = strrchr(output_path, '.');
     if (ext && strcmp(ext, ".png") == 0) {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, width, height, result_data, 0);
     }
     else if (ext && (strcmp(ext, ".jpg") == 0 || strcmp(ext, ".jpeg") == 0 ||
                      strcmp(ext, ".JPG") == 0 || strcmp(ext, ".JPEG") == 0)) {
@@ -1671,12 +1715,10 @@ int32_t main(int32_t argc, char *argv[]) {
           "Please use PNG format instead.\n"
         );
       }
-      write_result =
-        stbi_write_jpg(output_path, width, height, 4, result_data, 90);
+      write_result = save_image(output_path, width, height, result_data, 1);
     }
     else {
-      write_result =
-        stbi_write_png(output_path, width, height, 4, result_data, width * 4);
+      write_result = save_image(output_path, width, height, result_data, 0);
     }
 
     if (!write_result) {
-- 
2.43.0


From 366431d9bf83ca46b92eed5309973151c550ca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 39/56] fix: reject images which are too large to be encoded

---
 src/cli.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index a881b78..6370eb5 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1565,6 +1565,12 @@ static int32_t save_image(
   const uint8_t *data,
   int32_t as_jpeg
 ) {
+  // stb_image_write calculates sizes (incl. 1 filter byte per row) with int
+  if (((int64_t)width * 4 + 1) * height > INT_MAX) {
+    fprintf(stderr, "Error: Image is too large to be saved\n");
+    return 0;
+  }
+
   OutputFile output = {.path = path, .file = NULL, .failed = 0};
   int32_t encoded =
     as_jpeg
-- 
2.43.0


From 6813234373f9d74ffd035c65cea5cf8f2df99e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:51 +0000
Subject: [PATCH 40/56] fix: avoid integer overflow in the helpers for drawing
 circles and disks

---
 src/draw.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/draw.c b/src/draw.c
index 020af16..cd4c707 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -50,6 +50,15 @@ void fcv_set_circle_pixel(
   }
 }
 
+/**
+ * Helper function to check that sums of two coordinates can not overflow
+ */
+static bool is_drawable(int32_t cx, int32_t cy, int32_t x, int32_t y) {
+  const int32_t limit = INT32_MAX / 2;
+  return cx >= -limit && cx <= limit && cy >= -limit && cy <= limit &&
+         x >= -limit && x <= limit && y >= -limit && y <= limit;
+}
+
 /**
  * Helper function to draw 8 symmetric points of a circle
  */
@@ -66,6 +75,10 @@ void fcv_draw_circle_points(
   uint8_t g,
   uint8_t b
 ) {
+  if (!is_drawable(cx, cy, x, y)) {
+    return;
+  }
+
   fcv_set_circle_pixel(data, width, height, channels, cx + x, cy + y, r, g, b);
   fcv_set_circle_pixel(data, width, height, channels, cx - x, cy + y, r, g, b);
   fcv_set_circle_pixel(data, width, height, channels, cx + x, cy - y, r, g, b);
@@ -92,6 +105,10 @@ void fcv_fill_disk_lines(
   uint8_t g,
   uint8_t b
 ) {
+  if (!is_drawable(cx, cy, x, y)) {
+    return;
+  }
+
   // Clip the lines horizontally to the image
   int64_t last_x = (int64_t)width - 1;
   int64_t start = cx - x > 0 ? cx - x : 0;
-- 
2.43.0


From 8ce274886bae921bf9b7aad0354c9270f79be28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:49 +0000
Subject: [PATCH 41/56] fix: ignore missing images in apply_global_threshold

---
 src/conversion.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conversion.c b/src/conversion.c
index 3fa3bfb..c6c1083 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -205,6 +205,10 @@ void fcv_apply_global_threshold(
   uint8_t *data,
   uint8_t threshold
 ) {
+  if (!data) {
+    return;
+  }
+
   for (uint32_t i = 0; i < img_length_px; i++) {
     data[i] = data[i] > threshold ? 255 : 0;
   }
-- 
2.43.0


From c0d089b8da91bb4ad8ac91da2c19dd5d6855df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:15 +0000
Subject: [PATCH 42/56] fix: avoid integer overflow for large images in
 foerstner_corner

---
 src/foerstner_corner.c | 67 ++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/foerstner_corner.c b/src/foerstner_corner.c
index 0215ed0..1167d6e 100644
--- a/src/foerstner_corner.c
+++ b/src/foerstner_corner.c
@@ -27,9 +27,18 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
+  // Check for overflow: width * height * sizeof(double)
+  if (width > SIZE_MAX / height) {
+    return NULL;
+  }
+  size_t num_pixels = (size_t)width * height;
+  if (num_pixels > SIZE_MAX / sizeof(double)) {
+    return NULL;
+  }
+
   // Allocate memory for gradient images
-  double *grad_x = calloc(width * height, sizeof(double));
-  double *grad_y = calloc(width * height, sizeof(double));
+  double *grad_x = calloc(num_pixels, sizeof(double));
+  double *grad_y = calloc(num_pixels, sizeof(double));
 
   if (!grad_x || !grad_y) {
     free(grad_x);
@@ -40,25 +49,25 @@ uint8_t *fcv_foerstner_corner(
   // Compute image gradients using Sobel-like operators
   for (uint32_t y = 1; y < height - 1; y++) {
     for (uint32_t x = 1; x < width - 1; x++) {
-      uint32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // Sobel X kernel: [-1 0 1; -2 0 2; -1 0 1]
       double gx = 0.0;
-      gx += -1.0 * gray_data[(y - 1) * width + (x - 1)];
-      gx += 1.0 * gray_data[(y - 1) * width + (x + 1)];
-      gx += -2.0 * gray_data[y * width + (x - 1)];
-      gx += 2.0 * gray_data[y * width + (x + 1)];
-      gx += -1.0 * gray_data[(y + 1) * width + (x - 1)];
-      gx += 1.0 * gray_data[(y + 1) * width + (x + 1)];
+      gx += -1.0 * gray_data[(size_t)(y - 1) * width + (x - 1)];
+      gx += 1.0 * gray_data[(size_t)(y - 1) * width + (x + 1)];
+      gx += -2.0 * gray_data[(size_t)y * width + (x - 1)];
+      gx += 2.0 * gray_data[(size_t)y * width + (x + 1)];
+      gx += -1.0 * gray_data[(size_t)(y + 1) * width + (x - 1)];
+      gx += 1.0 * gray_data[(size_t)(y + 1) * width + (x + 1)];
 
       // Sobel Y kernel: [-1 -2 -1; 0 0 0; 1 2 1]
       double gy = 0.0;
-      gy += -1.0 * gray_data[(y - 1) * width + (x - 1)];
-      gy += -2.0 * gray_data[(y - 1) * width + x];
-      gy += -1.0 * gray_data[(y - 1) * width + (x + 1)];
-      gy += 1.0 * gray_data[(y + 1) * width + (x - 1)];
-      gy += 2.0 * gray_data[(y + 1) * width + x];
-      gy += 1.0 * gray_data[(y + 1) * width + (x + 1)];
+      gy += -1.0 * gray_data[(size_t)(y - 1) * width + (x - 1)];
+      gy += -2.0 * gray_data[(size_t)(y - 1) * width + x];
+      gy += -1.0 * gray_data[(size_t)(y - 1) * width + (x + 1)];
+      gy += 1.0 * gray_data[(size_t)(y + 1) * width + (x - 1)];
+      gy += 2.0 * gray_data[(size_t)(y + 1) * width + x];
+      gy += 1.0 * gray_data[(size_t)(y + 1) * width + (x + 1)];
 
       grad_x[idx] = gx / 8.0; // Normalize
       grad_y[idx] = gy / 8.0;
@@ -66,9 +75,9 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Compute gradient products for structure tensor
-  double *Axx = malloc(width * height * sizeof(double));
-  double *Axy = malloc(width * height * sizeof(double));
-  double *Ayy = malloc(width * height * sizeof(double));
+  double *Axx = malloc(num_pixels * sizeof(double));
+  double *Axy = malloc(num_pixels * sizeof(double));
+  double *Ayy = malloc(num_pixels * sizeof(double));
 
   if (!Axx || !Axy || !Ayy) {
     free(grad_x);
@@ -79,7 +88,7 @@ uint8_t *fcv_foerstner_corner(
     return NULL;
   }
 
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < num_pixels; i++) {
     Axx[i] = grad_x[i] * grad_x[i];
     Axy[i] = grad_x[i] * grad_y[i];
     Ayy[i] = grad_y[i] * grad_y[i];
@@ -96,9 +105,9 @@ uint8_t *fcv_foerstner_corner(
   }
   int32_t half_kernel = kernel_size / 2;
 
-  double *Axx_smooth = calloc(width * height, sizeof(double));
-  double *Axy_smooth = calloc(width * height, sizeof(double));
-  double *Ayy_smooth = calloc(width * height, sizeof(double));
+  double *Axx_smooth = calloc(num_pixels, sizeof(double));
+  double *Axy_smooth = calloc(num_pixels, sizeof(double));
+  double *Ayy_smooth = calloc(num_pixels, sizeof(double));
 
   if (!Axx_smooth || !Axy_smooth || !Ayy_smooth) {
     free(grad_x);
@@ -115,13 +124,13 @@ uint8_t *fcv_foerstner_corner(
   // Simple box filter smoothing
   for (uint32_t y = half_kernel; y + half_kernel < height; y++) {
     for (uint32_t x = half_kernel; x + half_kernel < width; x++) {
-      uint32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
       double sum_xx = 0.0, sum_xy = 0.0, sum_yy = 0.0;
       int32_t count = 0;
 
       for (int32_t ky = -half_kernel; ky <= half_kernel; ky++) {
         for (int32_t kx = -half_kernel; kx <= half_kernel; kx++) {
-          int32_t sample_idx = (y + ky) * width + (x + kx);
+          size_t sample_idx = (size_t)(y + ky) * width + (x + kx);
           sum_xx += Axx[sample_idx];
           sum_xy += Axy[sample_idx];
           sum_yy += Ayy[sample_idx];
@@ -136,7 +145,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Compute Foerstner measures w and q
-  uint8_t *result = malloc(width * height * 2); // 2 channels: w, q
+  uint8_t *result = malloc(num_pixels * 2); // 2 channels: w, q
   if (!result) {
     free(grad_x);
     free(grad_y);
@@ -150,8 +159,8 @@ uint8_t *fcv_foerstner_corner(
   }
 
   double max_w = 0.0, max_q = 0.0;
-  double *w_values = malloc(width * height * sizeof(double));
-  double *q_values = malloc(width * height * sizeof(double));
+  double *w_values = malloc(num_pixels * sizeof(double));
+  double *q_values = malloc(num_pixels * sizeof(double));
   if (!w_values || !q_values) {
     free(result);
     free(w_values);
@@ -168,7 +177,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // First pass: compute w and q values and find maximum for normalization
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < num_pixels; i++) {
     double det_A =
       Axx_smooth[i] * Ayy_smooth[i] - Axy_smooth[i] * Axy_smooth[i];
     double trace_A = Axx_smooth[i] + Ayy_smooth[i];
@@ -192,7 +201,7 @@ uint8_t *fcv_foerstner_corner(
   }
 
   // Second pass: normalize and convert to bytes
-  for (uint32_t i = 0; i < width * height; i++) {
+  for (size_t i = 0; i < num_pixels; i++) {
     uint8_t w_byte = 0, q_byte = 0;
 
     if (max_w > 0.0) {
-- 
2.43.0


From e5245d4a862694d68e0553a4b4b4117cc30f0e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:44 +0000
Subject: [PATCH 43/56] fix: avoid integer overflow for large images in
 apply_matrix_3x3

---
 src/perspectivetransform.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 0d0d056..683c93e 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -340,13 +340,13 @@ uint8_t *fcv_apply_matrix_3x3(
           dy = 0.0;
         }
 
-        uint8_t *p00 = &in_data[(y0 * in_width + x0) * 4];
-        uint8_t *p01 = &in_data[(y0 * in_width + x1c) * 4];
-        uint8_t *p10 = &in_data[(y1c * in_width + x0) * 4];
-        uint8_t *p11 = &in_data[(y1c * in_width + x1c) * 4];
+        uint8_t *p00 = &in_data[((size_t)y0 * in_width + x0) * 4];
+        uint8_t *p01 = &in_data[((size_t)y0 * in_width + x1c) * 4];
+        uint8_t *p10 = &in_data[((size_t)y1c * in_width + x0) * 4];
+        uint8_t *p11 = &in_data[((size_t)y1c * in_width + x1c) * 4];
 
         for (int32_t c = 0; c < 4; ++c) {
-          out_data[(out_y * out_width + out_x) * 4 + c] =
+          out_data[((size_t)out_y * out_width + out_x) * 4 + c] =
             (uint8_t)(p00[c] * (1 - dx) * (1 - dy) + p01[c] * dx * (1 - dy) +
                       p10[c] * (1 - dx) * dy + p11[c] * dx * dy + 0.5);
         }
-- 
2.43.0


From aa61c80209e692251baad853f21d052005739a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:28 +0000
Subject: [PATCH 44/56] fix: avoid integer overflow for large images in trim

---
 src/trim.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/trim.c b/src/trim.c
index 24f4784..49d56a3 100644
--- a/src/trim.c
+++ b/src/trim.c
@@ -92,12 +92,12 @@ uint8_t *fcv_trim(
 
     // Trim from the left
     while (left < right) {
-      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)top * w + left) * channels];
       bool can_trim = true;
 
       // Check if the entire left column has the same color as the reference pixel
       for (uint32_t y = top; y < bottom; y++) {
-        const uint8_t *pixel = &data[(y * w + left) * channels];
+        const uint8_t *pixel = &data[((size_t)y * w + left) * channels];
         if (!pixels_match(pixel, ref_pixel, channels)) {
           can_trim = false;
           break;
@@ -114,13 +114,13 @@ uint8_t *fcv_trim(
 
     // Trim from the right
     while (left < right) {
-      const uint8_t *ref_pixel = &data[(top * w + (right - 1)) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)top * w + (right - 1)) * channels];
       bool can_trim = true;
 
       // Check if the entire right column has the same color as the reference
       // pixel
       for (uint32_t y = top; y < bottom; y++) {
-        const uint8_t *pixel = &data[(y * w + (right - 1)) * channels];
+        const uint8_t *pixel = &data[((size_t)y * w + (right - 1)) * channels];
         if (!pixels_match(pixel, ref_pixel, channels)) {
           can_trim = false;
           break;
@@ -137,12 +137,12 @@ uint8_t *fcv_trim(
 
     // Trim from the top
     while (top < bottom && bottom - top > 1) {
-      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)top * w + left) * channels];
       bool can_trim = true;
 
       // Check if the entire top row has the same color as the reference pixel
       for (uint32_t x = left; x < right; x++) {
-        const uint8_t *pixel = &data[(top * w + x) * channels];
+        const uint8_t *pixel = &data[((size_t)top * w + x) * channels];
         if (!pixels_match(pixel, ref_pixel, channels)) {
           can_trim = false;
           break;
@@ -159,12 +159,12 @@ uint8_t *fcv_trim(
 
     // Trim from the bottom
     while (top < bottom && bottom - top > 1) {
-      const uint8_t *ref_pixel = &data[((bottom - 1) * w + left) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)(bottom - 1) * w + left) * channels];
       bool can_trim = true;
 
       // Check if the entire bottom row has the same color as the reference pixel
       for (uint32_t x = left; x < right; x++) {
-        const uint8_t *pixel = &data[((bottom - 1) * w + x) * channels];
+        const uint8_t *pixel = &data[((size_t)(bottom - 1) * w + x) * channels];
         if (!pixels_match(pixel, ref_pixel, channels)) {
           can_trim = false;
           break;
@@ -271,12 +271,12 @@ uint8_t *fcv_trim_threshold(
 
     // Trim from the left
     while (left < right) {
-      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)top * w + left) * channels];
       bool can_trim = true;
 
       // Check if the entire left column matches within threshold
       for (uint32_t y = top; y < bottom; y++) {
-        const uint8_t *pixel = &data[(y * w + left) * channels];
+        const uint8_t *pixel = &data[((size_t)y * w + left) * channels];
         if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
           can_trim = false;
           break;
@@ -293,12 +293,12 @@ uint8_t *fcv_trim_threshold(
 
     // Trim from the right
     while (left < right) {
-      const uint8_t *ref_pixel = &data[(top * w + (right - 1)) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)top * w + (right - 1)) * channels];
       bool can_trim = true;
 
       // Check if the entire right column matches within threshold
       for (uint32_t y = top; y < bottom; y++) {
-        const uint8_t *pixel = &data[(y * w + (right - 1)) * channels];
+        const uint8_t *pixel = &data[((size_t)y * w + (right - 1)) * channels];
         if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
           can_trim = false;
           break;
@@ -315,12 +315,12 @@ uint8_t *fcv_trim_threshold(
 
     // Trim from the top
     while (top < bottom && bottom - top > 1) {
-      const uint8_t *ref_pixel = &data[(top * w + left) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)top * w + left) * channels];
       bool can_trim = true;
 
       // Check if the entire top row matches within threshold
       for (uint32_t x = left; x < right; x++) {
-        const uint8_t *pixel = &data[(top * w + x) * channels];
+        const uint8_t *pixel = &data[((size_t)top * w + x) * channels];
         if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
           can_trim = false;
           break;
@@ -337,12 +337,12 @@ uint8_t *fcv_trim_threshold(
 
     // Trim from the bottom
     while (top < bottom && bottom - top > 1) {
-      const uint8_t *ref_pixel = &data[((bottom - 1) * w + left) * channels];
+      const uint8_t *ref_pixel = &data[((size_t)(bottom - 1) * w + left) * channels];
       bool can_trim = true;
 
       // Check if the entire bottom row matches within threshold
       for (uint32_t x = left; x < right; x++) {
-        const uint8_t *pixel = &data[((bottom - 1) * w + x) * channels];
+        const uint8_t *pixel = &data[((size_t)(bottom - 1) * w + x) * channels];
         if (!pixels_match_threshold(pixel, ref_pixel, channels, tolerance)) {
           can_trim = false;
           break;
-- 
2.43.0


From ebcd4d44403a336268e795c591115163ae9bd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:39 +0000
Subject: [PATCH 45/56] fix: foerstnerCorner binding returns the two channels
 the C function computes

---
 bindings/flatcv-hs/src/FlatCV.hs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index c62d8d1..a7be32a 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -351,9 +351,10 @@ sobelEdgeDetection width height channels input =
   withImageData input (\p -> Raw.fcv_sobel_edge_detection width height channels p) (width * height * channels)
 
 -- | Foerstner corner detection with given sigma
+-- (output has 2 channels: error ellipse size and roundness)
 foerstnerCorner :: Word32 -> Word32 -> Double -> V.Vector Word8 -> IO (V.Vector Word8)
 foerstnerCorner width height sigma input =
-  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 4)
+  withImageData input (\p -> Raw.fcv_foerstner_corner width height p sigma) (width * height * 2)
 
 --------------------------------------------------------------------------------
 -- Morphological operations
-- 
2.43.0


From 4e855e254e16d592218449edd8da2c1d16ba6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:31 +0000
Subject: [PATCH 46/56] fix: pixel conversions index images beyond 4 GiB
 correctly

grayscale, grayscale_stretch, otsu, blur, bw_smart and resize computed byte
offsets in 32 bits, which wrap around for images with 2^30 pixels or more.
---
 src/conversion.c | 58 ++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index c6c1083..2576dbf 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -54,8 +54,8 @@ fcv_grayscale(uint32_t width, uint32_t height, uint8_t const *const data) {
   }
 
   // Process each pixel row by row
-  for (uint32_t i = 0; i < width * height; i++) {
-    uint32_t rgba_index = i * 4;
+  for (size_t i = 0; i < num_pixels; i++) {
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -119,8 +119,8 @@ uint8_t *fcv_grayscale_stretch(
   }
 
   // Process each pixel row by row to get grayscale values
-  for (uint32_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_index = i * 4;
+  for (size_t i = 0; i < img_length_px; i++) {
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -131,7 +131,7 @@ uint8_t *fcv_grayscale_stretch(
 
   // Use counting sort to find the 1.5625% darkest and brightest pixels
   uint32_t histogram[256] = {0};
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     histogram[gray_values[i]]++;
   }
 
@@ -161,7 +161,7 @@ uint8_t *fcv_grayscale_stretch(
 
   // Process each pixel row by row
   for (size_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_index = i * 4;
+    size_t rgba_index = i * 4;
 
     uint8_t r = data[rgba_index];
     uint8_t g = data[rgba_index + 1];
@@ -276,7 +276,7 @@ uint8_t *fcv_otsu_threshold_rgba(
   size_t img_length_px = (size_t)width * height;
 
   uint32_t histogram[256] = {0};
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     histogram[grayscale_img[i]]++;
   }
 
@@ -425,8 +425,8 @@ uint8_t *fcv_apply_gaussian_blur(
           continue;
         }
 
-        uint32_t img_index = y * width + x_offset;
-        uint32_t img_rgba_index = img_index * 4;
+        size_t img_index = (size_t)y * width + x_offset;
+        size_t img_rgba_index = img_index * 4;
 
         // Bounds check for array access
         if (img_rgba_index + 2 >= img_length_px * 4) {
@@ -441,7 +441,7 @@ uint8_t *fcv_apply_gaussian_blur(
         b_sum += data[img_rgba_index + 2] * weight;
       }
 
-      uint32_t rgba_index = (y * width + x) * 4;
+      size_t rgba_index = ((size_t)y * width + x) * 4;
       blurred_data[rgba_index] = r_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 1] = g_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 2] = b_sum / weight_sum + 0.5f;
@@ -475,8 +475,8 @@ uint8_t *fcv_apply_gaussian_blur(
           continue;
         }
 
-        uint32_t img_index = y_offset * width + x;
-        uint32_t img_rgba_index = img_index * 4;
+        size_t img_index = (size_t)y_offset * width + x;
+        size_t img_rgba_index = img_index * 4;
 
         float weight = kernel[k + (int32_t)radius];
         weight_sum += weight;
@@ -486,7 +486,7 @@ uint8_t *fcv_apply_gaussian_blur(
         b_sum += temp_data[img_rgba_index + 2] * weight;
       }
 
-      uint32_t rgba_index = (y * width + x) * 4;
+      size_t rgba_index = ((size_t)y * width + x) * 4;
       blurred_data[rgba_index] = r_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 1] = g_sum / weight_sum + 0.5f;
       blurred_data[rgba_index + 2] = b_sum / weight_sum + 0.5f;
@@ -566,8 +566,8 @@ uint8_t *fcv_bw_smart(
 
   // Subtract blurred image from the original image to get the high frequencies
   // and invert the high frequencies to get a white background.
-  for (uint32_t i = 0; i < img_length_px; i++) {
-    uint32_t rgba_idx = i * 4;
+  for (size_t i = 0; i < img_length_px; i++) {
+    size_t rgba_idx = i * 4;
     int32_t high_freq_val =
       127 + grayscale_data[rgba_idx] - blurred_data[rgba_idx];
 
@@ -720,7 +720,7 @@ uint8_t *fcv_resize(
                 (overlap_right - overlap_left) * (overlap_bottom - overlap_top);
               total_weight += weight;
 
-              uint32_t src_idx = (sy * width + sx) * 4;
+              size_t src_idx = ((size_t)sy * width + sx) * 4;
               r_sum += data[src_idx] * weight;
               g_sum += data[src_idx + 1] * weight;
               b_sum += data[src_idx + 2] * weight;
@@ -729,19 +729,19 @@ uint8_t *fcv_resize(
         }
 
         if (total_weight > 0.0) {
-          resized_data[(out_y * *out_width + out_x) * 4] =
+          resized_data[((size_t)out_y * *out_width + out_x) * 4] =
             (uint8_t)(r_sum / total_weight + 0.5);
-          resized_data[(out_y * *out_width + out_x) * 4 + 1] =
+          resized_data[((size_t)out_y * *out_width + out_x) * 4 + 1] =
             (uint8_t)(g_sum / total_weight + 0.5);
-          resized_data[(out_y * *out_width + out_x) * 4 + 2] =
+          resized_data[((size_t)out_y * *out_width + out_x) * 4 + 2] =
             (uint8_t)(b_sum / total_weight + 0.5);
         }
         else {
-          resized_data[(out_y * *out_width + out_x) * 4] = 0;
-          resized_data[(out_y * *out_width + out_x) * 4 + 1] = 0;
-          resized_data[(out_y * *out_width + out_x) * 4 + 2] = 0;
+          resized_data[((size_t)out_y * *out_width + out_x) * 4] = 0;
+          resized_data[((size_t)out_y * *out_width + out_x) * 4 + 1] = 0;
+          resized_data[((size_t)out_y * *out_width + out_x) * 4 + 2] = 0;
         }
-        resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;
+        resized_data[((size_t)out_y * *out_width + out_x) * 4 + 3] = 255;
       }
       else {
         double src_x = (out_x + 0.5) / resize_x - 0.5;
@@ -782,20 +782,20 @@ uint8_t *fcv_resize(
         }
 
         for (int32_t c = 0; c < 3; c++) {
-          uint8_t p00 = data[(y0 * width + x0) * 4 + c];
-          uint8_t p01 = data[(y0 * width + x1) * 4 + c];
-          uint8_t p10 = data[(y1 * width + x0) * 4 + c];
-          uint8_t p11 = data[(y1 * width + x1) * 4 + c];
+          uint8_t p00 = data[((size_t)y0 * width + x0) * 4 + c];
+          uint8_t p01 = data[((size_t)y0 * width + x1) * 4 + c];
+          uint8_t p10 = data[((size_t)y1 * width + x0) * 4 + c];
+          uint8_t p11 = data[((size_t)y1 * width + x1) * 4 + c];
 
           double interpolated = p00 * (1 - dx) * (1 - dy) +
                                 p01 * dx * (1 - dy) + p10 * (1 - dx) * dy +
                                 p11 * dx * dy;
 
-          resized_data[(out_y * *out_width + out_x) * 4 + c] =
+          resized_data[((size_t)out_y * *out_width + out_x) * 4 + c] =
             (uint8_t)(interpolated + 0.5);
         }
 
-        resized_data[(out_y * *out_width + out_x) * 4 + 3] = 255;
+        resized_data[((size_t)out_y * *out_width + out_x) * 4 + 3] = 255;
       }
     }
   }
-- 
2.43.0


From 0708fc6f4d30dc4f7a7d99495a920ed324b1c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:04 +0000
Subject: [PATCH 47/56] fix: add_border indexes images beyond 4 GiB correctly

---
 src/draw.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/draw.c b/src/draw.c
index cd4c707..b0b99c1 100644
--- a/src/draw.c
+++ b/src/draw.c
@@ -358,7 +358,7 @@ uint8_t *fcv_add_border(
   // Fill the entire output image with border color
   for (uint32_t y = 0; y < *output_height; y++) {
     for (uint32_t x = 0; x < *output_width; x++) {
-      uint32_t pixel_index = (y * *output_width + x) * channels;
+      size_t pixel_index = ((size_t)y * *output_width + x) * channels;
 
       if (channels == 1) {
         // Grayscale: use luminance formula
@@ -378,9 +378,10 @@ uint8_t *fcv_add_border(
   // Copy the original image into the center
   for (uint32_t y = 0; y < height; y++) {
     for (uint32_t x = 0; x < width; x++) {
-      uint32_t src_index = (y * width + x) * channels;
-      uint32_t dst_index =
-        ((y + border_width) * *output_width + (x + border_width)) * channels;
+      size_t src_index = ((size_t)y * width + x) * channels;
+      size_t dst_index = ((size_t)(y + border_width) * *output_width +
+                          (x + border_width)) *
+                         channels;
 
       for (uint32_t c = 0; c < channels; c++) {
         output_data[dst_index + c] = input_data[src_index + c];
-- 
2.43.0


From 4284d21f663e4dca8707c60538a40447354b0569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:37 +0000
Subject: [PATCH 48/56] fix: morphology indexes images with more than 2^31
 pixels correctly

---
 src/binary_closing_disk.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/binary_closing_disk.c b/src/binary_closing_disk.c
index ba6ee5f..63d820d 100644
--- a/src/binary_closing_disk.c
+++ b/src/binary_closing_disk.c
@@ -46,7 +46,7 @@ uint8_t *fcv_binary_dilation_disk(
   // For each pixel in the image
   for (int32_t y = 0; y < height; y++) {
     for (int32_t x = 0; x < width; x++) {
-      int32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // If current pixel is white (255), dilate it
       if (image_data[idx] == 255) {
@@ -62,7 +62,7 @@ uint8_t *fcv_binary_dilation_disk(
 
               // Check bounds
               if (ny >= 0 && ny < height && nx >= 0 && nx < width) {
-                int32_t nidx = ny * width + nx;
+                size_t nidx = (size_t)ny * width + nx;
                 result[nidx] = 255;
               }
             }
@@ -109,7 +109,7 @@ static uint8_t *binary_erosion_disk_internal(
   // For each pixel in the image
   for (int32_t y = 0; y < height; y++) {
     for (int32_t x = 0; x < width; x++) {
-      int32_t idx = y * width + x;
+      size_t idx = (size_t)y * width + x;
 
       // Check if structuring element fits entirely within white pixels
       bool can_erode = true;
@@ -132,7 +132,8 @@ static uint8_t *binary_erosion_disk_internal(
                 int32_t clamped_y =
                   ny < 0 ? 0 : (ny >= height ? height - 1 : ny);
                 int32_t clamped_x = nx < 0 ? 0 : (nx >= width ? width - 1 : nx);
-                neighbor_value = image_data[clamped_y * width + clamped_x];
+                neighbor_value =
+                  image_data[(size_t)clamped_y * width + clamped_x];
               }
               else {
                 // Default: treat out-of-bounds as black
@@ -140,7 +141,7 @@ static uint8_t *binary_erosion_disk_internal(
               }
             }
             else {
-              neighbor_value = image_data[ny * width + nx];
+              neighbor_value = image_data[(size_t)ny * width + nx];
             }
 
             if (neighbor_value != 255) {
-- 
2.43.0


From 64d43419889fa870160d9ddedb4fc5e8783662a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:10 +0000
Subject: [PATCH 49/56] fix: histogram counts do not wrap around at 2^32 pixels

---
 src/histogram.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/histogram.c b/src/histogram.c
index 60dce3f..ac225c7 100644
--- a/src/histogram.c
+++ b/src/histogram.c
@@ -73,10 +73,10 @@ uint8_t *fcv_generate_histogram(
   }
 
   // Count histograms for each channel
-  uint32_t hist_r[256] = {0};
-  uint32_t hist_g[256] = {0};
-  uint32_t hist_b[256] = {0};
-  uint32_t hist_gray[256] = {0};
+  uint64_t hist_r[256] = {0};
+  uint64_t hist_g[256] = {0};
+  uint64_t hist_b[256] = {0};
+  uint64_t hist_gray[256] = {0};
 
   bool is_grayscale = (channels == 1);
   if (channels == 4) {
@@ -117,7 +117,7 @@ uint8_t *fcv_generate_histogram(
   }
 
   // Find maximum count for scaling
-  uint32_t max_count = 0;
+  uint64_t max_count = 0;
   if (is_grayscale) {
     for (int i = 0; i < 256; i++) {
       if (hist_gray[i] > max_count) {
@@ -149,7 +149,7 @@ uint8_t *fcv_generate_histogram(
   for (int x = 0; x < 256; x++) {
     if (is_grayscale) {
       // Draw white histogram for grayscale
-      uint32_t bar_height = ((uint64_t)hist_gray[x] * hist_height) / max_count;
+      uint32_t bar_height = (hist_gray[x] * hist_height) / max_count;
       for (uint32_t y = 0; y < bar_height; y++) {
         uint32_t output_x = x;
         uint32_t output_y = hist_height - 1 - y;
@@ -163,11 +163,11 @@ uint8_t *fcv_generate_histogram(
     }
     else {
       // Draw overlapping colored histograms for RGB
-      uint32_t bar_height_r = ((uint64_t)hist_r[x] * hist_height) / max_count;
+      uint32_t bar_height_r = (hist_r[x] * hist_height) / max_count;
       uint32_t bar_height_g =
-        (channels >= 3) ? ((uint64_t)hist_g[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? (hist_g[x] * hist_height) / max_count : 0;
       uint32_t bar_height_b =
-        (channels >= 3) ? ((uint64_t)hist_b[x] * hist_height) / max_count : 0;
+        (channels >= 3) ? (hist_b[x] * hist_height) / max_count : 0;
 
       uint32_t max_bar_height = bar_height_r;
       if (bar_height_g > max_bar_height) {
-- 
2.43.0


From 7b9e585df89d9f4694e3d14312b6b9b37750afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:42 +0000
Subject: [PATCH 50/56] fix: corner_peaks indexes images with more than 2^31
 pixels correctly

---
 src/corner_peaks.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/corner_peaks.c b/src/corner_peaks.c
index 1e2c43c..a095703 100644
--- a/src/corner_peaks.c
+++ b/src/corner_peaks.c
@@ -26,7 +26,7 @@ static bool is_local_maximum(
     return false;
   }
 
-  uint32_t center_idx = (y * width + x) * 2 + channel;
+  size_t center_idx = ((size_t)y * width + x) * 2 + channel;
   uint8_t center_val = data[center_idx];
 
   if (center_val == 0) {
@@ -39,7 +39,8 @@ static bool is_local_maximum(
         continue;
       }
 
-      uint32_t neighbor_idx = ((y + dy) * width + (x + dx)) * 2 + channel;
+      size_t neighbor_idx =
+        ((size_t)(y + dy) * width + (x + dx)) * 2 + channel;
       if (data[neighbor_idx] > center_val) {
         return false;
       }
@@ -104,7 +105,7 @@ CornerPeaks *fcv_corner_peaks(
 
   for (uint32_t y = 1; y < height - 1; y++) {
     for (uint32_t x = 1; x < width - 1; x++) {
-      uint32_t idx = (y * width + x) * 2;
+      size_t idx = ((size_t)y * width + x) * 2;
 
       // Convert normalized values (0-255) back to 0-1 range
       double w = data[idx] / 255.0;     // accuracy measure
@@ -146,10 +147,10 @@ CornerPeaks *fcv_corner_peaks(
       }
 
       if (euclidean_distance(candidates[i], candidates[j]) < min_distance) {
-        uint32_t i_idx =
-          ((uint32_t)candidates[i].y * width + (uint32_t)candidates[i].x) * 2;
-        uint32_t j_idx =
-          ((uint32_t)candidates[j].y * width + (uint32_t)candidates[j].x) * 2;
+        size_t i_idx =
+          ((size_t)candidates[i].y * width + (size_t)candidates[i].x) * 2;
+        size_t j_idx =
+          ((size_t)candidates[j].y * width + (size_t)candidates[j].x) * 2;
 
         if (data[i_idx] >= data[j_idx]) {
           rejected[j] = true;
-- 
2.43.0


From efd30cb723ac59f060897e7c86b675ddbc04efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:16 +0000
Subject: [PATCH 51/56] fix: apply_matrix shifts only the plain half turn, not
 every matrix with -1 on the diagonal

---
 src/perspectivetransform.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/perspectivetransform.c b/src/perspectivetransform.c
index 683c93e..521c1a6 100644
--- a/src/perspectivetransform.c
+++ b/src/perspectivetransform.c
@@ -286,7 +286,9 @@ uint8_t *fcv_apply_matrix_3x3(
   Matrix3x3 patched_mat = *tmat;
   tmat = &patched_mat;
   if (fabs(tmat->m00 + 1.0) < 1e-9 && fabs(tmat->m11 + 1.0) < 1e-9 &&
-      tmat->m02 == 0.0 && tmat->m12 == 0.0) {
+      fabs(tmat->m22 - 1.0) < 1e-9 && fabs(tmat->m01) < 1e-9 &&
+      fabs(tmat->m10) < 1e-9 && fabs(tmat->m20) < 1e-9 &&
+      fabs(tmat->m21) < 1e-9 && tmat->m02 == 0.0 && tmat->m12 == 0.0) {
     tmat->m02 = in_width - 1;
     tmat->m12 = in_height - 1;
   }
-- 
2.43.0


From 61afea43539a03e0989791bd25701c116c101466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:49 +0000
Subject: [PATCH 52/56] fix: Reject JPEG output with more than 65535 pixels per
 side

The size was stored modulo 65536, so that a broken file was reported as success.
---
 src/cli.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cli.c b/src/cli.c
index 6370eb5..7922734 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -1571,6 +1571,12 @@ static int32_t save_image(
     return 0;
   }
 
+  // JPEG stores the width and height with 16 bits
+  if (as_jpeg && (width > UINT16_MAX || height > UINT16_MAX)) {
+    fprintf(stderr, "Error: Image is too large to be saved as JPEG\n");
+    return 0;
+  }
+
   OutputFile output = {.path = path, .file = NULL, .failed = 0};
   int32_t encoded =
     as_jpeg
-- 
2.43.0


From fe82fdcd1a3f4f5f6703e88107ef58229b75b551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:19 +0000
Subject: [PATCH 53/56] fix: Exit with an error if the command line tool runs
 out of memory

Several unchecked allocations crashed the tool, a trim tolerance was dropped and a
JPEG whose orientation could not be applied was processed with swapped dimensions.
---
 src/cli.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/cli.c b/src/cli.c
index 7922734..747212a 100644
--- a/src/cli.c
+++ b/src/cli.c
@@ -6,6 +6,15 @@
 #include <string.h>
 #include <time.h>
 
+/* Exit if a memory allocation failed, otherwise return the memory */
+static void *check_alloc(void *memory) {
+  if (!memory) {
+    fprintf(stderr, "Error: out of memory\n");
+    exit(1);
+  }
+  return memory;
+}
+
 #define STB_IMAGE_IMPLEMENTATION
 #include "stb_image.h"
 
@@ -13,6 +22,10 @@
 #ifndef DEBUG_LOGGING
 #define STB_IMAGE_WRITE_IMPLEMENTATION
 #endif
+// stb_image_write does not handle failed reallocations
+#define STBIW_MALLOC(size) malloc(size)
+#define STBIW_REALLOC(memory, size) check_alloc(realloc(memory, size))
+#define STBIW_FREE(memory) free(memory)
 #include "stb_image_write.h"
 
 #include "binary_closing_disk.h"
@@ -147,10 +160,10 @@ void print32_t_usage(const char *program_name) {
 }
 
 Pipeline *create_pipeline(void) {
-  Pipeline *p = malloc(sizeof(Pipeline));
+  Pipeline *p = check_alloc(malloc(sizeof(Pipeline)));
   p->capacity = 8;
   p->count = 0;
-  p->ops = malloc(sizeof(PipelineOp) * p->capacity);
+  p->ops = check_alloc(malloc(sizeof(PipelineOp) * p->capacity));
   return p;
 }
 
@@ -191,7 +204,8 @@ void add_operation(
 ) {
   if (p->count >= p->capacity) {
     p->capacity *= 2;
-    p->ops = realloc(p->ops, sizeof(PipelineOp) * p->capacity);
+    p->ops =
+      check_alloc(realloc(p->ops, sizeof(PipelineOp) * p->capacity));
   }
 
   strncpy(
@@ -211,7 +225,7 @@ void add_operation(
 
   // Parameters can be arbitrarily long (e.g. list of watershed markers)
   p->ops[p->count].param_str =
-    (has_string_param && param_str) ? strdup(param_str) : NULL;
+    (has_string_param && param_str) ? check_alloc(strdup(param_str)) : NULL;
   p->ops[p->count].has_string_param = p->ops[p->count].param_str != NULL;
 
   p->count++;
@@ -436,7 +450,7 @@ int32_t parse_pipeline(
             char *position_str = trim_whitespace(space3 + 1);
 
             // Parse position in format "x×y" or "xxy"
-            char *pos_copy = strdup(position_str);
+            char *pos_copy = check_alloc(strdup(position_str));
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -512,7 +526,7 @@ int32_t parse_pipeline(
             char *position_str = trim_whitespace(space3 + 1);
 
             // Parse position in format "x×y" or "xxy"
-            char *pos_copy = strdup(position_str);
+            char *pos_copy = check_alloc(strdup(position_str));
             char *x_pos = strchr(pos_copy, 'x');
             if (x_pos) {
               *x_pos = '\0';
@@ -635,7 +649,7 @@ int32_t parse_pipeline(
       }
       else if (strcmp(piece, "extract_document_to") == 0) {
         // Parse output dimensions in format "widthxheight"
-        char *params_copy = strdup(params_str);
+        char *params_copy = check_alloc(strdup(params_str));
         char *x_pos = strchr(params_copy, 'x');
         if (x_pos) {
           *x_pos = '\0';
@@ -854,7 +868,7 @@ uint8_t *apply_operation(
 
     if (has_string_param) {
       // Parse new resize formats: 50%, 50%x80%, 200x300
-      char *param_copy = strdup(param_str);
+      char *param_copy = check_alloc(strdup(param_str));
       char *x_pos = strchr(param_copy, 'x');
 
       if (x_pos) {
@@ -997,7 +1011,7 @@ uint8_t *apply_operation(
       return NULL;
     }
     // Parse color and coordinates from param_str
-    char *param_copy = strdup(param_str);
+    char *param_copy = check_alloc(strdup(param_str));
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1031,7 +1045,7 @@ uint8_t *apply_operation(
       return NULL;
     }
     // Parse color and coordinates from param_str
-    char *param_copy = strdup(param_str);
+    char *param_copy = check_alloc(strdup(param_str));
     char *color = strtok(param_copy, " ");
     double center_x = param2;
     double center_y = param3;
@@ -1069,7 +1083,7 @@ uint8_t *apply_operation(
     }
 
     // Parse marker coordinates from param_str: "x1×y1 x2×y2 ..."
-    char *param_copy = strdup(param_str);
+    char *param_copy = check_alloc(strdup(param_str));
 
     // Count number of markers by counting spaces + 1
     int32_t num_markers = 1;
@@ -1683,10 +1697,9 @@ int32_t main(int32_t argc, char *argv[]) {
         break;
       }
 
-      if (rotated_data) {
-        stbi_image_free(image_data);
-        image_data = rotated_data;
-      }
+      check_alloc(rotated_data);
+      stbi_image_free(image_data);
+      image_data = rotated_data;
     }
   }
 
-- 
2.43.0


From 83372e8c9e1b74c649f6074d0b2a234ce5d94aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:03 +0000
Subject: [PATCH 54/56] fix: Release the markers if watershedSegmentation fails

---
 bindings/flatcv-hs/src/FlatCV.hs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/bindings/flatcv-hs/src/FlatCV.hs b/bindings/flatcv-hs/src/FlatCV.hs
index a7be32a..36238aa 100644
--- a/bindings/flatcv-hs/src/FlatCV.hs
+++ b/bindings/flatcv-hs/src/FlatCV.hs
@@ -148,8 +148,8 @@ import qualified Data.Vector.Storable.Mutable as MV
 import Foreign.C.String (withCString)
 import Foreign.C.Types (CUChar)
 import Foreign.ForeignPtr (newForeignPtr, FinalizerPtr, castForeignPtr)
-import Foreign.Marshal.Alloc (alloca, free, mallocBytes)
-import Foreign.Marshal.Array (pokeArray)
+import Foreign.Marshal.Alloc (alloca, free)
+import Foreign.Marshal.Array (withArrayLen)
 import Foreign.Ptr (Ptr, castPtr, nullPtr)
 import Foreign.Storable (Storable(..), peek, poke, sizeOf, alignment)
 import Text.Printf (printf)
@@ -599,16 +599,11 @@ generateHistogram width height channels input = do
 
 -- | Watershed segmentation with markers
 watershedSegmentation :: Word32 -> Word32 -> [Point2D] -> Bool -> V.Vector Word8 -> IO (V.Vector Word8)
-watershedSegmentation width height markers createBoundaries input = do
-  let numMarkers = fromIntegral $ length markers
-      markerSize = numMarkers * sizeOf (undefined :: Point2D)
-  markersPtr <- mallocBytes markerSize
-  pokeArray markersPtr markers
-  result <- withImageData input
-    (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
-    (width * height * 4)
-  free markersPtr
-  return result
+watershedSegmentation width height markers createBoundaries input =
+  withArrayLen markers $ \numMarkers markersPtr ->
+    withImageData input
+      (\p -> Raw.fcv_watershed_segmentation width height p (castPtr markersPtr) (fromIntegral numMarkers) createBoundaries)
+      (width * height * 4)
 
 --------------------------------------------------------------------------------
 -- EXIF
-- 
2.43.0


From 7a0535e29896fb9d692d9026645962e72892a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 55/56] fix: Reject too large images in watershed before
 initializing the labels

The loop which initializes them never ended for 2^32 and more pixels.
---
 src/watershed_segmentation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/watershed_segmentation.c b/src/watershed_segmentation.c
index d2a9f88..973bacf 100644
--- a/src/watershed_segmentation.c
+++ b/src/watershed_segmentation.c
@@ -139,6 +139,11 @@ uint8_t *fcv_watershed_segmentation(
   }
   size_t img_length_px = (size_t)width * height;
 
+  // Pixels are addressed with int32_t
+  if (img_length_px > INT32_MAX) {
+    return NULL;
+  }
+
   // Check for overflow in output_data allocation (pixels * 4)
   if (img_length_px > SIZE_MAX / 4) {
     return NULL;
-- 
2.43.0


From fc2af912d3166fd3a61b8e098d1fde617b277d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 56/56] fix: Otsu threshold and contrast stretching of images
 with 2^32 and more pixels

The histogram counts and the length of the thresholded data wrapped around.
---
 src/conversion.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index 2576dbf..e7f0a0f 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -110,7 +110,7 @@ uint8_t *fcv_grayscale_stretch(
     return NULL;
   }
   // Ignore 1.5625 % of the pixels
-  uint32_t num_pixels_to_ignore = img_length_px >> 6;
+  size_t num_pixels_to_ignore = img_length_px >> 6;
 
   uint8_t *gray_values = malloc(img_length_px);
   if (!gray_values) { // Memory allocation failed
@@ -130,12 +130,12 @@ uint8_t *fcv_grayscale_stretch(
   }
 
   // Use counting sort to find the 1.5625% darkest and brightest pixels
-  uint32_t histogram[256] = {0};
+  size_t histogram[256] = {0};
   for (size_t i = 0; i < img_length_px; i++) {
     histogram[gray_values[i]]++;
   }
 
-  uint32_t cumulative_count = 0;
+  size_t cumulative_count = 0;
   uint8_t min_val = 0;
   for (uint32_t i = 0; i < 256; i++) {
     cumulative_count += histogram[i];
@@ -226,12 +226,12 @@ void fcv_apply_global_threshold(
  *
  */
 void apply_double_threshold(
-  uint32_t img_length_px,
+  size_t img_length_px,
   uint8_t *data,
   uint8_t lower_threshold,
   uint8_t upper_threshold
 ) {
-  for (uint32_t i = 0; i < img_length_px; i++) {
+  for (size_t i = 0; i < img_length_px; i++) {
     if (data[i] < lower_threshold) {
       data[i] = 0;
     }
@@ -275,7 +275,7 @@ uint8_t *fcv_otsu_threshold_rgba(
   }
   size_t img_length_px = (size_t)width * height;
 
-  uint32_t histogram[256] = {0};
+  size_t histogram[256] = {0};
   for (size_t i = 0; i < img_length_px; i++) {
     histogram[grayscale_img[i]]++;
   }
@@ -330,7 +330,9 @@ uint8_t *fcv_otsu_threshold_rgba(
     );
   }
   else {
-    fcv_apply_global_threshold(img_length_px, grayscale_img, optimal_threshold);
+    for (size_t i = 0; i < img_length_px; i++) {
+      grayscale_img[i] = grayscale_img[i] > optimal_threshold ? 255 : 0;
+    }
   }
 
   uint8_t *monochrome_data =
-- 
2.43.0

