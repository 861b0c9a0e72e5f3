From 6a07c50887163b6b6827b4469980c09cee6c107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 01/68] fix: avoid overflow in intermediate values of
 sum_image_pixels

---
 src/integral_image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/integral_image.rs b/src/integral_image.rs
index 39fe947..f7b9c54 100644
--- a/src/integral_image.rs
+++ b/src/integral_image.rs
@@ -265,7 +265,9 @@ where
         integral_image.get_pixel(right + 1, top).data(),
         integral_image.get_pixel(left, bottom + 1).data(),
     );
-    P::sub(P::sub(P::add(a, b), c), d)
+    // Every difference taken here is itself a sum of pixels, so that no intermediate value can
+    // overflow when all the sums involved fit the subpixel type.
+    P::sub(P::sub(a, c), P::sub(d, b))
 }
 
 /// Computes the variance of [left, right] * [top, bottom] in F, where `integral_image` is the
-- 
2.43.0


From e2bca1defa2fe5012ab530522ac19ebf8448bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 02/68] fix: grayscale morphology panicked on zero-width images

---
 src/morphology.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index badb683..6dc1a13 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -542,6 +542,9 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
     operator: F,
 ) -> GrayImage {
     let mut result = GrayImage::from_pixel(image.width(), image.height(), Luma([neutral]));
+    if image.is_empty() {
+        return result;
+    }
     for (y, line_group) in lines!(mask) {
         let y = i64::from(y);
         let line = line_group.collect::<Vec<_>>();
-- 
2.43.0


From ee15b023db1ceadb12290c32737119a2b56db137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 03/68] fix: dilating (eroding) an image without foreground
 (background) flipped every pixel for large k

---
 src/morphology.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6dc1a13..b16dc2e 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -75,6 +75,10 @@ pub fn dilate(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
 }
 #[doc=generate_mut_doc_comment!("dilate")]
 pub fn dilate_mut(image: &mut GrayImage, norm: Norm, k: u8) {
+    // Without any foreground pixels there is nothing to dilate, and distances are not defined
+    if image.iter().all(|p| *p == 0) {
+        return;
+    }
     distance_transform_mut(image, norm);
     for p in image.iter_mut() {
         *p = if *p <= k { 255 } else { 0 };
@@ -166,6 +170,11 @@ pub fn erode(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
 }
 #[doc=generate_mut_doc_comment!("erode")]
 pub fn erode_mut(image: &mut GrayImage, norm: Norm, k: u8) {
+    // Without any background pixels there is nothing to erode, and distances are not defined
+    if image.iter().all(|p| *p != 0) {
+        image.fill(255);
+        return;
+    }
     distance_transform_impl(image, norm, DistanceFrom::Background);
     for p in image.iter_mut() {
         *p = if *p <= k { 0 } else { 255 };
-- 
2.43.0


From 92f451981a56f6447a922e15ddbdf7ab34c77e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 04/68] fix: connected_components panicked when every pixel
 gets its own label

---
 src/region_labelling.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/region_labelling.rs b/src/region_labelling.rs
index 3a8be91..d8419e0 100644
--- a/src/region_labelling.rs
+++ b/src/region_labelling.rs
@@ -141,7 +141,8 @@ where
         return out;
     }
 
-    let mut forest = DisjointSetForest::new(image_size);
+    // Labels start at 1, and each pixel might have its own
+    let mut forest = DisjointSetForest::new(image_size + 1);
     let mut adj_labels = [0u32; 4];
     let mut next_label = 1;
 
@@ -216,7 +217,7 @@ where
     }
 
     // Make components start at 1
-    let mut output_labels = vec![0u32; image_size];
+    let mut output_labels = vec![0u32; image_size + 1];
     let mut count = 1;
 
     unsafe {
-- 
2.43.0


From e97a10e16067febda83b842566dbf0c6df749cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 05/68] fix: flood_fill did not terminate when filling with the
 color of the region

---
 src/drawing/fill.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drawing/fill.rs b/src/drawing/fill.rs
index 74c05ab..ce9192d 100644
--- a/src/drawing/fill.rs
+++ b/src/drawing/fill.rs
@@ -19,6 +19,11 @@ where
 {
     let target = *image.get_pixel(x, y);
 
+    // The region already has the requested color
+    if target == fill_with {
+        return;
+    }
+
     let mut stack = Vec::new();
 
     stack.push((x as i32, x as i32, y as i32, 1_i32));
-- 
2.43.0


From b287d242f7669a815236237e32e3aa78213f3eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 06/68] fix: suppress_non_maximum overflowed for radii near the
 maximum of u32

---
 src/suppress.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index b7af9d6..816bc97 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -32,8 +32,8 @@ where
             let mut mi = image.get_pixel(x, y)[0];
 
             // These mins are necessary for when radius > min(width, height)
-            for cy in y..cmp::min(height, y + radius + 1) {
-                for cx in x..cmp::min(width, x + radius + 1) {
+            for cy in y..cmp::min(height, y.saturating_add(radius).saturating_add(1)) {
+                for cx in x..cmp::min(width, x.saturating_add(radius).saturating_add(1)) {
                     let ci = unsafe { image.unsafe_get_pixel(cx, cy)[0] };
                     if ci < mi {
                         continue;
@@ -48,13 +48,13 @@ where
 
             let x0 = best_x.saturating_sub(radius);
             let x1 = x;
-            let x2 = cmp::min(width, x + radius + 1);
-            let x3 = cmp::min(width, best_x + radius + 1);
+            let x2 = cmp::min(width, x.saturating_add(radius).saturating_add(1));
+            let x3 = cmp::min(width, best_x.saturating_add(radius).saturating_add(1));
 
             let y0 = best_y.saturating_sub(radius);
             let y1 = y;
-            let y2 = cmp::min(height, y + radius + 1);
-            let y3 = cmp::min(height, best_y + radius + 1);
+            let y2 = cmp::min(height, y.saturating_add(radius).saturating_add(1));
+            let y3 = cmp::min(height, best_y.saturating_add(radius).saturating_add(1));
 
             // Above initial r * r block
             let mut failed = contains_greater_value(image, best_x, best_y, mi, y0, y1, x0, x3);
-- 
2.43.0


From 4d49c52e0d83bae41dba6f122aec986523370840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 07/68] fix: local_maxima ignored the items in the last row

---
 src/suppress.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/suppress.rs b/src/suppress.rs
index 816bc97..9490b1d 100644
--- a/src/suppress.rs
+++ b/src/suppress.rs
@@ -132,17 +132,13 @@ where
 
         let mut is_max = true;
         let row_lower = cy.saturating_sub(radius);
-        let row_upper = if cy + radius + 1 > height {
-            height
-        } else {
-            cy + radius + 1
-        };
-        for y in row_lower..row_upper {
+        let row_upper = cmp::min(height, cy.saturating_add(radius));
+        for y in row_lower..=row_upper {
             for c in &ts_by_row[y as usize] {
-                if c.x() + radius < cx {
+                if c.x().saturating_add(radius) < cx {
                     continue;
                 }
-                if c.x() > cx + radius {
+                if c.x() > cx.saturating_add(radius) {
                     break;
                 }
                 if c.score() > cs {
-- 
2.43.0


From 67c8a6d1086e4bf6c01b19753a1edc3b6f1d9fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 08/68] fix: replace and overlay skipped the last row and
 column of the bottom image

---
 src/compose.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compose.rs b/src/compose.rs
index ce70659..b571839 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -215,8 +215,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
@@ -262,8 +262,8 @@ where
     assert!(x < bottom.width());
     assert!(y < bottom.height());
 
-    let x_end = min(bottom.width() - 1, x + top.width());
-    let y_end = min(bottom.height() - 1, y + top.height());
+    let x_end = min(bottom.width(), x.saturating_add(top.width()));
+    let y_end = min(bottom.height(), y.saturating_add(top.height()));
 
     for y_bot in y..y_end {
         for x_bot in x..x_end {
-- 
2.43.0


From 5058892b94a5926a5c642d50d05901d4656b027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 09/68] fix: overlay blended the bottom image with itself
 instead of with the top image

---
 src/compose.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compose.rs b/src/compose.rs
index b571839..a523c04 100644
--- a/src/compose.rs
+++ b/src/compose.rs
@@ -268,7 +268,7 @@ where
     for y_bot in y..y_end {
         for x_bot in x..x_end {
             let mut bottom_pixel = *bottom.get_pixel(x_bot, y_bot);
-            let top_pixel = bottom.get_pixel(x_bot - x, y_bot - y);
+            let top_pixel = top.get_pixel(x_bot - x, y_bot - y);
 
             bottom_pixel.blend(top_pixel);
 
-- 
2.43.0


From ee05a1e9a1f11adb5e1143c51968c9f58912ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 10/68] fix: translate panicked on zero-width images and
 overflowed for ty = i32::MIN

---
 src/geometric_transformations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 87ef25e..a6bb1ea 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -471,9 +471,12 @@ where
     let (w, h) = (width as i32, height as i32);
     let num_channels = P::CHANNEL_COUNT as usize;
     let mut out = Image::new(width, height);
+    if width == 0 {
+        return out;
+    }
 
     for y in 0..height {
-        let y_in = cmp::max(0, cmp::min(y as i32 - ty, h - 1));
+        let y_in = cmp::max(0, cmp::min((y as i32).saturating_sub(ty), h - 1));
 
         if tx > 0 {
             let p_min = *image.get_pixel(0, y_in as u32);
-- 
2.43.0


From f64b823990af4cb0ecb4aa169568b75661a016ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 11/68] fix: warping panicked on zero-width images

---
 src/geometric_transformations.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index a6bb1ea..4a32e73 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -646,6 +646,9 @@ where
     let width = out.width();
     let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
+    if pitch == 0 {
+        return;
+    }
 
     #[cfg(feature = "rayon")]
     let chunks = raw_out.par_chunks_mut(pitch);
-- 
2.43.0


From 4ebd726215975034a79d5bde85ede458e50be4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 12/68] fix: projections whose matrix or inverse has a zero
 last entry were full of NaNs

---
 src/geometric_transformations.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 4a32e73..d8373b9 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -681,6 +681,10 @@ fn class_from_matrix(mx: [f32; 9]) -> TransformationClass {
 }
 
 fn normalize(mx: [f32; 9]) -> [f32; 9] {
+    // The scale of a homogeneous matrix is arbitrary, so this one can be left as it is
+    if mx[8] == 0.0 {
+        return mx;
+    }
     [
         mx[0] / mx[8],
         mx[1] / mx[8],
-- 
2.43.0


From 44012c5ce74640dcfe06c25bd52aa497635a2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 13/68] fix: warping sampled the image where the pre-image is
 not a number

---
 src/geometric_transformations.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index d8373b9..2d8ea81 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -781,7 +781,8 @@ where
     let mut col: [P; 4] = [default, default, default, default];
 
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    let inside = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !inside {
         default
     } else {
         for row in top as u32..bottom as u32 {
@@ -842,7 +843,8 @@ where
 
     // default if out of bound
     let (width, height) = image.dimensions();
-    if left < 0f32 || right >= width as f32 || top < 0f32 || bottom >= height as f32 {
+    let inside = left >= 0f32 && right < width as f32 && top >= 0f32 && bottom < height as f32;
+    if !inside {
         default
     } else {
         let (tl, tr, bl, br) = unsafe {
@@ -859,7 +861,8 @@ where
 
 #[inline(always)]
 fn interpolate_nearest<P: Pixel>(image: &Image<P>, x: f32, y: f32, default: P) -> P {
-    if x < -0.5 || y < -0.5 {
+    let inside = x >= -0.5 && y >= -0.5;
+    if !inside {
         return default;
     }
 
-- 
2.43.0


From 6b7ee758f89cd63109d52de073858985ceb5365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 14/68] fix: from_control_points returned projections unrelated
 to degenerate control points

---
 src/geometric_transformations.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 2d8ea81..51dc649 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -131,6 +131,10 @@ impl Projection {
         use approx::AbsDiffEq;
         use nalgebra::{linalg::SVD, OMatrix, OVector, U8};
 
+        if has_collinear_triple(&from) || has_collinear_triple(&to) {
+            return None;
+        }
+
         let (xf1, yf1, xf2, yf2, xf3, yf3, xf4, yf4) = (
             from[0].0 as f64,
             from[0].1 as f64,
@@ -663,6 +667,21 @@ where
     });
 }
 
+// Whether any three of the points lie on a line, up to the precision of their coordinates
+fn has_collinear_triple(points: &[(f32, f32); 4]) -> bool {
+    (0..4).any(|skipped| {
+        let mut rest = (0..4).filter(|&i| i != skipped).map(|i| points[i]);
+        let (p, q, r) = (
+            rest.next().unwrap(),
+            rest.next().unwrap(),
+            rest.next().unwrap(),
+        );
+        let (ax, ay) = (q.0 as f64 - p.0 as f64, q.1 as f64 - p.1 as f64);
+        let (bx, by) = (r.0 as f64 - p.0 as f64, r.1 as f64 - p.1 as f64);
+        (ax * by - ay * bx).abs() <= 1e-6 * ax.hypot(ay) * bx.hypot(by)
+    })
+}
+
 // Classifies transformation by looking up transformation matrix coefficients
 fn class_from_matrix(mx: [f32; 9]) -> TransformationClass {
     if (mx[6] - 0.0).abs() < 1e-10 && (mx[7] - 0.0).abs() < 1e-10 && (mx[8] - 1.0).abs() < 1e-10 {
-- 
2.43.0


From 2a555067abcb7cdd6ebf272b1fd2ab6941493f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 15/68] fix: from_control_points was wrong when the origin is
 mapped to infinity

---
 src/geometric_transformations.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index 51dc649..dad8c26 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -135,15 +135,20 @@ impl Projection {
             return None;
         }
 
+        // Solve for the projection of the source points relative to the first one. This
+        // makes sure that the origin is not mapped to infinity, i.e. that we can
+        // look for a matrix whose last entry is one.
+        let (x0, y0) = (from[0].0 as f64, from[0].1 as f64);
+
         let (xf1, yf1, xf2, yf2, xf3, yf3, xf4, yf4) = (
-            from[0].0 as f64,
-            from[0].1 as f64,
-            from[1].0 as f64,
-            from[1].1 as f64,
-            from[2].0 as f64,
-            from[2].1 as f64,
-            from[3].0 as f64,
-            from[3].1 as f64,
+            0.0,
+            0.0,
+            from[1].0 as f64 - x0,
+            from[1].1 as f64 - y0,
+            from[2].0 as f64 - x0,
+            from[2].1 as f64 - y0,
+            from[3].0 as f64 - x0,
+            from[3].1 as f64 - y0,
         );
 
         let (x1, y1, x2, y2, x3, y3, x4, y4) = (
@@ -174,19 +179,18 @@ impl Projection {
         SVD::try_new(a, true, true, f64::default_epsilon(), 0)
             .and_then(|svd| svd.solve(&b, f64::default_epsilon()).ok())
             .and_then(|h| {
-                let mut transform = [
+                let transform = [
                     h[0] as f32,
                     h[1] as f32,
-                    h[2] as f32,
+                    (h[2] - h[0] * x0 - h[1] * y0) as f32,
                     h[3] as f32,
                     h[4] as f32,
-                    h[5] as f32,
+                    (h[5] - h[3] * x0 - h[4] * y0) as f32,
                     h[6] as f32,
                     h[7] as f32,
-                    1.0,
+                    (1.0 - h[6] * x0 - h[7] * y0) as f32,
                 ];
 
-                transform = normalize(transform);
                 let class = class_from_matrix(transform);
 
                 try_inverse(&transform).map(|inverse| Projection {
-- 
2.43.0


From 6c49dbd7b38f21579af34997b52e3c22d92392e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:49 +0000
Subject: [PATCH 16/68] fix: from_control_points was inaccurate for some
 control points

---
 src/geometric_transformations.rs | 47 ++++++++++++++++----------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index dad8c26..fea6aad 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -128,8 +128,7 @@ impl Projection {
 
     /// Calculates a projection from a set of four control point pairs.
     pub fn from_control_points(from: [(f32, f32); 4], to: [(f32, f32); 4]) -> Option<Projection> {
-        use approx::AbsDiffEq;
-        use nalgebra::{linalg::SVD, OMatrix, OVector, U8};
+        use nalgebra::{OMatrix, OVector, U8};
 
         if has_collinear_triple(&from) || has_collinear_triple(&to) {
             return None;
@@ -176,29 +175,29 @@ impl Projection {
 
         let b = OVector::<_, U8>::from_row_slice(&[-y1, x1, -y2, x2, -y3, x3, -y4, x4]);
 
-        SVD::try_new(a, true, true, f64::default_epsilon(), 0)
-            .and_then(|svd| svd.solve(&b, f64::default_epsilon()).ok())
-            .and_then(|h| {
-                let transform = [
-                    h[0] as f32,
-                    h[1] as f32,
-                    (h[2] - h[0] * x0 - h[1] * y0) as f32,
-                    h[3] as f32,
-                    h[4] as f32,
-                    (h[5] - h[3] * x0 - h[4] * y0) as f32,
-                    h[6] as f32,
-                    h[7] as f32,
-                    (1.0 - h[6] * x0 - h[7] * y0) as f32,
-                ];
-
-                let class = class_from_matrix(transform);
-
-                try_inverse(&transform).map(|inverse| Projection {
-                    transform,
-                    inverse,
-                    class,
-                })
+        // The points are in general position so there is exactly one solution. (The singular value
+        // decomposition provided by nalgebra is not accurate enough here.)
+        a.lu().solve(&b).and_then(|h| {
+            let transform = [
+                h[0] as f32,
+                h[1] as f32,
+                (h[2] - h[0] * x0 - h[1] * y0) as f32,
+                h[3] as f32,
+                h[4] as f32,
+                (h[5] - h[3] * x0 - h[4] * y0) as f32,
+                h[6] as f32,
+                h[7] as f32,
+                (1.0 - h[6] * x0 - h[7] * y0) as f32,
+            ];
+
+            let class = class_from_matrix(transform);
+
+            try_inverse(&transform).map(|inverse| Projection {
+                transform,
+                inverse,
+                class,
             })
+        })
     }
 
     // Helper functions used as optimization in warp.
-- 
2.43.0


From e84ca6d5a0576e89bbaf223eb4adc9361a1b5dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 17/68] fix: Rect::right, bottom, contains and intersect
 overflowed near the limits of i32

---
 src/rect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4c64403..8bc9ef8 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -58,18 +58,18 @@ impl Rect {
         self.left
     }
 
-    /// Greatest y-coordinate reached by rect.
+    /// Greatest y-coordinate reached by rect, or `i32::MAX` if this is not representable.
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn bottom(&self) -> i32 {
-        self.top + (self.height as i32) - 1
+        self.top.saturating_add_unsigned(self.height - 1)
     }
 
-    /// Greatest x-coordinate reached by rect.
+    /// Greatest x-coordinate reached by rect, or `i32::MAX` if this is not representable.
     ///
     /// See the [struct-level documentation](Rect) for examples.
     pub fn right(&self) -> i32 {
-        self.left + (self.width as i32) - 1
+        self.left.saturating_add_unsigned(self.width - 1)
     }
 
     /// Width of rect.
@@ -117,8 +117,8 @@ impl Rect {
         Some(Rect {
             left,
             top,
-            width: (right - left) as u32 + 1,
-            height: (bottom - top) as u32 + 1,
+            width: right.abs_diff(left) + 1,
+            height: bottom.abs_diff(top) + 1,
         })
     }
 }
-- 
2.43.0


From 45e350efee4352513a015d2e38e75731d13eb7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 18/68] fix: map_pixels2 accepted some pairs of images of
 different dimensions

---
 src/map.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 61f28b7..249293d 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -351,9 +351,15 @@ where
     R: Pixel,
     F: Fn(P, Q) -> R,
 {
+    assert_eq!(
+        image1.dimensions(),
+        image2.dimensions(),
+        "images must have the same dimensions"
+    );
+
     Image::from_vec(
         image1.width(),
-        image2.height(),
+        image1.height(),
         image1
             .pixels()
             .zip(image2.pixels())
-- 
2.43.0


From c64a24f30c3e6e6b3f487eae4a0d3532b65a8db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 19/68] fix: find_contours missed or misclassified borders of
 regions touching the left edge

---
 src/contours.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/contours.rs b/src/contours.rs
index dcdafb3..b03ed86 100644
--- a/src/contours.rs
+++ b/src/contours.rs
@@ -106,17 +106,17 @@ where
                 continue;
             }
 
+            // The position of the background pixel, relative to the current pixel
             if let Some((adj, border_type)) = if image_values[at(x, y)] == 1
-                && x > 0
-                && image_values[at(x - 1, y)] == 0
+                && (x == 0 || image_values[at(x - 1, y)] == 0)
             {
-                Some((Point::new(x - 1, y), BorderType::Outer))
+                Some((Point::new(-1, 0), BorderType::Outer))
             } else if image_values[at(x, y)] > 0 && x + 1 < width && image_values[at(x + 1, y)] == 0
             {
                 if image_values[at(x, y)] > 1 {
                     parent_border_num = image_values[at(x, y)] as usize;
                 }
-                Some((Point::new(x + 1, y), BorderType::Hole))
+                Some((Point::new(1, 0), BorderType::Hole))
             } else {
                 None
             } {
@@ -138,7 +138,7 @@ where
 
                 let mut contour_points = Vec::new();
                 let curr = Point::new(x, y);
-                rotate_to_value(&mut diffs, adj.to_i32() - curr.to_i32());
+                rotate_to_value(&mut diffs, adj);
 
                 if let Some(pos1) = diffs.iter().find_map(|diff| {
                     get_position_if_non_zero_pixel(&image_values, curr.to_i32() + *diff)
-- 
2.43.0


From 135077604253248cc979e07d785464ffa35e86ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 20/68] fix: convex_hull was wrong for repeated points

---
 src/geometry.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c904efd..760b3a2 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -193,24 +193,18 @@ where
     if points.is_empty() {
         return vec![];
     }
-    let mut start_point_pos = 0;
     let mut start_point = points[0];
-    for (i, &point) in points.iter().enumerate().skip(1) {
+    for &point in points.iter().skip(1) {
         if point.y < start_point.y || point.y == start_point.y && point.x < start_point.x {
-            start_point_pos = i;
             start_point = point;
         }
     }
-    points.swap(0, start_point_pos);
-    points.remove(0);
+    // Repetitions of the start point have no direction from it to sort by
+    points.retain(|p| *p != start_point);
     points.sort_by(
         |a, b| match orientation(start_point.to_i32(), a.to_i32(), b.to_i32()) {
             Orientation::Collinear => {
-                if distance(start_point, *a) < distance(start_point, *b) {
-                    Ordering::Less
-                } else {
-                    Ordering::Greater
-                }
+                distance(start_point, *a).total_cmp(&distance(start_point, *b))
             }
             Orientation::Clockwise => Ordering::Greater,
             Orientation::CounterClockwise => Ordering::Less,
-- 
2.43.0


From 915658a9253ecfdb8d92d39f27eed2ff537c77ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 21/68] fix: convex_hull overflowed for points more than 46340
 apart

---
 src/geometry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 760b3a2..1c15be3 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -255,7 +255,8 @@ enum Orientation {
 
 /// Determines whether p -> q -> r is a left turn, a right turn, or the points are collinear.
 fn orientation(p: Point<i32>, q: Point<i32>, r: Point<i32>) -> Orientation {
-    let val = (q.y - p.y) * (r.x - q.x) - (q.x - p.x) * (r.y - q.y);
+    let diff = |a: i32, b: i32| a as i128 - b as i128;
+    let val = diff(q.y, p.y) * diff(r.x, q.x) - diff(q.x, p.x) * diff(r.y, q.y);
     match val.cmp(&0) {
         Ordering::Equal => Orientation::Collinear,
         Ordering::Greater => Orientation::Clockwise,
-- 
2.43.0


From d3e7e5aa72c84aca47298ae2681dd580428e1f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 22/68] fix: min_area_rect ignored the last edge of the hull

---
 src/geometry.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 1c15be3..2e6d2dd 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -120,9 +120,10 @@ where
     T: NumCast + Copy,
 {
     let mut edge_angles: Vec<f64> = points
-        .windows(2)
-        .map(|e| {
-            let edge = e[1].to_f64() - e[0].to_f64();
+        .iter()
+        .zip(points.iter().cycle().skip(1))
+        .map(|(p, q)| {
+            let edge = q.to_f64() - p.to_f64();
             ((edge.y.atan2(edge.x) + PI) % (PI / 2.)).abs()
         })
         .collect();
-- 
2.43.0


From 772116c35cd1da82e7d267fe75118e97fe48e5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 23/68] fix: arc_length of a closed arc of two points lacked
 the closing distance

---
 src/geometry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 2e6d2dd..d11e739 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -13,7 +13,7 @@ where
 {
     let mut length = arc.windows(2).map(|pts| distance(pts[0], pts[1])).sum();
 
-    if arc.len() > 2 && closed {
+    if arc.len() > 1 && closed {
         length += distance(arc[0], arc[arc.len() - 1]);
     }
 
-- 
2.43.0


From a069e87a632e2b0eb9001416db8e4c4b10533831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 24/68] fix: approximate_polygon_dp dropped all points of
 curves ending where they start

---
 src/geometry.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index d11e739..c3209de 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -31,13 +31,22 @@ where
         panic!("epsilon must be greater than 0.0");
     }
 
+    if curve.len() < 2 {
+        return curve.to_vec();
+    }
+
     // Find the point with the maximum distance
     let mut dmax = 0.0;
     let mut index = 0;
     let end = curve.len() - 1;
-    let line = Line::from_points(curve[0].to_f64(), curve[end].to_f64());
-    for (i, point) in curve.iter().enumerate().skip(1) {
-        let d = line.distance_from_point(point.to_f64());
+    let (p, q) = (curve[0].to_f64(), curve[end].to_f64());
+    let line = Line::from_points(p, q);
+    for (i, point) in curve.iter().enumerate().take(end).skip(1) {
+        let d = if p == q {
+            distance(p, point.to_f64())
+        } else {
+            line.distance_from_point(point.to_f64())
+        };
         if d > dmax {
             index = i;
             dmax = d;
-- 
2.43.0


From eaf19ed012d439259b932f691ec4f0bb025728c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 25/68] fix: approximate_polygon_dp dropped the last corner of
 closed curves

---
 src/geometry.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index c3209de..a319fbd 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -35,6 +35,15 @@ where
         return curve.to_vec();
     }
 
+    if closed {
+        // Simplify the path from the first point around the curve and back
+        let mut path = curve.to_vec();
+        path.push(curve[0]);
+        let mut res = approximate_polygon_dp(&path, epsilon, false);
+        res.pop();
+        return res;
+    }
+
     // Find the point with the maximum distance
     let mut dmax = 0.0;
     let mut index = 0;
@@ -54,7 +63,7 @@ where
     }
 
     // If max distance is greater than epsilon, recursively simplify
-    let mut res = if dmax > epsilon {
+    if dmax > epsilon {
         // Recursive call
         let mut partial1 = approximate_polygon_dp(&curve[0..=index], epsilon, false);
         let partial2 = approximate_polygon_dp(&curve[index..=end], epsilon, false);
@@ -65,13 +74,7 @@ where
         partial1
     } else {
         vec![curve[0], curve[end]]
-    };
-
-    if closed {
-        res.pop();
     }
-
-    res
 }
 
 /// Calculates the area of the contour using the [shoelace formula].
-- 
2.43.0


From 113b8a9b2ab8eeac5e8c70472191fe5712dda57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 26/68] fix: corners_fast12 missed sections lacking the top or
 bottom pixel

---
 src/corners.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index 51f17be..e2a62e8 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -365,8 +365,10 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
         )
     };
 
-    let mut above = p0 > high_thresh && p8 > high_thresh;
-    let mut below = p0 < low_thresh && p8 < low_thresh;
+    // A contiguous section of length twelve contains at least three of p0, p4, p8 and p12,
+    // so at least one of p0 and p8.
+    let mut above = p0 > high_thresh || p8 > high_thresh;
+    let mut below = p0 < low_thresh || p8 < low_thresh;
 
     if !above && !below {
         return false;
@@ -380,8 +382,9 @@ fn is_corner_fast12(image: &GrayImage, threshold: u8, x: u32, y: u32) -> bool {
         )
     };
 
-    above = above && ((p4 > high_thresh) || (p12 > high_thresh));
-    below = below && ((p4 < low_thresh) || (p12 < low_thresh));
+    let compass = [p0, p4, p8, p12];
+    above = above && compass.iter().filter(|p| **p > high_thresh).count() >= 3;
+    below = below && compass.iter().filter(|p| **p < low_thresh).count() >= 3;
 
     if !above && !below {
         return false;
-- 
2.43.0


From 172b2a0efc7b6f0a29b4fa917eb71288b3e39bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 27/68] fix: wrong orientation of FAST corners near the left
 and top image borders

---
 src/corners.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index e2a62e8..f985962 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -124,7 +124,11 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
     let y_max = u32::min(y + radius + 1, height);
     let x_max = u32::min(x + radius + 1, width);
 
-    let (mut x_count, mut y_count) = (-(radius as i32), (radius as i32));
+    // Offsets from the centre of the first row and column. The patch is cropped
+    // where it extends beyond the image.
+    let x_start = -((x - x_min) as i32);
+    let y_start = (y - y_min) as i32;
+    let (mut x_count, mut y_count) = (x_start, y_start);
 
     for y in y_min..y_max {
         for x in x_min..x_max {
@@ -146,7 +150,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             x_centroid += x_count * (pixel as i32);
             x_count += 1;
         }
-        x_count = -(radius as i32);
+        x_count = x_start;
     }
 
     for x in x_min..x_max {
@@ -156,7 +160,7 @@ fn intensity_centroid(image: &GrayImage, x: u32, y: u32, radius: u32) -> f32 {
             y_centroid += y_count * (pixel as i32);
             y_count -= 1;
         }
-        y_count = radius as i32;
+        y_count = y_start;
     }
 
     // Important note: we flip the sign here because there are two coordinate
-- 
2.43.0


From 0c88b893699f6b75eb6dd570d410542190fb3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 28/68] fix: oriented_fast panicked for images smaller than its
 sample or border

---
 src/corners.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/corners.rs b/src/corners.rs
index f985962..7bc9f28 100644
--- a/src/corners.rs
+++ b/src/corners.rs
@@ -182,10 +182,15 @@ pub fn oriented_fast(
     seed: Option<u64>,
 ) -> Vec<OrientedFastCorner> {
     let (width, height) = image.dimensions();
-    let (min_x, max_x) = (edge_radius, width - edge_radius);
-    let (min_y, max_y) = (edge_radius, height - edge_radius);
+    let (min_x, max_x) = (edge_radius, width.saturating_sub(edge_radius));
+    let (min_y, max_y) = (edge_radius, height.saturating_sub(edge_radius));
     let mut corners = vec![];
 
+    // No pixel is far enough from the image edges.
+    if min_x >= max_x || min_y >= max_y {
+        return vec![];
+    }
+
     let local_threshold = if let Some(t) = threshold {
         t
     } else {
@@ -209,14 +214,14 @@ pub fn oriented_fast(
             .collect();
         fast_scores.sort();
         let target_corner_fraction = (target_num_corners as f32) / ((width * height) as f32);
-        let fraction_idx = (NUM_SAMPLE_POINTS as f32 * (1. - target_corner_fraction)) as usize;
+        let fraction_idx = (sample_size as f32 * (1. - target_corner_fraction)) as usize;
 
-        fast_scores[fraction_idx]
+        fast_scores[fraction_idx.min(sample_size - 1)]
     };
 
     // Iterate over every pixel in the image and find potential corners.
-    for y in edge_radius..height - edge_radius {
-        for x in edge_radius..width - edge_radius {
+    for y in min_y..max_y {
+        for x in min_x..max_x {
             if is_corner_fast9(image, local_threshold, x, y) {
                 let score = fast_corner_score(image, local_threshold, x, y, Fast::Nine);
                 corners.push(Corner::new(x, y, score as f32));
-- 
2.43.0


From a1fe147dc8a4472ae5104df5b63fee9de6b501c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 29/68] fix: BRIEF descriptors lost the first test of each 128
 bits

---
 src/binary_descriptors/brief.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 4283ce3..a74d134 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -179,10 +179,10 @@ pub(crate) fn brief_impl(
             };
 
             // if p0 < p1, then record true for this test; otherwise, record false
+            descriptor_chunk <<= 1;
             descriptor_chunk += (local_pixel_average(integral_image, p0.x, p0.y, 2)
                 < local_pixel_average(integral_image, p1.x, p1.y, 2))
                 as u128;
-            descriptor_chunk <<= 1;
         }
         // save the final chunk too
         descriptor.bits.push(descriptor_chunk);
-- 
2.43.0


From ffbef9fd116b144a4b0b3b6088b32e37153d5fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 30/68] fix: BRIEF accepted keypoints whose patch leaves the
 image

---
 src/binary_descriptors/brief.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index a74d134..8f52aad 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -130,14 +130,15 @@ pub(crate) fn brief_impl(
     }
 
     let mut descriptors: Vec<BriefDescriptor> = Vec::with_capacity(keypoints.len());
-    let (width, height) = (integral_image.width(), integral_image.height());
+    // the integral image has one more row and column than the image
+    let (width, height) = (integral_image.width() - 1, integral_image.height() - 1);
 
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS >= width
+            || keypoint.x + BRIEF_PATCH_RADIUS + 1 >= width
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS >= height
+            || keypoint.y + BRIEF_PATCH_RADIUS + 1 >= height
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
-- 
2.43.0


From 07a516a724eaf101c0d6f6adc66370745ceb158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 31/68] fix: match_binary_descriptors matched the wrong way
 round for longer d1

---
 src/binary_descriptors/mod.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/binary_descriptors/mod.rs b/src/binary_descriptors/mod.rs
index f695bc1..3c9ca48 100644
--- a/src/binary_descriptors/mod.rs
+++ b/src/binary_descriptors/mod.rs
@@ -37,7 +37,7 @@ pub trait BinaryDescriptor {
 ///
 /// Uses [locality-sensitive hashing][lsh] (LSH) for efficient matching. The
 /// number of tables is fixed at three, but the hash length is proportional to
-/// the log of the size of the largest input array.
+/// the log of the size of `d2`.
 ///
 /// Returns a vector of references describing the matched pairs. The first
 /// reference is to a descriptor in `d1`, and the second reference is to an
@@ -63,12 +63,8 @@ pub fn match_binary_descriptors<'a, T: BinaryDescriptor>(
     };
 
     // locality-sensitive hashing (LSH)
-    // this algorithm is log(d2.len()) but linear in d1.len(), so swap the inputs if needed
-    let (queries, database, swapped) = if d1.len() > d2.len() {
-        (d2, d1, true)
-    } else {
-        (d1, d2, false)
-    };
+    // this algorithm is log(d2.len()) but linear in d1.len()
+    let (queries, database) = (d1, d2);
 
     // build l hash tables by selecting k random bits from each descriptor
     let l = 3;
@@ -123,11 +119,7 @@ pub fn match_binary_descriptors<'a, T: BinaryDescriptor>(
         }
         // ignore the match if it's beyond our threshold
         if best_score < threshold {
-            if swapped {
-                matches.push((best_candidate.unwrap(), query));
-            } else {
-                matches.push((query, best_candidate.unwrap()));
-            }
+            matches.push((query, best_candidate.unwrap()));
         }
     }
     matches
-- 
2.43.0


From fa70e5013fb40442e2daaace6a5ce6a86c5c0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:47 +0000
Subject: [PATCH 32/68] fix: match_template overflowed for empty templates

---
 src/template_matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/template_matching.rs b/src/template_matching.rs
index e51a2fb..e5125ab 100644
--- a/src/template_matching.rs
+++ b/src/template_matching.rs
@@ -420,8 +420,8 @@ impl<'a> ImageTemplate<'a> {
     }
     unsafe fn slide_window_at(&self, (x, y): (u32, u32), mut for_each: impl FnMut(f32, f32)) {
         let (image, template) = (self.image, self.template);
-        debug_assert!(x + template.width() - 1 < image.width());
-        debug_assert!(y + template.height() - 1 < image.height());
+        debug_assert!(x + template.width() <= image.width());
+        debug_assert!(y + template.height() <= image.height());
 
         for dy in 0..template.height() {
             for dx in 0..template.width() {
@@ -457,8 +457,8 @@ impl<'a> ImageTemplateMask<'a> {
     unsafe fn slide_window_at(&self, (x, y): (u32, u32), mut for_each: impl FnMut(f32, f32, f32)) {
         let Self { mask, inner } = self;
         let (image, template) = (inner.image, inner.template);
-        debug_assert!(x + template.width() - 1 < image.width());
-        debug_assert!(y + template.height() - 1 < image.height());
+        debug_assert!(x + template.width() <= image.width());
+        debug_assert!(y + template.height() <= image.height());
 
         for dy in 0..template.height() {
             for dx in 0..template.width() {
-- 
2.43.0


From 78aa2d934baf47d195b964fa943c6f27047f5eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 33/68] fix: canny overflowed for empty images

---
 src/edges.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edges.rs b/src/edges.rs
index 38ce3d9..d9f61a2 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -60,8 +60,8 @@ fn non_maximum_suppression(
 ) -> Image<Luma<f32>> {
     const RADIANS_TO_DEGREES: f32 = 180f32 / f32::consts::PI;
     let mut out = Image::from_pixel(g.width(), g.height(), Luma([0.0]));
-    for y in 1..g.height() - 1 {
-        for x in 1..g.width() - 1 {
+    for y in 1..g.height().saturating_sub(1) {
+        for x in 1..g.width().saturating_sub(1) {
             let x_gradient = gx[(x, y)][0] as f32;
             let y_gradient = gy[(x, y)][0] as f32;
             let mut angle = (y_gradient).atan2(x_gradient) * RADIANS_TO_DEGREES;
@@ -118,8 +118,8 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
     let mut out = Image::from_pixel(input.width(), input.height(), min_brightness);
     // Stack. Possible optimization: Use previously allocated memory, i.e. gx.
     let mut edges = Vec::with_capacity(((input.width() * input.height()) / 2) as usize);
-    for y in 1..input.height() - 1 {
-        for x in 1..input.width() - 1 {
+    for y in 1..input.height().saturating_sub(1) {
+        for x in 1..input.width().saturating_sub(1) {
             let inp_pix = *input.get_pixel(x, y);
             let out_pix = *out.get_pixel(x, y);
             // If the edge strength is higher than high_thresh, mark it as an edge.
-- 
2.43.0


From 5ce7e8e43bdcc3c2354b6b546e2783c1bd9a5518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 34/68] fix: canny left the image for low thresholds of zero or
 less

---
 src/edges.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edges.rs b/src/edges.rs
index d9f61a2..233ef7f 100644
--- a/src/edges.rs
+++ b/src/edges.rs
@@ -138,6 +138,14 @@ fn hysteresis(input: &Image<Luma<f32>>, low_thresh: f32, high_thresh: f32) -> Im
                     ];
 
                     for neighbor_idx in &neighbor_indices {
+                        // Pixels on the image border are never edges.
+                        if neighbor_idx.0 == 0
+                            || neighbor_idx.1 == 0
+                            || neighbor_idx.0 == input.width() - 1
+                            || neighbor_idx.1 == input.height() - 1
+                        {
+                            continue;
+                        }
                         let in_neighbor = *input.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         let out_neighbor = *out.get_pixel(neighbor_idx.0, neighbor_idx.1);
                         if in_neighbor[0] >= low_thresh && out_neighbor[0] == 0 {
-- 
2.43.0


From 41d1b054e9849aed03d1bce309d358c84a40157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 35/68] fix: detect_lines overflowed for images longer than
 65535 pixels

---
 src/hough.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hough.rs b/src/hough.rs
index 659a481..7035ee0 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -40,7 +40,7 @@ pub fn detect_lines(image: &GrayImage, options: LineDetectionOptions) -> Vec<Pol
     let (width, height) = image.dimensions();
 
     // The maximum possible radius is the diagonal of the image.
-    let rmax = ((width * width + height * height) as f64).sqrt() as i32;
+    let rmax = ((width as f64).powi(2) + (height as f64).powi(2)).sqrt() as i32;
 
     // Measure angles in degrees, and use bins of width 1 pixel and height 1 degree.
     // We use the convention that distances are positive for angles in (0, 180] and
-- 
2.43.0


From 044202c646ddaffc826ab64eaeffc353f29c876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 36/68] fix: polar lines through an image corner were cut to a
 point

---
 src/hough.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/hough.rs b/src/hough.rs
index 7035ee0..a641758 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -163,7 +163,11 @@ pub fn intersection_points(
     let bottom_x = sin.mul_add(-h, r) / cos;
     let top_x = r / cos;
 
-    let mut start = None;
+    let mut start: Option<(f32, f32)> = None;
+    // A line through a corner of the image meets two of its edges in the same place.
+    let mut coincident = None;
+    let is_distinct =
+        |p: (f32, f32), q: (f32, f32)| (p.0 - q.0).abs() + (p.1 - q.1).abs() > 1.0e-3;
 
     if right_y >= 0.0 && right_y <= h {
         let right_intersect = (w, right_y);
@@ -172,28 +176,32 @@ pub fn intersection_points(
 
     if left_y >= 0.0 && left_y <= h {
         let left_intersect = (0.0, left_y);
-        if let Some(s) = start {
-            return Some((s, left_intersect));
+        match start {
+            Some(s) if is_distinct(s, left_intersect) => return Some((s, left_intersect)),
+            Some(s) => coincident = Some((s, left_intersect)),
+            None => start = Some(left_intersect),
         }
-        start = Some(left_intersect);
     }
 
     if bottom_x >= 0.0 && bottom_x <= w {
         let bottom_intersect = (bottom_x, h);
-        if let Some(s) = start {
-            return Some((s, bottom_intersect));
+        match start {
+            Some(s) if is_distinct(s, bottom_intersect) => return Some((s, bottom_intersect)),
+            Some(s) => coincident = Some((s, bottom_intersect)),
+            None => start = Some(bottom_intersect),
         }
-        start = Some(bottom_intersect);
     }
 
     if top_x >= 0.0 && top_x <= w {
         let top_intersect = (top_x, 0.0);
-        if let Some(s) = start {
-            return Some((s, top_intersect));
+        match start {
+            Some(s) if is_distinct(s, top_intersect) => return Some((s, top_intersect)),
+            Some(s) => coincident = Some((s, top_intersect)),
+            None => (),
         }
     }
 
-    None
+    coincident
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4a8c362805ea44cc79059d25ec4983fcc6cc39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 37/68] fix: wrong antialiased line weights at negative
 coordinates

---
 src/drawing/line.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drawing/line.rs b/src/drawing/line.rs
index 2e8f962..1ee0d32 100644
--- a/src/drawing/line.rs
+++ b/src/drawing/line.rs
@@ -284,8 +284,9 @@ fn plot_wu_line<I, T, B>(
     let mut fy = start.1 as f32;
 
     for x in start.0..(end.0 + 1) {
-        plotter.plot(x, fy as i32, color, 1.0 - fy.fract());
-        plotter.plot(x, fy as i32 + 1, color, fy.fract());
+        let y = fy.floor();
+        plotter.plot(x, y as i32, color, 1.0 - (fy - y));
+        plotter.plot(x, y as i32 + 1, color, fy - y);
         fy += gradient;
     }
 }
-- 
2.43.0


From 39cd3334b3bd8a3c47ca0f940749a569a68d62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 38/68] fix: draw_filled_rect panicked on empty canvases

---
 src/drawing/rect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drawing/rect.rs b/src/drawing/rect.rs
index ee2c99e..d0bda0d 100644
--- a/src/drawing/rect.rs
+++ b/src/drawing/rect.rs
@@ -52,6 +52,10 @@ pub fn draw_filled_rect_mut<C>(canvas: &mut C, rect: Rect, color: C::Pixel)
 where
     C: Canvas,
 {
+    if canvas.width() == 0 || canvas.height() == 0 {
+        return;
+    }
+
     let canvas_bounds = Rect::at(0, 0).of_size(canvas.width(), canvas.height());
     if let Some(intersection) = canvas_bounds.intersect(rect) {
         for dy in 0..intersection.height() {
-- 
2.43.0


From 992117fb0ffe3caa0c0f9efdc1f7aa9a8a62c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 39/68] fix: draw_polygon panicked on canvases of zero height

---
 src/drawing/polygon.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing/polygon.rs b/src/drawing/polygon.rs
index b3169f8..3d1f5c8 100644
--- a/src/drawing/polygon.rs
+++ b/src/drawing/polygon.rs
@@ -155,6 +155,9 @@ where
     }
 
     let (width, height) = canvas.dimensions();
+    if width == 0 || height == 0 {
+        return;
+    }
 
     // Intersect polygon vertical range with image bounds
     y_min = max(0, min(y_min, height as i32 - 1));
-- 
2.43.0


From 41624bf9d440c84dc6f3307a1ba7cb25d722202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 40/68] fix: ellipses with radii above 46340 overflowed

---
 src/drawing/conics.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index 9f4a9e0..fb91dec 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -124,8 +124,8 @@ where
     F: FnMut(i32, i32, i32, i32),
 {
     let (x0, y0) = center;
-    let w2 = (width_radius * width_radius) as f32;
-    let h2 = (height_radius * height_radius) as f32;
+    let w2 = (width_radius as f32).powi(2);
+    let h2 = (height_radius as f32).powi(2);
     let mut x = 0;
     let mut y = height_radius;
     let mut px = 0.0;
@@ -150,7 +150,7 @@ where
     }
 
     // Left and right regions.
-    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y - 1).pow(2) as f32) - w2 * h2;
+    p = h2 * (x as f32 + 0.5).powi(2) + (w2 * (y as f32 - 1.0).powi(2)) - w2 * h2;
     while y > 0 {
         y -= 1;
         py += -2.0 * w2;
-- 
2.43.0


From 6203f9e4aea2fe3edad4c18bc20d6ec5618a6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 41/68] fix: flat ellipses were cut off before their ends

---
 src/drawing/conics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/drawing/conics.rs b/src/drawing/conics.rs
index fb91dec..d066c98 100644
--- a/src/drawing/conics.rs
+++ b/src/drawing/conics.rs
@@ -164,6 +164,12 @@ where
 
         render_func(x0, y0, x, y);
     }
+
+    // The ends of flat ellipses, where the top and bottom regions meet.
+    while x < width_radius {
+        x += 1;
+        render_func(x0, y0, x, y);
+    }
 }
 
 /// Draws the outline of a circle on an image.
-- 
2.43.0


From 3f86eafe4f020b06507fb37c9258bbc49ccae640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 42/68] fix: find_vertical_seam did not always find a seam of
 minimal energy

---
 src/seam_carving.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 44d195c..988382a 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -93,6 +93,7 @@ where
 
     for y in (1..height).rev() {
         let above = gradients.get_pixel(last_x, y - 1)[0];
+        min_energy = above;
         if last_x > 0 {
             let left = gradients.get_pixel(last_x - 1, y - 1)[0];
             if left < above {
-- 
2.43.0


From cbf0844e3983c147255a6b04aa4ac44e193c4eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 43/68] fix: draw_vertical_seams misplaced seams

---
 src/seam_carving.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 988382a..7908578 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -174,14 +174,16 @@ pub fn draw_vertical_seams(image: &GrayImage, seams: &[VerticalSeam]) -> Image<R
 
     for seam in seams {
         for (y, x) in (0..height).rev().zip(&seam.0) {
+            // Skip the columns of the earlier seams, which are kept sorted.
+            let row_offsets = &mut offsets[y as usize];
             let mut x_original = *x;
-            for o in &offsets[y as usize] {
-                if *o < *x {
-                    x_original += 1;
-                }
+            let mut skipped = 0;
+            while skipped < row_offsets.len() && row_offsets[skipped] <= x_original {
+                x_original += 1;
+                skipped += 1;
             }
             out.put_pixel(x_original, y, Rgb([255, 0, 0]));
-            offsets[y as usize].push(x_original);
+            row_offsets.insert(skipped, x_original);
         }
     }
 
-- 
2.43.0


From 4bb1bb2633304e4b91e26eab6797a245491d9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 44/68] fix: find_vertical_seam panicked for images without
 rows

---
 src/seam_carving.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seam_carving.rs b/src/seam_carving.rs
index 7908578..bfdc948 100644
--- a/src/seam_carving.rs
+++ b/src/seam_carving.rs
@@ -54,6 +54,9 @@ where
         image.width() >= 2,
         "Cannot find seams if image width is < 2"
     );
+    if height == 0 {
+        return VerticalSeam(vec![]);
+    }
 
     let mut gradients = gradients(
         image,
-- 
2.43.0


From 9ff82fb70e8a6901a845046dafd7280ef6d5ea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 45/68] fix: enumerate_haar_features overflowed for frames of
 side 255

---
 src/haar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haar.rs b/src/haar.rs
index 8eb7cd3..89f3707 100644
--- a/src/haar.rs
+++ b/src/haar.rs
@@ -327,8 +327,8 @@ impl<T> Size<T> {
 
 // Returns the valid block sizes for a feature of shape `feature_shape` in a frame of size `frame_size`.
 fn block_sizes(feature_shape: Size<Blocks>, frame_size: Size<Pixels>) -> Vec<Size<Pixels>> {
-    (1..frame_size.width / feature_shape.width + 1)
-        .cartesian_product(1..frame_size.height / feature_shape.height + 1)
+    (1..=frame_size.width / feature_shape.width)
+        .cartesian_product(1..=frame_size.height / feature_shape.height)
         .map(|(w, h)| Size::new(w, h))
         .collect()
 }
-- 
2.43.0


From dffc8b373231407e93c77f5de3fc3947f3eed510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 46/68] fix: HogSpec::from_options panicked for some
 incompatible options

---
 src/hog.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/hog.rs b/src/hog.rs
index 793ae09..d77e614 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -87,6 +87,10 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.cell_side == 0 {
+            errors.push("cell side is zero".to_string());
+            return Err(Self::invalid_options_message(&errors));
+        }
         if width % options.cell_side != 0 {
             errors.push(format!(
                 "cell side {} does not evenly divide width {}",
@@ -113,6 +117,24 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.block_stride == 0 {
+            errors.push("block stride is zero".to_string());
+        }
+        if options.block_side > cells_wide {
+            errors.push(format!(
+                "block side {} exceeds cells wide {}",
+                options.block_side, cells_wide
+            ));
+        }
+        if options.block_side > cells_high {
+            errors.push(format!(
+                "block side {} exceeds cells high {}",
+                options.block_side, cells_high
+            ));
+        }
+        if !errors.is_empty() {
+            return Err(Self::invalid_options_message(&errors));
+        }
         if (cells_wide - options.block_side) % options.block_stride != 0 {
             errors.push(format!(
                 "block stride {} does not evenly divide (cells wide {} - block side {})",
-- 
2.43.0


From f46a80233ebbd24e738a65bab96ea7f810df6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 47/68] fix: hog panicked for zero orientations

---
 src/hog.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hog.rs b/src/hog.rs
index d77e614..6034059 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -87,8 +87,13 @@ impl HogSpec {
         options: HogOptions,
     ) -> Result<(usize, usize), String> {
         let mut errors: Vec<String> = vec![];
+        if options.orientations == 0 {
+            errors.push("number of orientations is zero".to_string());
+        }
         if options.cell_side == 0 {
             errors.push("cell side is zero".to_string());
+        }
+        if !errors.is_empty() {
             return Err(Self::invalid_options_message(&errors));
         }
         if width % options.cell_side != 0 {
-- 
2.43.0


From 6fc7a54c064fd0ebec1a5ea03ba70f78a3823d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 48/68] fix: hog overflowed for huge cell sides and block
 strides

---
 src/hog.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/hog.rs b/src/hog.rs
index 6034059..c730d59 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -199,18 +199,13 @@ impl HogSpec {
             self.options.block_side,
         ]
     }
-
-    /// Area of an image cell in pixels.
-    fn cell_area(&self) -> usize {
-        self.options.cell_side * self.options.cell_side
-    }
 }
 
 /// Number of blocks required to cover `num_cells` cells when each block is
 /// `block_side` long and blocks are staggered by `block_stride`. Assumes that
 /// options are compatible.
 fn num_blocks(num_cells: usize, block_side: usize, block_stride: usize) -> usize {
-    (num_cells + block_stride - block_side) / block_stride
+    (num_cells - block_side) / block_stride + 1
 }
 
 /// Computes the HoG descriptor of an image, or None if the provided
@@ -283,8 +278,8 @@ fn copy<T: Copy>(from: &[T], to: &mut [T]) {
 pub fn cell_histograms(image: &GrayImage, spec: HogSpec) -> Array3d<f32> {
     let (width, height) = image.dimensions();
     let mut grid = Array3d::new(spec.cell_grid_lengths());
-    let cell_area = spec.cell_area() as f32;
     let cell_side = spec.options.cell_side as f32;
+    let cell_area = cell_side * cell_side;
 
     let horizontal = filter_clamped::<_, _, i32>(image, kernel::SOBEL_HORIZONTAL_3X3);
     let vertical = filter_clamped::<_, _, i32>(image, kernel::SOBEL_VERTICAL_3X3);
-- 
2.43.0


From 489c7703c38a231d5a35d5484a407e40c19391ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 49/68] fix: render_hist_grid drew every star over the whole
 image

---
 src/hog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index c730d59..c49c640 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -403,7 +403,7 @@ pub fn render_hist_grid(star_side: u32, grid: &View3d<'_, f32>, signed: bool) ->
             let x_window = x as u32 * star_side;
             let mut window = out.sub_image(x_window, y_window, star_side, star_side);
             let hist = grid.inner_slice(x, y);
-            draw_star_mut(window.inner_mut(), hist, signed);
+            draw_star_mut(&mut *window, hist, signed);
         }
     }
 
-- 
2.43.0


From b9350a00b4426d0160e50cd215e733e5b5988524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:39 +0000
Subject: [PATCH 50/68] fix: reversed documentation of HogOptions::signed

---
 src/hog.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hog.rs b/src/hog.rs
index c49c640..9aac37e 100644
--- a/src/hog.rs
+++ b/src/hog.rs
@@ -14,7 +14,7 @@ use std::f32;
 pub struct HogOptions {
     /// Number of gradient orientation bins.
     pub orientations: usize,
-    /// Whether gradients in opposite directions are treated as equal.
+    /// Whether gradients in opposite directions are treated as different.
     pub signed: bool,
     /// Width and height of cell in pixels.
     pub cell_side: usize,
-- 
2.43.0


From 1c819ed5ca974d4c6f467ddced1608518de9ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 51/68] fix: draw_text overflowed for positions near the limits
 of i32

---
 src/drawing/text.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/drawing/text.rs b/src/drawing/text.rs
index 13319af..ed972fd 100644
--- a/src/drawing/text.rs
+++ b/src/drawing/text.rs
@@ -85,15 +85,15 @@ pub fn draw_text_mut<C>(
     C: Canvas,
     <C::Pixel as Pixel>::Subpixel: Into<f32> + Clamp<f32>,
 {
-    let image_width = canvas.width() as i32;
-    let image_height = canvas.height() as i32;
+    let image_width = canvas.width() as i64;
+    let image_height = canvas.height() as i64;
 
     layout_glyphs(scale, font, text, |g, bb| {
-        let x_shift = x + bb.min.x.round() as i32;
-        let y_shift = y + bb.min.y.round() as i32;
+        let x_shift = x as i64 + bb.min.x.round() as i64;
+        let y_shift = y as i64 + bb.min.y.round() as i64;
         g.draw(|gx, gy, gv| {
-            let image_x = gx as i32 + x_shift;
-            let image_y = gy as i32 + y_shift;
+            let image_x = gx as i64 + x_shift;
+            let image_y = gy as i64 + y_shift;
 
             if (0..image_width).contains(&image_x) && (0..image_height).contains(&image_y) {
                 let image_x = image_x as u32;
-- 
2.43.0


From d2743bbb2d707994ae00fc7f07071a1ce475855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 52/68] fix: adaptive_threshold: no overflow for extreme block
 radii and deltas

---
 src/contrast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index c9024f1..73b7473 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -1,6 +1,6 @@
 //! Functions for manipulating the contrast of images.
 
-use std::cmp::{max, min};
+use std::cmp::min;
 
 use image::{GrayImage, Luma, Pixel};
 #[cfg(feature = "rayon")]
@@ -26,19 +26,19 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
             let current_pixel = image.get_pixel(x, y);
             // Traverse all neighbors in (2 * block_radius + 1) x (2 * block_radius + 1)
             let (y_low, y_high) = (
-                max(0, y as i32 - (block_radius as i32)) as u32,
-                min(image.height() - 1, y + block_radius),
+                y.saturating_sub(block_radius),
+                min(image.height() - 1, y.saturating_add(block_radius)),
             );
             let (x_low, x_high) = (
-                max(0, x as i32 - (block_radius as i32)) as u32,
-                min(image.width() - 1, x + block_radius),
+                x.saturating_sub(block_radius),
+                min(image.width() - 1, x.saturating_add(block_radius)),
             );
 
             // Number of pixels in the block, adjusted for edge cases.
             let w = (y_high - y_low + 1) * (x_high - x_low + 1);
             let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
 
-            if current_pixel[0] as i32 >= mean as i32 - delta {
+            if current_pixel[0] as i64 >= mean as i64 - delta as i64 {
                 out.put_pixel(x, y, Luma::white());
             }
         }
-- 
2.43.0


From c898a83358d558ce761b6c00834de49736b2d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 53/68] fix: brief: reject keypoints close to u32::MAX instead
 of overflowing

---
 src/binary_descriptors/brief.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 8f52aad..3712b95 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -136,9 +136,9 @@ pub(crate) fn brief_impl(
     for keypoint in keypoints {
         // if the keypoint is too close to the edge, return an error
         if keypoint.x <= BRIEF_PATCH_RADIUS
-            || keypoint.x + BRIEF_PATCH_RADIUS + 1 >= width
+            || keypoint.x.saturating_add(BRIEF_PATCH_RADIUS + 1) >= width
             || keypoint.y <= BRIEF_PATCH_RADIUS
-            || keypoint.y + BRIEF_PATCH_RADIUS + 1 >= height
+            || keypoint.y.saturating_add(BRIEF_PATCH_RADIUS + 1) >= height
         {
             return Err(format!(
                 "Found keypoint within {} px of image edge: ({}, {})",
-- 
2.43.0


From 3cbbb7d5d19a2cd36843f35b1cffffcb1f771583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:54 +0000
Subject: [PATCH 54/68] fix: morphology: ignore surplus entries of the image
 container

---
 src/morphology.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index b16dc2e..6495201 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -76,7 +76,7 @@ pub fn dilate(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
 #[doc=generate_mut_doc_comment!("dilate")]
 pub fn dilate_mut(image: &mut GrayImage, norm: Norm, k: u8) {
     // Without any foreground pixels there is nothing to dilate, and distances are not defined
-    if image.iter().all(|p| *p == 0) {
+    if image.pixels().all(|p| p[0] == 0) {
         return;
     }
     distance_transform_mut(image, norm);
@@ -171,7 +171,7 @@ pub fn erode(image: &GrayImage, norm: Norm, k: u8) -> GrayImage {
 #[doc=generate_mut_doc_comment!("erode")]
 pub fn erode_mut(image: &mut GrayImage, norm: Norm, k: u8) {
     // Without any background pixels there is nothing to erode, and distances are not defined
-    if image.iter().all(|p| *p != 0) {
+    if image.pixels().all(|p| p[0] != 0) {
         image.fill(255);
         return;
     }
@@ -551,13 +551,15 @@ fn mask_reduce<F: Fn(u8, u8) -> u8>(
     operator: F,
 ) -> GrayImage {
     let mut result = GrayImage::from_pixel(image.width(), image.height(), Luma([neutral]));
-    if image.is_empty() {
+    if image.width() == 0 || image.height() == 0 {
         return result;
     }
+    // the container of the image may be longer than the image
+    let image_len = result.len();
     for (y, line_group) in lines!(mask) {
         let y = i64::from(y);
         let line = line_group.collect::<Vec<_>>();
-        let input_rows = image
+        let input_rows = (**image)[..image_len]
             .chunks(image.width() as usize)
             .skip(y.try_into().unwrap_or(0));
         let output_rows = result
-- 
2.43.0


From 729d97e6f126b01a2cc3664b4950c28d3121c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 55/68] fix: warp_into: ignore surplus entries of the output
 container

---
 src/geometric_transformations.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometric_transformations.rs b/src/geometric_transformations.rs
index fea6aad..f644a01 100644
--- a/src/geometric_transformations.rs
+++ b/src/geometric_transformations.rs
@@ -650,12 +650,14 @@ where
     Fc: Fn(f32, f32) -> (f32, f32) + Send + Sync,
     Fi: Fn(f32, f32) -> P + Send + Sync,
 {
-    let width = out.width();
+    let (width, height) = out.dimensions();
     let raw_out = out.as_mut();
     let pitch = P::CHANNEL_COUNT as usize * width as usize;
     if pitch == 0 {
         return;
     }
+    // the container of the image may be longer than the image
+    let raw_out = &mut raw_out[..pitch * height as usize];
 
     #[cfg(feature = "rayon")]
     let chunks = raw_out.par_chunks_mut(pitch);
-- 
2.43.0


From 740b109c0b5ee602ce055e0eba20d8f1b156d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 56/68] fix: match_template: ignore surplus entries of the
 template container

---
 src/template_matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/template_matching.rs b/src/template_matching.rs
index e5125ab..664fb09 100644
--- a/src/template_matching.rs
+++ b/src/template_matching.rs
@@ -392,12 +392,12 @@ mod methods {
     }
 
     fn square_sum(input: &GrayImage) -> f32 {
-        input.iter().map(|&x| (x as f32 * x as f32)).sum()
+        input.pixels().map(|x| (x[0] as f32 * x[0] as f32)).sum()
     }
     fn mult_square_sum(a: &GrayImage, b: &GrayImage) -> f32 {
-        a.iter()
-            .zip(b.iter())
-            .map(|(&x, &y)| (x as f32 * y as f32).powi(2))
+        a.pixels()
+            .zip(b.pixels())
+            .map(|(x, y)| (x[0] as f32 * y[0] as f32).powi(2))
             .sum()
     }
 }
-- 
2.43.0


From 1e2ae706414ce0adfe583b31869dc514a603873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 57/68] fix: otsu_level no longer overflows on images with more
 than 2^24 pixels

---
 src/contrast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index 73b7473..217e177 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -58,7 +58,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
     let total_pixel_sum = hist.channels[0]
         .iter()
         .enumerate()
-        .fold(0f64, |sum, (t, h)| sum + (t as u32 * h) as f64);
+        .fold(0f64, |sum, (t, h)| sum + t as f64 * *h as f64);
 
     // Sum of all pixel intensities in the background class.
     let mut background_pixel_sum = 0f64;
@@ -83,7 +83,7 @@ pub fn otsu_level(image: &GrayImage) -> u8 {
             break;
         };
 
-        background_pixel_sum += (threshold as u32 * hist_count) as f64;
+        background_pixel_sum += threshold as f64 * *hist_count as f64;
         let foreground_pixel_sum = total_pixel_sum - background_pixel_sum;
 
         let background_mean = background_pixel_sum / (background_weight as f64);
-- 
2.43.0


From e7e6815b9132a9969159ae9969ef340e45acde97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 58/68] fix: adaptive_threshold no longer overflows on large
 bright images

---
 src/contrast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/contrast.rs b/src/contrast.rs
index 217e177..cc2539f 100644
--- a/src/contrast.rs
+++ b/src/contrast.rs
@@ -18,7 +18,8 @@ use crate::stats::{cumulative_histogram, histogram};
 /// as the threshold then it will have a value of 255 in the output image, otherwise 0.
 pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> GrayImage {
     assert!(block_radius > 0);
-    let integral = integral_image::<_, u32>(image);
+    // u64, as the sum of the intensities of a large image does not fit in a u32
+    let integral = integral_image::<_, u64>(image);
     let mut out = GrayImage::from_pixel(image.width(), image.height(), Luma::black());
 
     for y in 0..image.height() {
@@ -36,7 +37,7 @@ pub fn adaptive_threshold(image: &GrayImage, block_radius: u32, delta: i32) -> G
 
             // Number of pixels in the block, adjusted for edge cases.
             let w = (y_high - y_low + 1) * (x_high - x_low + 1);
-            let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w;
+            let mean = sum_image_pixels(&integral, x_low, y_low, x_high, y_high)[0] / w as u64;
 
             if current_pixel[0] as i64 >= mean as i64 - delta as i64 {
                 out.put_pixel(x, y, Luma::white());
-- 
2.43.0


From b5328ec06faf8db9ef8ecdcb235c3aa8dc787428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 59/68] fix: brief no longer overflows on large bright images

---
 src/binary_descriptors/brief.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/binary_descriptors/brief.rs b/src/binary_descriptors/brief.rs
index 3712b95..fe2c66a 100644
--- a/src/binary_descriptors/brief.rs
+++ b/src/binary_descriptors/brief.rs
@@ -2,7 +2,7 @@
 //! described in [Calonder, et. al. (2010)].
 ///
 /// [Calonder, et. al. (2010)]: https://www.cs.ubc.ca/~lowe/525/papers/calonder_eccv10.pdf
-use image::{GenericImageView, GrayImage, Luma};
+use image::{GenericImageView, GrayImage, Luma, Primitive};
 use rand_distr::{Distribution, Normal};
 
 use crate::{corners::Corner, definitions::Image, integral_image::integral_image, point::Point};
@@ -67,7 +67,10 @@ pub struct TestPair {
     pub p1: Point<u32>,
 }
 
-fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius: u32) -> u8 {
+fn local_pixel_average<T>(integral_image: &Image<Luma<T>>, x: u32, y: u32, radius: u32) -> u8
+where
+    T: Primitive + Into<u64>,
+{
     if radius == 0 {
         return 0;
     }
@@ -98,18 +101,18 @@ fn local_pixel_average(integral_image: &Image<Luma<u32>>, x: u32, y: u32, radius
     // function.
     let (bottom_right, top_left, top_right, bottom_left) = unsafe {
         (
-            integral_image.unsafe_get_pixel(x_max, y_max)[0],
-            integral_image.unsafe_get_pixel(x_min, y_min)[0],
-            integral_image.unsafe_get_pixel(x_max, y_min)[0],
-            integral_image.unsafe_get_pixel(x_min, y_max)[0],
+            integral_image.unsafe_get_pixel(x_max, y_max)[0].into(),
+            integral_image.unsafe_get_pixel(x_min, y_min)[0].into(),
+            integral_image.unsafe_get_pixel(x_max, y_min)[0].into(),
+            integral_image.unsafe_get_pixel(x_min, y_max)[0].into(),
         )
     };
-    let total_intensity = bottom_right + top_left - top_right - bottom_left;
-    (total_intensity / pixel_area) as u8
+    let total_intensity: u64 = bottom_right + top_left - top_right - bottom_left;
+    (total_intensity / pixel_area as u64) as u8
 }
 
 pub(crate) fn brief_impl(
-    integral_image: &Image<Luma<u32>>,
+    integral_image: &Image<Luma<u64>>,
     keypoints: &[Point<u32>],
     test_pairs: &[TestPair],
     length: usize,
-- 
2.43.0


From 5e7c45a952c5f36f2628b2a221d846efd7443e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 60/68] fix: convex_hull panicked for coordinates outside the
 range of i32

---
 src/geometry.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index a319fbd..205994c 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -215,7 +215,7 @@ where
     // Repetitions of the start point have no direction from it to sort by
     points.retain(|p| *p != start_point);
     points.sort_by(
-        |a, b| match orientation(start_point.to_i32(), a.to_i32(), b.to_i32()) {
+        |a, b| match orientation(start_point, *a, *b) {
             Orientation::Collinear => {
                 distance(start_point, *a).total_cmp(&distance(start_point, *b))
             }
@@ -228,11 +228,7 @@ where
     let mut remaining_points = Vec::with_capacity(points.len());
     while let Some(mut p) = iter.next() {
         while iter.peek().is_some()
-            && orientation(
-                start_point.to_i32(),
-                p.to_i32(),
-                iter.peek().unwrap().to_i32(),
-            ) == Orientation::Collinear
+            && orientation(start_point, *p, **iter.peek().unwrap()) == Orientation::Collinear
         {
             p = iter.next().unwrap();
         }
@@ -247,9 +243,9 @@ where
     for p in points {
         while stack.len() > 1
             && orientation(
-                stack[stack.len() - 2].to_i32(),
-                stack[stack.len() - 1].to_i32(),
-                p.to_i32(),
+                stack[stack.len() - 2],
+                stack[stack.len() - 1],
+                p,
             ) != Orientation::CounterClockwise
         {
             stack.pop();
@@ -267,8 +263,11 @@ enum Orientation {
 }
 
 /// Determines whether p -> q -> r is a left turn, a right turn, or the points are collinear.
-fn orientation(p: Point<i32>, q: Point<i32>, r: Point<i32>) -> Orientation {
-    let diff = |a: i32, b: i32| a as i128 - b as i128;
+fn orientation<T>(p: Point<T>, q: Point<T>, r: Point<T>) -> Orientation
+where
+    T: NumCast + Copy,
+{
+    let diff = |a: T, b: T| a.to_i128().unwrap() - b.to_i128().unwrap();
     let val = diff(q.y, p.y) * diff(r.x, q.x) - diff(q.x, p.x) * diff(r.y, q.y);
     match val.cmp(&0) {
         Ordering::Equal => Orientation::Collinear,
-- 
2.43.0


From 5b400552ec520141efc79a6b5ac40540a00cb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 61/68] fix: root_mean_squared_error overflowed for 2^32 or
 more samples

---
 src/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.rs b/src/stats.rs
index 8524fc4..6410a3f 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -215,7 +215,7 @@ where
             sum_squared_diffs += diff * diff;
         }
     }
-    let count = (left.width() * left.height() * P::CHANNEL_COUNT as u32) as f64;
+    let count = left.width() as f64 * left.height() as f64 * P::CHANNEL_COUNT as f64;
     sum_squared_diffs / count
 }
 
-- 
2.43.0


From ab2fbc55631aff4ecbf0e785623bbfce1625995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 62/68] fix: bilateral_filter overflowed for radii above 90

---
 src/filter/bilateral.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 1cbd4a5..8e09608 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -129,7 +129,7 @@ where
         // Safety: `Image::from_fn` yields `col` in [0, width) and `row` in [0, height).
         let center_pixel = unsafe { image.unsafe_get_pixel(x, y) };
 
-        let window_len = 2 * radius + 1;
+        let window_len = 2 * radius as usize + 1;
         let weights_and_values = window_range
             .clone()
             .cartesian_product(window_range.clone())
@@ -148,7 +148,7 @@ where
                 let window_pixel = unsafe { image.unsafe_get_pixel(window_x, window_y) };
 
                 let spatial_distance = spatial_distance_lookup
-                    [(window_len * (w_y + radius) + (w_x + radius)) as usize];
+                    [window_len * (w_y + radius) as usize + (w_x + radius) as usize];
                 let color_distance = color_distance.color_distance(&center_pixel, &window_pixel);
                 let weight = spatial_distance * color_distance;
 
-- 
2.43.0


From 1ebaeec84a9e25940ca9e2ba2e7744fa1edda757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 63/68] fix: median_filter counts windows of 2^31 and more
 pixels without overflow

---
 src/filter/median.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2ebe249..f131f7c 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -148,7 +148,7 @@ where
 {
     let (width, height) = image.dimensions();
 
-    let kernel_size = (2 * x_radius + 1) * (2 * y_radius + 1);
+    let kernel_size = (2 * x_radius as u64 + 1) * (2 * y_radius as u64 + 1);
     let num_channels = P::CHANNEL_COUNT;
 
     let mut hist = HistSet::new(num_channels, kernel_size);
@@ -314,17 +314,17 @@ fn slide_up_column<P>(
 // Used to implement median_filter.
 struct HistSet {
     // One histogram per image channel.
-    data: Vec<[u32; 256]>,
+    data: Vec<[u64; 256]>,
     // Calls to `median` will only return the correct answer
     // if there are `expected_count` entries in the relevant
     // histogram in `data`.
-    expected_count: u32,
+    expected_count: u64,
 }
 
 impl HistSet {
-    fn new(num_channels: u8, expected_count: u32) -> HistSet {
+    fn new(num_channels: u8, expected_count: u64) -> HistSet {
         HistSet {
-            data: vec![[0u32; 256]; num_channels.into()],
+            data: vec![[0u64; 256]; num_channels.into()],
             expected_count,
         }
     }
-- 
2.43.0


From 42deb21f718bf06712137fdd7aec77c0d8e25453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 64/68] fix: describe_pixel_diffs panicked for an empty list

---
 src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index efd116b..fdcd4f2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -509,7 +509,9 @@ where
 
     // If all the diffs are contained in a small region of the image then render all of this
     // region, with a small margin.
-    if max(bottom_right.0 - top_left.0, bottom_right.1 - top_left.1) < 6 {
+    if !diffs.is_empty()
+        && max(bottom_right.0 - top_left.0, bottom_right.1 - top_left.1) < 6
+    {
         let left = max(0, top_left.0 as i32 - 2) as u32;
         let top = max(0, top_left.1 as i32 - 2) as u32;
         let right = min(actual.width() as i32 - 1, bottom_right.0 as i32 + 2) as u32;
-- 
2.43.0


From 1d0b73654384dbe6ea2cc856ea497bb022974c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 65/68] fix: number_of_haar_features overflowed for long sides
 whose count fits in a u32

---
 src/haar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/haar.rs b/src/haar.rs
index 89f3707..3eaaa11 100644
--- a/src/haar.rs
+++ b/src/haar.rs
@@ -371,10 +371,11 @@ pub fn number_of_haar_features(width: u32, height: u32) -> u32 {
         // Four-region
         + num_features(width, 2) * num_features(height, 2);
 
-    num_positive_features * 2
+    u32::try_from(num_positive_features * 2).expect("number of features does not fit in a u32")
 }
 
-fn num_features(image_side: u32, num_blocks: u32) -> u32 {
+fn num_features(image_side: u32, num_blocks: u32) -> u64 {
+    let (image_side, num_blocks) = (u64::from(image_side), u64::from(num_blocks));
     let m = image_side / num_blocks;
     m * (image_side + 1) - num_blocks * ((m * (m + 1)) / 2)
 }
-- 
2.43.0


From 2c93ca36c704740e08f62421071100ddb8baa2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 66/68] fix: polar lines through an image corner were dropped
 when rounding put both intersections there outside the image

---
 src/hough.rs | 61 +++++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 36 deletions(-)

diff --git a/src/hough.rs b/src/hough.rs
index a641758..4bb67bc 100644
--- a/src/hough.rs
+++ b/src/hough.rs
@@ -163,45 +163,34 @@ pub fn intersection_points(
     let bottom_x = sin.mul_add(-h, r) / cos;
     let top_x = r / cos;
 
-    let mut start: Option<(f32, f32)> = None;
-    // A line through a corner of the image meets two of its edges in the same place.
-    let mut coincident = None;
-    let is_distinct =
-        |p: (f32, f32), q: (f32, f32)| (p.0 - q.0).abs() + (p.1 - q.1).abs() > 1.0e-3;
-
-    if right_y >= 0.0 && right_y <= h {
-        let right_intersect = (w, right_y);
-        start = Some(right_intersect);
-    }
-
-    if left_y >= 0.0 && left_y <= h {
-        let left_intersect = (0.0, left_y);
-        match start {
-            Some(s) if is_distinct(s, left_intersect) => return Some((s, left_intersect)),
-            Some(s) => coincident = Some((s, left_intersect)),
-            None => start = Some(left_intersect),
-        }
-    }
-
-    if bottom_x >= 0.0 && bottom_x <= w {
-        let bottom_intersect = (bottom_x, h);
-        match start {
-            Some(s) if is_distinct(s, bottom_intersect) => return Some((s, bottom_intersect)),
-            Some(s) => coincident = Some((s, bottom_intersect)),
-            None => start = Some(bottom_intersect),
-        }
-    }
-
-    if top_x >= 0.0 && top_x <= w {
-        let top_intersect = (top_x, 0.0);
-        match start {
-            Some(s) if is_distinct(s, top_intersect) => return Some((s, top_intersect)),
-            Some(s) => coincident = Some((s, top_intersect)),
-            None => (),
+    // A line through a corner of the image meets two of its edges there, and rounding can
+    // place both of these intersections just outside the image.
+    let tolerance = 1.0e-5_f32.max(2.0e-7 * (w + h));
+    let within = |v: f32, max: f32| {
+        (v >= -tolerance && v <= max + tolerance).then(|| v.max(0.0).min(max))
+    };
+    let intersections = [
+        within(right_y, h).map(|y| (w, y)),
+        within(left_y, h).map(|y| (0.0, y)),
+        within(bottom_x, w).map(|x| (x, h)),
+        within(top_x, w).map(|x| (x, 0.0)),
+    ];
+    let intersections: Vec<(f32, f32)> = intersections.into_iter().flatten().collect();
+
+    // The visible part of the line lies between the two most distant intersections.
+    let mut ends = None;
+    let mut max_distance = -1.0;
+    for (i, &p) in intersections.iter().enumerate() {
+        for &q in &intersections[i + 1..] {
+            let distance = (p.0 - q.0).hypot(p.1 - q.1);
+            if distance > max_distance {
+                max_distance = distance;
+                ends = Some((p, q));
+            }
         }
     }
 
-    coincident
+    ends
 }
 
 #[cfg(test)]
-- 
2.43.0


From 004c0c67b6f3aba17e55d335ef45666975100530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 67/68] fix: Kernel::new multiplied its dimensions in 32 bits

---
 src/kernel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel.rs b/src/kernel.rs
index 70a2c38..1ced867 100644
--- a/src/kernel.rs
+++ b/src/kernel.rs
@@ -20,10 +20,10 @@ where
     ///
     /// # Panics
     /// 1. If `width == 0 || height == 0`.
-    /// 2. If `width * height != data.len() as u32`.
+    /// 2. If `width * height != data.len()`.
     pub const fn new(data: &'a [K], width: u32, height: u32) -> Kernel<'a, K> {
         assert!(width > 0 && height > 0, "width and height must be non-zero");
-        assert!(width * height == data.len() as u32);
+        assert!(width as u64 * height as u64 == data.len() as u64);
         Kernel {
             data,
             width,
-- 
2.43.0


From 6aa36a9e1d31ef35f4940432deaec70b5b901633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:19 +0000
Subject: [PATCH 68/68] fix: approximate_polygon_dp overflowed the stack on
 long curves

---
 src/geometry.rs | 56 +++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 205994c..7a6dbff 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -44,37 +44,39 @@ where
         return res;
     }
 
-    // Find the point with the maximum distance
-    let mut dmax = 0.0;
-    let mut index = 0;
-    let end = curve.len() - 1;
-    let (p, q) = (curve[0].to_f64(), curve[end].to_f64());
-    let line = Line::from_points(p, q);
-    for (i, point) in curve.iter().enumerate().take(end).skip(1) {
-        let d = if p == q {
-            distance(p, point.to_f64())
+    // The sections of the curve still to be simplified, the next one last. This is not done
+    // recursively as there can be as many nested sections as there are points.
+    let mut sections = vec![(0, curve.len() - 1)];
+    let mut res = vec![curve[0]];
+
+    while let Some((start, end)) = sections.pop() {
+        // Find the point with the maximum distance
+        let mut dmax = 0.0;
+        let mut index = 0;
+        let (p, q) = (curve[start].to_f64(), curve[end].to_f64());
+        let line = Line::from_points(p, q);
+        for (i, point) in curve.iter().enumerate().take(end).skip(start + 1) {
+            let d = if p == q {
+                distance(p, point.to_f64())
+            } else {
+                line.distance_from_point(point.to_f64())
+            };
+            if d > dmax {
+                index = i;
+                dmax = d;
+            }
+        }
+
+        // If max distance is greater than epsilon, simplify both parts
+        if dmax > epsilon {
+            sections.push((index, end));
+            sections.push((start, index));
         } else {
-            line.distance_from_point(point.to_f64())
-        };
-        if d > dmax {
-            index = i;
-            dmax = d;
+            res.push(curve[end]);
         }
     }
 
-    // If max distance is greater than epsilon, recursively simplify
-    if dmax > epsilon {
-        // Recursive call
-        let mut partial1 = approximate_polygon_dp(&curve[0..=index], epsilon, false);
-        let partial2 = approximate_polygon_dp(&curve[index..=end], epsilon, false);
-
-        // Build the result list
-        partial1.pop();
-        partial1.extend(partial2);
-        partial1
-    } else {
-        vec![curve[0], curve[end]]
-    }
+    res
 }
 
 /// Calculates the area of the contour using the [shoelace formula].
-- 
2.43.0

