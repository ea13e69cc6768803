From 363d3947a07fb87c8c90cdef8e227730c87e86d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:01 +0000
Subject: [PATCH 01/10] fix: temperature cache covers hue 360 so hues rounding
 up to 360 do not index out of bounds

---
 src/temperature/temperature_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..9b09ef5 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,7 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0


From 65de619f169e75d3b79ee9146416493f6213c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:01 +0000
Subject: [PATCH 02/10] fix: TonalPalette::get_hct does not answer fractional
 tones from the integer tone cache

---
 src/palettes/tonal_palette.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..603e31b 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,13 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // The cache is keyed by integral tones; a fractional tone is never in it.
+        let int_tone = tone as i64;
+        let maybe_hct_int = if int_tone as f64 == tone {
+            self._cache.get(&int_tone)
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From fc06bde574d026e0474ed111ecb09bb802cb119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:01 +0000
Subject: [PATCH 03/10] fix: sanitize_degrees_double stays below 360 for tiny
 negative angles

---
 src/utils/math_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/math_utils.rs b/src/utils/math_utils.rs
index c302bcc..56875e0 100644
--- a/src/utils/math_utils.rs
+++ b/src/utils/math_utils.rs
@@ -70,6 +70,10 @@ impl MathUtils {
         if degrees < 0.0 {
             degrees = degrees + 360.0;
         }
+        // A tiny negative remainder plus 360 rounds to 360 itself.
+        if degrees >= 360.0 {
+            degrees = 0.0;
+        }
         return degrees;
     }
 
-- 
2.43.0


From 006521a29608448e8b4d59a286344108efc7ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:01 +0000
Subject: [PATCH 04/10] fix: QuantizerCelebi passes its starting clusters in a
 fixed order, so equal input gives equal output

---
 src/quantize/quantizer_celebi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..8e85410 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,14 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // HashMap order differs from run to run; k-means depends on the order of
+        // its starting clusters.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From 8082d04e81f1ed4bb25fd209f0b3af8906084890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:26 +0000
Subject: [PATCH 05/10] fix: CAM16 hue stays in 0..360 when atan2 is a tiny
 negative angle

---
 src/hct/cam16.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/hct/cam16.rs b/src/hct/cam16.rs
index 6a48248..603ef9d 100644
--- a/src/hct/cam16.rs
+++ b/src/hct/cam16.rs
@@ -162,15 +162,7 @@ impl Cam16 {
         // hue
         let atan2 = (b).atan2(a);
         let atan_degrees = atan2 * 180.0 / std::f64::consts::PI;
-        let hue: f64 = {
-            if atan_degrees < 0.0 {
-                atan_degrees + 360.0
-            } else if atan_degrees >= 360.0 {
-                atan_degrees - 360.0
-            } else {
-                atan_degrees
-            }
-        };
+        let hue: f64 = MathUtils::sanitize_degrees_double(atan_degrees);
 
         let hue_radians = hue * std::f64::consts::PI / 180.0;
         assert!(hue >= 0.0 && hue < 360.0, "hue was really $hue");
@@ -265,10 +257,7 @@ impl Cam16 {
         let m = (a * a + b * b).sqrt();
         let m = ((m * 0.0228).exp() - 1.0) / 0.0228;
         let c = m / viewing_conditions.f_lroot;
-        let mut h = (b.atan2(a)) * (180.0 / std::f64::consts::PI);
-        if h < 0.0 {
-            h += 360.0;
-        }
+        let h = MathUtils::sanitize_degrees_double((b.atan2(a)) * (180.0 / std::f64::consts::PI));
         let j = jstar / (1.0 - (jstar - 100.0) * 0.007);
 
         return Self::from_jch_in_viewing_conditions(j, c, h, viewing_conditions);
-- 
2.43.0


From de9424a632785d68b5c5382dbd9a62c89f9840d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:26 +0000
Subject: [PATCH 06/10] fix: Wu quantizer no longer overflows on images of
 several million pixels

---
 src/quantize/quantizer_wu.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 4391115..d4190a9 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -217,9 +217,16 @@ impl QuantizerWu {
             + self.moments[Self::get_index(cube.r0, cube.g0, cube.b1) as usize]
             - self.moments[Self::get_index(cube.r0, cube.g0, cube.b0) as usize];
 
-        let hypotenuse = dr * dr + dg * dg + db * db;
+        let hypotenuse = Self::squared_norm(dr, dg, db);
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - (hypotenuse / volume_) as f64;
+        return xx - hypotenuse / volume_ as f64;
+    }
+
+    /// r^2 + g^2 + b^2. The squares are taken in 128 bits: the moments of an image
+    /// of a few million pixels have squares beyond 64 bits.
+    fn squared_norm(r: i64, g: i64, b: i64) -> f64 {
+        let (r, g, b) = (r as i128, g as i128, b as i128);
+        return (r * r + g * g + b * b) as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
@@ -341,8 +348,7 @@ impl QuantizerWu {
                 continue;
             }
 
-            let mut temp_numerator: f64 =
-                ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            let mut temp_numerator: f64 = Self::squared_norm(half_r, half_g, half_b);
             let mut temp_denominator: f64 = half_w as f64;
             let mut temp: f64 = temp_numerator / temp_denominator;
 
@@ -353,7 +359,7 @@ impl QuantizerWu {
             if half_w == 0 {
                 continue;
             }
-            temp_numerator = ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            temp_numerator = Self::squared_norm(half_r, half_g, half_b);
             temp_denominator = half_w as f64;
             temp += temp_numerator / temp_denominator;
 
-- 
2.43.0


From 4a88e9e526a65cfe3e883845fc5a14327a4296fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:26 +0000
Subject: [PATCH 07/10] fix: Wu quantizer rounds the mean of a box instead of
 truncating it

---
 src/quantize/quantizer_wu.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index d4190a9..11a6f1f 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -191,11 +191,14 @@ impl QuantizerWu {
             let cube = &self.cubes[i as usize];
             let weight: i64 = Self::volume(cube.clone(), self.weights.clone());
             if weight > 0 {
-                let r: i64 = ((Self::volume(cube.clone(), self.moments_r.clone()) / weight) as f64)
+                let r: i64 = (Self::volume(cube.clone(), self.moments_r.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let g: i64 = ((Self::volume(cube.clone(), self.moments_g.clone()) / weight) as f64)
+                let g: i64 = (Self::volume(cube.clone(), self.moments_g.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let b: i64 = ((Self::volume(cube.clone(), self.moments_b.clone()) / weight) as f64)
+                let b: i64 = (Self::volume(cube.clone(), self.moments_b.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
                 let color: i64 = ColorUtils::argb_from_rgb(r, g, b);
                 colors.push(color);
-- 
2.43.0


From 9257ac21a60dd7c4669cec314a692505c2a986b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:26 +0000
Subject: [PATCH 08/10] fix: Score ranks colors of equal score in a fixed order

---
 src/score/score.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/score/score.rs b/src/score/score.rs
index d0343d9..f687b07 100644
--- a/src/score/score.rs
+++ b/src/score/score.rs
@@ -89,7 +89,10 @@ impl Score {
         let mut colors_hct: Vec<Hct> = Vec::new();
         let mut hue_population = [0; 360]; //List<int>.filled(360, 0);
         let mut population_sum = 0;
-        for (key, value) in colors_to_population {
+        // In a fixed order, so that equal scores do not rank by HashMap order.
+        let mut entries: Vec<(&i64, &i64)> = colors_to_population.iter().collect();
+        entries.sort();
+        for (key, value) in entries {
             let argb = key;
             let population = value;
             let hct = Hct::from_int(*argb);
-- 
2.43.0


From e78b5696a8cf5138fbf7fee5c929bb6bcaedc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:26 +0000
Subject: [PATCH 09/10] fix: palettes and schemes that differ in the sign of a
 zero hash equal, as they compare equal

---
 src/dynamiccolor/dynamic_scheme.rs | 2 +-
 src/palettes/tonal_palette.rs      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..027768c 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -76,7 +76,7 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
         self.primary_palette.hash(state);
         self.secondary_palette.hash(state);
         self.tertiary_palette.hash(state);
diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 603e31b..d9c11bb 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -228,8 +228,9 @@ impl PartialEq for TonalPalette {
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
         if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
+            // Adding 0.0 turns -0.0 into 0.0, which compares equal to it.
+            (self.hue + 0.0).to_ne_bytes().hash(state);
+            (self.chroma + 0.0).to_ne_bytes().hash(state);
         } else {
             let list = self.clone().get_as_list();
             hash_vec_i64(&list, state);
-- 
2.43.0


From d8a4a173422a3a9ce0a5f87628265bafc06ade17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:56 +0000
Subject: [PATCH 10/10] fix: Wu quantizer loses a box for every failed cut

A failed cut is retried with another box into the same slot, as upstream does.
Decrementing the variable of a for loop over a range has no effect on the next
iteration, so each failed cut left an empty box behind and the result had fewer
colours than asked for although further boxes could be cut.
---
 src/quantize/quantizer_wu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 11a6f1f..f3e6ed4 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -149,7 +149,8 @@ impl QuantizerWu {
         let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
         let mut next: i64 = 0;
         let mut generated_color_count: i64 = max_color_count;
-        for mut i in 1..max_color_count {
+        let mut i: i64 = 1;
+        while i < max_color_count {
             let one = next as usize;
             let two = i as usize;
             if self.cut(one, two) {
@@ -180,6 +181,7 @@ impl QuantizerWu {
                 generated_color_count = i + 1;
                 break;
             }
+            i += 1;
         }
 
         return CreateBoxesResult::new(max_color_count, generated_color_count);
-- 
2.43.0

