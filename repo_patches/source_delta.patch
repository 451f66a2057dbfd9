From 57834de98b04b73d2ab8d727303ffdb72df45da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:30 +0000
Subject: [PATCH 01/14] fix: TemperatureCache lookups of hues that round to 360
 panicked

hcts_by_hue is indexed with rounded hues, so it needs an entry for 360.
---
 src/temperature/temperature_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 152a039..83bf886 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -284,7 +284,8 @@ impl TemperatureCache {
             return self._hcts_by_hue.clone();
         }
         let mut hcts: Vec<Hct> = Vec::new();
-        for hue in 0..360 {
+        // Inclusive: hues are looked up after rounding, and 359.5 and up round to 360.
+        for hue in 0..=360 {
             let hue = hue as f64;
             let color_at_hue = Hct::from(hue, self.input.get_chroma(), self.input.get_tone());
             hcts.push(color_at_hue);
-- 
2.43.0


From 648551a0405eb8ea22221ecd59d67e89c511cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:30 +0000
Subject: [PATCH 02/14] fix: TonalPalette::get_hct answered fractional tones
 from the integer tone cache

---
 src/palettes/tonal_palette.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 714d773..29fe976 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -181,7 +181,13 @@ impl TonalPalette {
     /// If the palette is constructed from a hue and chroma (i.e. using [of] or
     /// [fromHct]), the result is generated from the given [hue] and [chroma].
     pub fn get_hct(&self, tone: f64) -> Hct {
-        let maybe_hct_int = self._cache.get(&(tone as i64));
+        // The cache only holds integer tones; a fractional tone must not be
+        // answered with the colour of the tone below it.
+        let maybe_hct_int = if tone.fract() == 0.0 {
+            self._cache.get(&(tone as i64))
+        } else {
+            None
+        };
 
         match maybe_hct_int {
             Some(hct_int) => Hct::from_int(*hct_int),
-- 
2.43.0


From 8222d6ad45622f1f81d4cd90614b9e5cdc93f1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:30 +0000
Subject: [PATCH 03/14] fix: QuantizerCelebi gave different results for the
 same image

---
 src/quantize/quantizer_celebi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_celebi.rs b/src/quantize/quantizer_celebi.rs
index f69a973..160769f 100644
--- a/src/quantize/quantizer_celebi.rs
+++ b/src/quantize/quantizer_celebi.rs
@@ -17,10 +17,14 @@ impl Quantizer for QuantizerCelebi {
             return_input_pixel_to_cluster_pixel.unwrap_or(false);
         let mut wu = QuantizerWu::new();
         let wu_result = wu.quantize(pixels, max_colors, None);
+        // HashMap order changes from call to call, and k-means depends on the order
+        // of its starting clusters.
+        let mut starting_clusters: Vec<i64> = wu_result.color_to_count.keys().cloned().collect();
+        starting_clusters.sort();
         let wsmeans_result = QuantizerWsmeans::quantize(
             pixels,
             max_colors,
-            Some(&wu_result.color_to_count.keys().cloned().collect()),
+            Some(&starting_clusters),
             Some(&PointProviderLab::new()),
             None,
             Some(return_input_pixel_to_cluster_pixel),
-- 
2.43.0


From 4aee0d568835cd321568041d0a3396736ba777c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:30 +0000
Subject: [PATCH 04/14] fix: QuantizerWu lost a colour slot for every box that
 could not be cut

Decrementing the loop variable of a `for` loop has no effect on the next
iteration, so the slot was skipped instead of being used for another box.
---
 src/quantize/quantizer_wu.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index 4391115..b1873f1 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -149,7 +149,8 @@ impl QuantizerWu {
         let mut volume_variance: Vec<f64> = vec![0.0; max_color_count as usize];
         let mut next: i64 = 0;
         let mut generated_color_count: i64 = max_color_count;
-        for mut i in 1..max_color_count {
+        let mut i: i64 = 1;
+        while i < max_color_count {
             let one = next as usize;
             let two = i as usize;
             if self.cut(one, two) {
@@ -180,6 +181,7 @@ impl QuantizerWu {
                 generated_color_count = i + 1;
                 break;
             }
+            i += 1;
         }
 
         return CreateBoxesResult::new(max_color_count, generated_color_count);
-- 
2.43.0


From 6378daa0fd8cd1dad52e1acbd7fbe5e3b2013613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:30 +0000
Subject: [PATCH 05/14] fix: QuantizerWu truncated box averages instead of
 rounding them

---
 src/quantize/quantizer_wu.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index b1873f1..cf23e02 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -193,11 +193,14 @@ impl QuantizerWu {
             let cube = &self.cubes[i as usize];
             let weight: i64 = Self::volume(cube.clone(), self.weights.clone());
             if weight > 0 {
-                let r: i64 = ((Self::volume(cube.clone(), self.moments_r.clone()) / weight) as f64)
+                let r: i64 = (Self::volume(cube.clone(), self.moments_r.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let g: i64 = ((Self::volume(cube.clone(), self.moments_g.clone()) / weight) as f64)
+                let g: i64 = (Self::volume(cube.clone(), self.moments_g.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
-                let b: i64 = ((Self::volume(cube.clone(), self.moments_b.clone()) / weight) as f64)
+                let b: i64 = (Self::volume(cube.clone(), self.moments_b.clone()) as f64
+                    / weight as f64)
                     .round() as i64;
                 let color: i64 = ColorUtils::argb_from_rgb(r, g, b);
                 colors.push(color);
-- 
2.43.0


From b3a5a5388ef4fee00b11eb39728ed543777d4f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:30 +0000
Subject: [PATCH 06/14] fix: QuantizerWu overflowed on images of several
 million pixels

---
 src/quantize/quantizer_wu.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/quantize/quantizer_wu.rs b/src/quantize/quantizer_wu.rs
index cf23e02..491733f 100644
--- a/src/quantize/quantizer_wu.rs
+++ b/src/quantize/quantizer_wu.rs
@@ -210,9 +210,9 @@ impl QuantizerWu {
     }
 
     pub fn variance(&self, cube: Box) -> f64 {
-        let dr = Self::volume(cube.clone(), self.moments_r.clone());
-        let dg = Self::volume(cube.clone(), self.moments_g.clone());
-        let db = Self::volume(cube.clone(), self.moments_b.clone());
+        let dr = Self::volume(cube.clone(), self.moments_r.clone()) as i128;
+        let dg = Self::volume(cube.clone(), self.moments_g.clone()) as i128;
+        let db = Self::volume(cube.clone(), self.moments_b.clone()) as i128;
         let xx = self.moments[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]
             - self.moments[Self::get_index(cube.r1, cube.g1, cube.b0) as usize]
             - self.moments[Self::get_index(cube.r1, cube.g0, cube.b1) as usize]
@@ -224,7 +224,7 @@ impl QuantizerWu {
 
         let hypotenuse = dr * dr + dg * dg + db * db;
         let volume_ = Self::volume(cube, self.weights.clone());
-        return xx - (hypotenuse / volume_) as f64;
+        return xx - hypotenuse as f64 / volume_ as f64;
     }
 
     pub fn cut(&mut self, one_index: usize, two_index: usize) -> bool {
@@ -346,8 +346,7 @@ impl QuantizerWu {
                 continue;
             }
 
-            let mut temp_numerator: f64 =
-                ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            let mut temp_numerator: f64 = Self::_sum_of_squares(half_r, half_g, half_b);
             let mut temp_denominator: f64 = half_w as f64;
             let mut temp: f64 = temp_numerator / temp_denominator;
 
@@ -358,7 +357,7 @@ impl QuantizerWu {
             if half_w == 0 {
                 continue;
             }
-            temp_numerator = ((half_r * half_r) + (half_g * half_g) + (half_b * half_b)) as f64;
+            temp_numerator = Self::_sum_of_squares(half_r, half_g, half_b);
             temp_denominator = half_w as f64;
             temp += temp_numerator / temp_denominator;
 
@@ -370,6 +369,12 @@ impl QuantizerWu {
         return MaximizeResult::new(cut, max);
     }
 
+    // The squared moments of an image of a few million pixels overflow an i64.
+    fn _sum_of_squares(r: i64, g: i64, b: i64) -> f64 {
+        let (r, g, b) = (r as i128, g as i128, b as i128);
+        return (r * r + g * g + b * b) as f64;
+    }
+
     pub fn volume(cube: Box, moment: Vec<i64>) -> i64 {
         return moment[Self::get_index(cube.r1, cube.g1, cube.b1) as usize]
             - moment[Self::get_index(cube.r1, cube.g1, cube.b0) as usize]
-- 
2.43.0


From aa47439b494d126ab604b24de021fdb1b82df341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:23:30 +0000
Subject: [PATCH 07/14] fix: sanitize_degrees_double returned 360 for tiny
 negative angles

---
 src/utils/math_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/math_utils.rs b/src/utils/math_utils.rs
index c302bcc..8042b05 100644
--- a/src/utils/math_utils.rs
+++ b/src/utils/math_utils.rs
@@ -69,6 +69,10 @@ impl MathUtils {
         let mut degrees = degrees % 360.0;
         if degrees < 0.0 {
             degrees = degrees + 360.0;
+            // A tiny negative angle rounds up to a full turn.
+            if degrees >= 360.0 {
+                degrees = 0.0;
+            }
         }
         return degrees;
     }
-- 
2.43.0


From 35014185e24029c255fb65f56f5379ad49badaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:56 +0000
Subject: [PATCH 08/14] fix: Cam16 hue of 360 for colours just below hue 0
 (panic in from_xyz, out of range in from_ucs)

---
 src/hct/cam16.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/hct/cam16.rs b/src/hct/cam16.rs
index 6a48248..431c62f 100644
--- a/src/hct/cam16.rs
+++ b/src/hct/cam16.rs
@@ -162,15 +162,7 @@ impl Cam16 {
         // hue
         let atan2 = (b).atan2(a);
         let atan_degrees = atan2 * 180.0 / std::f64::consts::PI;
-        let hue: f64 = {
-            if atan_degrees < 0.0 {
-                atan_degrees + 360.0
-            } else if atan_degrees >= 360.0 {
-                atan_degrees - 360.0
-            } else {
-                atan_degrees
-            }
-        };
+        let hue = MathUtils::sanitize_degrees_double(atan_degrees);
 
         let hue_radians = hue * std::f64::consts::PI / 180.0;
         assert!(hue >= 0.0 && hue < 360.0, "hue was really $hue");
@@ -265,10 +257,7 @@ impl Cam16 {
         let m = (a * a + b * b).sqrt();
         let m = ((m * 0.0228).exp() - 1.0) / 0.0228;
         let c = m / viewing_conditions.f_lroot;
-        let mut h = (b.atan2(a)) * (180.0 / std::f64::consts::PI);
-        if h < 0.0 {
-            h += 360.0;
-        }
+        let h = MathUtils::sanitize_degrees_double(b.atan2(a) * (180.0 / std::f64::consts::PI));
         let j = jstar / (1.0 - (jstar - 100.0) * 0.007);
 
         return Self::from_jch_in_viewing_conditions(j, c, h, viewing_conditions);
-- 
2.43.0


From f5dedd008f9e2546ca84eb09ef6384c2a1d0d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:05 +0000
Subject: [PATCH 09/14] fix: TonalPalette::to_string described list palettes as
 of() and of() palettes as lists

---
 src/palettes/tonal_palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 29fe976..274af49 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -199,7 +199,7 @@ impl TonalPalette {
 impl ToString for TonalPalette {
     fn to_string(&self) -> String {
         let mut mutable_clone = self.clone();
-        if self._is_from_cache {
+        if !self._is_from_cache {
             return format!(
                 "TonalPalette.of({}, {})",
                 mutable_clone.hue, mutable_clone.chroma
-- 
2.43.0


From ba6e8495ecd4b956cb4c2b868b3c3f10a9751936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:08 +0000
Subject: [PATCH 10/14] fix: argb_from_hex accepted a leading sign and returned
 negative colours

---
 src/utils/string_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/string_utils.rs b/src/utils/string_utils.rs
index 2de1925..c176fe1 100644
--- a/src/utils/string_utils.rs
+++ b/src/utils/string_utils.rs
@@ -25,6 +25,11 @@ impl StringUtils {
     }
 
     pub fn argb_from_hex(hex: String) -> Option<i64> {
-        return i64::from_str_radix(hex.trim_start_matches("#"), 16).ok();
+        let digits = hex.trim_start_matches("#");
+        // from_str_radix would also accept a leading sign.
+        if !digits.bytes().all(|digit| digit.is_ascii_hexdigit()) {
+            return None;
+        }
+        return i64::from_str_radix(digits, 16).ok();
     }
 }
-- 
2.43.0


From e0adbf5babf7f40f607b84c7a672a9e2a281e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:21 +0000
Subject: [PATCH 11/14] fix: equal palettes and schemes hashed differently when
 a value was -0.0

---
 src/dynamiccolor/dynamic_scheme.rs | 3 ++-
 src/palettes/tonal_palette.rs      | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynamiccolor/dynamic_scheme.rs b/src/dynamiccolor/dynamic_scheme.rs
index 621e006..cff49fc 100644
--- a/src/dynamiccolor/dynamic_scheme.rs
+++ b/src/dynamiccolor/dynamic_scheme.rs
@@ -76,7 +76,8 @@ impl Hash for DynamicScheme {
         self.source_color_hct.hash(state);
         self.variant.hash(state);
         self.is_dark.hash(state);
-        self.contrast_level.to_ne_bytes().hash(state);
+        // Adding zero turns -0.0, which equals 0.0, into 0.0.
+        (self.contrast_level + 0.0).to_ne_bytes().hash(state);
         self.primary_palette.hash(state);
         self.secondary_palette.hash(state);
         self.tertiary_palette.hash(state);
diff --git a/src/palettes/tonal_palette.rs b/src/palettes/tonal_palette.rs
index 274af49..21a7f39 100644
--- a/src/palettes/tonal_palette.rs
+++ b/src/palettes/tonal_palette.rs
@@ -228,8 +228,9 @@ impl PartialEq for TonalPalette {
 impl Hash for TonalPalette {
     fn hash<H: Hasher>(&self, state: &mut H) {
         if !self._is_from_cache {
-            self.hue.to_ne_bytes().hash(state);
-            self.chroma.to_ne_bytes().hash(state);
+            // Adding zero turns -0.0, which equals 0.0, into 0.0.
+            (self.hue + 0.0).to_ne_bytes().hash(state);
+            (self.chroma + 0.0).to_ne_bytes().hash(state);
         } else {
             let list = self.clone().get_as_list();
             hash_vec_i64(&list, state);
-- 
2.43.0


From 15a10d812fdb25282a6809e20eb7952d40781747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:59 +0000
Subject: [PATCH 12/14] fix: HctSolver took the wrong end of the gamut boundary
 for hues equal to a corner's up to rounding

---
 src/hct/src/hct_solver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hct/src/hct_solver.rs b/src/hct/src/hct_solver.rs
index f1be8d3..6ba0ea4 100644
--- a/src/hct/src/hct_solver.rs
+++ b/src/hct/src/hct_solver.rs
@@ -301,7 +301,13 @@ impl HctSolver {
     /// [angle] An angle in radians; must not deviate too much from 0.
     /// Returns A coterminal angle between 0 and 2pi.
     fn _sanitize_radians(angle: f64) -> f64 {
-        return (angle + std::f64::consts::PI * 8.0) % (std::f64::consts::PI * 2.0);
+        let full_turn = std::f64::consts::PI * 2.0;
+        let sanitized = (angle + std::f64::consts::PI * 8.0) % full_turn;
+        // Rounding must not turn "equal" into "almost a full turn ahead".
+        if full_turn - sanitized < 1e-12 {
+            return 0.0;
+        }
+        return sanitized;
     }
 
     /// Delinearizes an RGB component, returning a floating-point
-- 
2.43.0


From 4023b77ef3e9b8703be818339d8381314e918383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:34 +0000
Subject: [PATCH 13/14] fix: HctSolver could answer another hue where the
 luminance plane passes through a corner of the cube

---
 src/hct/src/hct_solver.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hct/src/hct_solver.rs b/src/hct/src/hct_solver.rs
index 6ba0ea4..9b687f0 100644
--- a/src/hct/src/hct_solver.rs
+++ b/src/hct/src/hct_solver.rs
@@ -482,6 +482,13 @@ impl HctSolver {
                 initialized = true;
                 continue;
             }
+            // Where the plane passes through a corner of the cube, up to
+            // three of the vertices coincide: the copies cut nothing off.
+            if Self::_sanitize_radians(mid_hue - left_hue) < 1e-12
+                || Self::_sanitize_radians(mid_hue - right_hue) < 1e-12
+            {
+                continue;
+            }
             if uncut || Self::_are_in_cyclic_order(left_hue, mid_hue, right_hue) {
                 uncut = false;
                 if Self::_are_in_cyclic_order(left_hue, target_hue, mid_hue) {
-- 
2.43.0


From 8f4656b93d4937ee18c9fd67e97590094bcbe686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:26 +0000
Subject: [PATCH 14/14] fix: TemperatureCache::relative_temperature panicked
 for a colour that is not on the wheel of the input

---
 src/temperature/temperature_cache.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/temperature/temperature_cache.rs b/src/temperature/temperature_cache.rs
index 83bf886..870264c 100644
--- a/src/temperature/temperature_cache.rs
+++ b/src/temperature/temperature_cache.rs
@@ -204,8 +204,13 @@ impl TemperatureCache {
     pub fn relative_temperature(&mut self, hct: &Hct) -> f64 {
         let range = self.get_temps_by_hct()[&self.get_warmest().clone()]
             - self.get_temps_by_hct()[&self.get_coldest()];
-        let difference_from_coldest =
-            self.get_temps_by_hct()[&hct] - self.get_temps_by_hct()[&self.get_coldest()];
+        // A color that is not on this wheel has no precomputed temperature.
+        let temperature = self
+            .get_temps_by_hct()
+            .get(hct)
+            .copied()
+            .unwrap_or_else(|| Self::raw_temperature(hct));
+        let difference_from_coldest = temperature - self.get_temps_by_hct()[&self.get_coldest()];
         // Handle when there's no difference in temperature between warmest and
         // coldest: for example, at T100, only one color is available, white.
         if range == 0.0 {
-- 
2.43.0

