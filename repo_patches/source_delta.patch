From ca8c332832bbccdcb9efe64596468e83484a7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:03 +0000
Subject: [PATCH 01/18] fix: Key::from_numerical must not panic on text ending
 in a multi-byte character

---
 src/analysis/result.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index a5df132..0f06283 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -111,7 +111,8 @@ impl Key {
     /// assert_eq!(Key::from_numerical("13A"), None); // Invalid
     /// ```
     pub fn from_numerical(notation: &str) -> Option<Self> {
-        if notation.len() < 2 {
+        // The suffix is the last byte; a multi-byte final character cannot be "A" or "B".
+        if notation.len() < 2 || !notation.is_char_boundary(notation.len() - 1) {
             return None;
         }
 
-- 
2.43.0


From 1e7bce765017b45fa10e37a65e59d0e08872f2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:00 +0000
Subject: [PATCH 02/18] fix: detect_and_trim must not divide by zero when
 frame_size is 1

---
 src/preprocessing/silence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index d314764..b31a8df 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -141,7 +141,7 @@ pub fn detect_and_trim(
     let threshold_linear = 10.0_f32.powf(detector.threshold_db / 20.0);
 
     // Step 1: Frame audio and compute RMS per frame
-    let hop_size = detector.frame_size / 2; // 50% overlap for smoother detection
+    let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
     let num_frames = if samples.len() >= detector.frame_size {
         (samples.len() - detector.frame_size) / hop_size + 1
     } else {
-- 
2.43.0


From ba9ef1fe523755d55f2b685479d61c0fc45bd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:32 +0000
Subject: [PATCH 03/18] fix: detect_and_trim must not trim audible samples
 after the last full frame

---
 src/preprocessing/silence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index b31a8df..751a4aa 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -142,8 +142,9 @@ pub fn detect_and_trim(
 
     // Step 1: Frame audio and compute RMS per frame
     let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
+    // Round up so that the samples after the last full frame are measured too (as a shorter frame)
     let num_frames = if samples.len() >= detector.frame_size {
-        (samples.len() - detector.frame_size) / hop_size + 1
+        (samples.len() - detector.frame_size).div_ceil(hop_size) + 1
     } else {
         1 // At least one frame
     };
-- 
2.43.0


From 98431bd72d56e7f2db582c1c6a2c2224809191d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:32 +0000
Subject: [PATCH 04/18] fix: peak normalization reports the gain it actually
 applied

---
 src/preprocessing/normalization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index 5aca65f..c5912f7 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -289,10 +289,10 @@ fn normalize_peak(
     // max_headroom_db is the headroom below 0 dB, so target is 0 dB - headroom
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
     let gain_linear = target_peak_linear / peak;
-    let gain_db = 20.0 * gain_linear.log10();
 
     // Ensure we don't exceed 1.0
     let gain_linear = gain_linear.min(1.0 / peak);
+    let gain_db = 20.0 * gain_linear.log10();
 
     // Apply gain
     for sample in samples.iter_mut() {
-- 
2.43.0


From ee784039fd7a69bd1255ab8945026fd3fa1c7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:25 +0000
Subject: [PATCH 05/18] fix: normalization metadata reports the RMS level
 before normalization in every method, as documented

---
 src/preprocessing/normalization.rs | 36 ++++++++++++------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index c5912f7..ddb91bb 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -294,12 +294,7 @@ fn normalize_peak(
     let gain_linear = gain_linear.min(1.0 / peak);
     let gain_db = 20.0 * gain_linear.log10();
 
-    // Apply gain
-    for sample in samples.iter_mut() {
-        *sample *= gain_linear;
-    }
-
-    // Calculate RMS for metadata
+    // Calculate RMS for metadata (before the gain is applied)
     let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
     let rms_db = if rms > EPSILON {
         20.0 * rms.log10()
@@ -307,6 +302,11 @@ fn normalize_peak(
         f32::NEG_INFINITY
     };
 
+    // Apply gain
+    for sample in samples.iter_mut() {
+        *sample *= gain_linear;
+    }
+
     log::debug!(
         "Peak normalization: peak={:.2} dB, gain={:.2} dB",
         peak_db,
@@ -427,6 +427,14 @@ fn normalize_lufs(
     let peak = samples.iter().map(|&x| x.abs()).fold(0.0f32, f32::max);
     let peak_db = 20.0 * peak.log10();
 
+    // Calculate RMS for metadata (before the gain is applied)
+    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms_db = if rms > EPSILON {
+        20.0 * rms.log10()
+    } else {
+        f32::NEG_INFINITY
+    };
+
     let new_peak = peak * gain_linear;
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
     if new_peak > target_peak_linear {
@@ -439,14 +447,6 @@ fn normalize_lufs(
             *sample *= max_gain_linear;
         }
 
-        // Calculate RMS for metadata
-        let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-        let rms_db = if rms > EPSILON {
-            20.0 * rms.log10()
-        } else {
-            f32::NEG_INFINITY
-        };
-
         return Ok(LoudnessMetadata {
             measured_lufs: Some(measured_lufs),
             peak_db,
@@ -460,14 +460,6 @@ fn normalize_lufs(
         *sample *= gain_linear;
     }
 
-    // Calculate RMS for metadata
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-    let rms_db = if rms > EPSILON {
-        20.0 * rms.log10()
-    } else {
-        f32::NEG_INFINITY
-    };
-
     log::debug!(
         "LUFS normalization: measured={:.2} LUFS, target={:.2} LUFS, gain={:.2} dB",
         measured_lufs,
-- 
2.43.0


From 5ff03bb51bf513cd810408b715f3202186b81d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:27 +0000
Subject: [PATCH 06/18] fix: consensus voting counts each onset method's weight
 once per cluster

---
 src/features/onset/consensus.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..4b5997f 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -244,8 +244,10 @@ pub fn vote_onsets(
         let mut voted_by_methods = [false; 4]; // Track which methods voted
 
         for onset in cluster {
-            total_weight += onset.weight;
-            voted_by_methods[onset.method_idx] = true;
+            if !voted_by_methods[onset.method_idx] {
+                total_weight += onset.weight;
+                voted_by_methods[onset.method_idx] = true;
+            }
         }
 
         // Count number of unique methods that voted
-- 
2.43.0


From 680726074d155920a2321223f7bd3a7d76abd2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:19 +0000
Subject: [PATCH 07/18] fix: consensus voting must not truncate sample
 positions to 32 bits

---
 src/features/onset/consensus.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 4b5997f..53c71cd 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -213,9 +213,7 @@ pub fn vote_onsets(
         for cluster in &mut clusters {
             // Check if this onset is within tolerance of any onset in the cluster
             for existing_onset in cluster.iter() {
-                if (onset.sample as i32 - existing_onset.sample as i32).unsigned_abs() as usize
-                    <= tolerance_samples
-                {
+                if onset.sample.abs_diff(existing_onset.sample) <= tolerance_samples {
                     cluster.push(onset);
                     added = true;
                     break;
-- 
2.43.0


From effdf0307779e5cde94ff3077c635b662ddb81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:06 +0000
Subject: [PATCH 08/18] fix: peak picking must compare peak distances without
 truncating to 32 bits

---
 src/features/period/peak_picking.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features/period/peak_picking.rs b/src/features/period/peak_picking.rs
index fbca90b..1bbffbe 100644
--- a/src/features/period/peak_picking.rs
+++ b/src/features/period/peak_picking.rs
@@ -106,9 +106,9 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
         let mut filtered_peaks = Vec::new();
         for (idx, value) in peaks {
             // Check if too close to any existing peak
-            let too_close = filtered_peaks.iter().any(|(existing_idx, _)| {
-                (idx as i32 - *existing_idx as i32).abs() < min_distance as i32
-            });
+            let too_close = filtered_peaks
+                .iter()
+                .any(|(existing_idx, _): &(usize, f32)| idx.abs_diff(*existing_idx) < min_distance);
 
             if !too_close {
                 filtered_peaks.push((idx, value));
-- 
2.43.0


From 0c0c4fdac7daff5d55f8c147974458cd5709d826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:43 +0000
Subject: [PATCH 09/18] fix: mel filterbank must not panic when the lower
 frequency limit reaches Nyquist

---
 src/features/period/novelty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..9629495 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,7 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        let fmax = fmax.min(nyquist).max(fmin + 1.0);
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
-- 
2.43.0


From f808bcfa1cf23f08a0b68dead8e2d33b16721d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:58 +0000
Subject: [PATCH 10/18] fix: beat grid must not list the same beat twice when
 overlapping tempo segments are refined

---
 src/features/beat_tracking/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..43d7a1e 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -210,6 +210,10 @@ pub fn generate_beat_grid(
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
             refined_beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+            // Segments overlap, so the same beat may have been collected more than once
+            let min_spacing = 30.0 / bpm_estimate;
+            refined_beats
+                .dedup_by(|next, kept| next.time_seconds - kept.time_seconds < min_spacing);
             beat_positions = refined_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
-- 
2.43.0


From 975abc077893cd80dd40d6e75531250f32510a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:02 +0000
Subject: [PATCH 11/18] fix: a tie between time signatures goes to 4/4, so
 regular beats are not reported as 6/8

---
 src/features/beat_tracking/time_signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/features/beat_tracking/time_signature.rs b/src/features/beat_tracking/time_signature.rs
index 8f45285..b6398e6 100644
--- a/src/features/beat_tracking/time_signature.rs
+++ b/src/features/beat_tracking/time_signature.rs
@@ -136,9 +136,10 @@ pub fn detect_time_signature(
     let score_68 = score_time_signature(&intervals, 6, mean_interval);
     scores.push((TimeSignature::SixEight, score_68));
 
-    // Find best match
+    // Find best match (a tie goes to the earlier, more common signature: `max_by` keeps the last)
     let (best_sig, best_score) = scores
         .iter()
+        .rev()
         .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap())
         .unwrap();
 
-- 
2.43.0


From 87a65f9a859df5554465e09ab1133ed5af6e5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:47 +0000
Subject: [PATCH 12/18] fix: key choice among tied keys must not depend on hash
 map iteration order

---
 src/features/key/detector.rs    | 20 +++++++++++++++-----
 src/features/key/key_changes.rs |  7 +++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..2ca7bdb 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -264,11 +264,18 @@ pub fn detect_key_weighted(
             *key_votes.entry(*key).or_insert(0.0) += vote_weight;
         }
 
-        // Select key with highest vote count
-        key_votes
+        // Select key with highest vote count. Walk the ranking, not the map: ties go to the
+        // higher-ranked key instead of depending on the map's (random) iteration order.
+        scores
             .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
-            .map(|(k, _)| *k)
+            .take(3)
+            .rev()
+            .map(|(key, _)| *key)
+            .max_by(|a, b| {
+                key_votes[a]
+                    .partial_cmp(&key_votes[b])
+                    .unwrap_or(std::cmp::Ordering::Equal)
+            })
             .unwrap_or(best_key)
     } else {
         best_key
@@ -779,8 +786,11 @@ pub fn detect_key_median(
     }
 
     // Select median key (most common, with confidence as tiebreaker)
-    let (median_key, (count, _total_conf)) = key_counts
+    // Remaining ties go to the key heard first, not to the map's (random) iteration order.
+    let (median_key, (count, _total_conf)) = segment_keys
         .iter()
+        .rev()
+        .map(|key| (key, key_counts[key]))
         .max_by(|a, b| {
             // First by count, then by total confidence
             match a.1 .0.cmp(&b.1 .0) {
diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..7cc79ea 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -140,12 +140,15 @@ pub fn detect_key_changes(
         entry.1 += confidence;
     }
 
-    let (primary_key, (count, total_confidence)) = key_counts
+    // Ties go to the key heard first, not to the map's (random) iteration order
+    let (primary_key, (count, total_confidence)) = segment_keys
         .iter()
+        .rev()
+        .map(|(_, key, _)| (key, key_counts[key]))
         .max_by_key(|(_, (count, _))| *count)
         .unwrap();
 
-    let primary_confidence = total_confidence / *count as f32;
+    let primary_confidence = total_confidence / count as f32;
 
     // Detect key changes
     let mut key_changes = Vec::new();
-- 
2.43.0


From ebc2037e7b5243cff2fc050f561dbb4bf44b787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:15 +0000
Subject: [PATCH 13/18] fix: key change detection must reject an overlap longer
 than the segment instead of panicking

---
 src/features/key/key_changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index 7cc79ea..324946f 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -92,7 +92,7 @@ pub fn detect_key_changes(
     let frames_per_second = sample_rate as f32 / hop_size as f32;
     let segment_frames = (segment_duration * frames_per_second) as usize;
     let overlap_frames = (segment_overlap * frames_per_second) as usize;
-    let hop_frames = segment_frames - overlap_frames;
+    let hop_frames = segment_frames.saturating_sub(overlap_frames);
 
     if segment_frames == 0 || hop_frames == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From 4265ea9ff2dd6fac671e14a1eeaf5045cc007cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:36 +0000
Subject: [PATCH 14/18] fix: a lower frequency limit at or above the Nyquist
 frequency must not panic in tuning estimation and harmonic masking

---
 src/features/chroma/extractor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6c78568..82e729c 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -98,7 +98,7 @@ pub fn estimate_tuning_offset_semitones_from_spectrogram(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.min(sample_rate as f32 / 2.0).max(fmin + 1.0);
     let step = frame_step.max(1);
     let thr = peak_rel_threshold.clamp(0.0, 1.0);
 
@@ -1403,7 +1403,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.min(sample_rate as f32 / 2.0).max(fmin + 1.0);
     let mut bin_start = (fmin / freq_resolution).floor() as isize;
     let mut bin_end = (fmax / freq_resolution).ceil() as isize;
     bin_start = bin_start.clamp(0, n_bins as isize);
-- 
2.43.0


From 21dc09cd51adac632e5b79c079536f15dde7716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:36 +0000
Subject: [PATCH 15/18] fix: an inverted frequency range must be an error, not
 a panic, in log-frequency conversion

---
 src/features/chroma/extractor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 82e729c..3d10509 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -743,13 +743,13 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     // Round to nearest semitone and create bin range
     let semitone_bin_min = semitone_min.floor() as i32;
     let semitone_bin_max = semitone_max.ceil() as i32;
-    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1) as usize;
 
-    if n_semitone_bins == 0 {
+    if semitone_bin_max < semitone_bin_min {
         return Err(AnalysisError::InvalidInput(
             "Invalid semitone range: fmin >= fmax".to_string(),
         ));
     }
+    let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1) as usize;
 
     // Precompute semitone bin frequency bounds (for reference, not used in conversion)
     // Note: We use direct interpolation in the conversion loop below, so this is just for documentation
-- 
2.43.0


From 69f3d2c03f67c856d4e667ce4a06e1e6e2a9ae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:42 +0000
Subject: [PATCH 16/18] fix: FFT rounding noise must not show up as tempo
 candidates when no onsets coincide

---
 src/features/period/autocorrelation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index f92314c..8f52b60 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -254,7 +254,7 @@ fn compute_autocorrelation_fft(signal: &[f32]) -> Result<Vec<f32>, crate::error:
     let scale = 1.0 / (fft_size as f32);
     let acf: Vec<f32> = fft_input[..n]
         .iter()
-        .map(|x| (x.re * scale).max(0.0)) // Autocorrelation is non-negative
+        .map(|x| (x.re * scale).round().max(0.0)) // Counts of coinciding beats: whole, non-negative
         .collect();
 
     // Note: Ellis & Pikrakis (2006) mentions optional normalization by signal length
-- 
2.43.0


From be7583e1c288dd277f4f65fd508f3de59caea863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:45 +0000
Subject: [PATCH 17/18] fix: a tempo resolution too small to advance must be an
 error, not an endless loop

---
 src/features/period/comb_filter.rs        | 3 ++-
 src/features/period/tempogram_autocorr.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9f604d5..ea355d3 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -130,7 +130,8 @@ pub fn estimate_bpm_from_comb_filter(
         )));
     }
 
-    if bpm_resolution <= 0.0 {
+    // A resolution lost in rounding would never reach the end of the range
+    if bpm_resolution <= 0.0 || max_bpm + bpm_resolution <= max_bpm {
         return Err(crate::error::AnalysisError::InvalidInput(format!(
             "Invalid BPM resolution: {:.2}",
             bpm_resolution
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 9489dad..de9a284 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -109,7 +109,8 @@ pub fn autocorrelation_tempogram(
         )));
     }
 
-    if bpm_resolution <= 0.0 {
+    // A resolution lost in rounding would never reach the end of the range
+    if bpm_resolution <= 0.0 || max_bpm + bpm_resolution <= max_bpm {
         return Err(AnalysisError::InvalidInput(format!(
             "BPM resolution must be > 0, got {}",
             bpm_resolution
-- 
2.43.0


From 7327ddd2cfde63bf42d1bacd17769cbb9065ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:45 +0000
Subject: [PATCH 18/18] fix: the lag of a very slow tempo must not wrap around
 in the autocorrelation tempogram

---
 src/features/period/tempogram_autocorr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index de9a284..7e9271a 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -142,7 +142,7 @@ pub fn autocorrelation_tempogram(
 
         // For each frame, compare with frame at tempo lag
         for (i, _) in novelty_curve.iter().enumerate() {
-            let j = i + lag_frames;
+            let j = i.saturating_add(lag_frames);
             if j < novelty_curve.len() {
                 // Autocorrelation: compare frames at tempo interval
                 autocorr_sum += novelty_curve[i] * novelty_curve[j];
-- 
2.43.0

