From 3d75641ae81afbc97f05cf0700dd168eae3c9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:56 +0000
Subject: [PATCH 01/28] fix: silence trimming with a one-sample frame divided
 by zero

frame_size 1 is accepted (only 0 is rejected) but its half-frame hop was 0.
---
 src/preprocessing/silence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index d314764..b31a8df 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -141,7 +141,7 @@ pub fn detect_and_trim(
     let threshold_linear = 10.0_f32.powf(detector.threshold_db / 20.0);
 
     // Step 1: Frame audio and compute RMS per frame
-    let hop_size = detector.frame_size / 2; // 50% overlap for smoother detection
+    let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
     let num_frames = if samples.len() >= detector.frame_size {
         (samples.len() - detector.frame_size) / hop_size + 1
     } else {
-- 
2.43.0


From dae874b0a3c1f42f7b73107f19470a499cdb1234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:56 +0000
Subject: [PATCH 02/28] fix: report the RMS level measured before normalization

LoudnessMetadata.rms_db is documented as the level before normalization, but the
peak and loudness methods measured it on the already scaled samples.
---
 src/preprocessing/normalization.rs | 40 ++++++++++++------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index 5aca65f..86aeee0 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -285,6 +285,14 @@ fn normalize_peak(
     // Calculate peak in dB
     let peak_db = 20.0 * peak.log10();
 
+    // RMS before normalization (metadata describes the input)
+    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms_db = if rms > EPSILON {
+        20.0 * rms.log10()
+    } else {
+        f32::NEG_INFINITY
+    };
+
     // Calculate target peak (leave headroom)
     // max_headroom_db is the headroom below 0 dB, so target is 0 dB - headroom
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
@@ -299,14 +307,6 @@ fn normalize_peak(
         *sample *= gain_linear;
     }
 
-    // Calculate RMS for metadata
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-    let rms_db = if rms > EPSILON {
-        20.0 * rms.log10()
-    } else {
-        f32::NEG_INFINITY
-    };
-
     log::debug!(
         "Peak normalization: peak={:.2} dB, gain={:.2} dB",
         peak_db,
@@ -427,6 +427,14 @@ fn normalize_lufs(
     let peak = samples.iter().map(|&x| x.abs()).fold(0.0f32, f32::max);
     let peak_db = 20.0 * peak.log10();
 
+    // RMS before normalization (metadata describes the input)
+    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
+    let rms_db = if rms > EPSILON {
+        20.0 * rms.log10()
+    } else {
+        f32::NEG_INFINITY
+    };
+
     let new_peak = peak * gain_linear;
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
     if new_peak > target_peak_linear {
@@ -439,14 +447,6 @@ fn normalize_lufs(
             *sample *= max_gain_linear;
         }
 
-        // Calculate RMS for metadata
-        let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-        let rms_db = if rms > EPSILON {
-            20.0 * rms.log10()
-        } else {
-            f32::NEG_INFINITY
-        };
-
         return Ok(LoudnessMetadata {
             measured_lufs: Some(measured_lufs),
             peak_db,
@@ -460,14 +460,6 @@ fn normalize_lufs(
         *sample *= gain_linear;
     }
 
-    // Calculate RMS for metadata
-    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
-    let rms_db = if rms > EPSILON {
-        20.0 * rms.log10()
-    } else {
-        f32::NEG_INFINITY
-    };
-
     log::debug!(
         "LUFS normalization: measured={:.2} LUFS, target={:.2} LUFS, gain={:.2} dB",
         measured_lufs,
-- 
2.43.0


From 9502579ba56ebbea271f2c1d1ba23ce6ff4aa75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:56 +0000
Subject: [PATCH 03/28] fix: peak normalization reported a gain it did not
 apply

With a negative headroom the gain is limited so the peak stays at 1.0, but
gain_db was computed from the unlimited gain.
---
 src/preprocessing/normalization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessing/normalization.rs b/src/preprocessing/normalization.rs
index 86aeee0..ae58325 100644
--- a/src/preprocessing/normalization.rs
+++ b/src/preprocessing/normalization.rs
@@ -297,10 +297,10 @@ fn normalize_peak(
     // max_headroom_db is the headroom below 0 dB, so target is 0 dB - headroom
     let target_peak_linear = 10.0_f32.powf((0.0 - max_headroom_db) / 20.0);
     let gain_linear = target_peak_linear / peak;
-    let gain_db = 20.0 * gain_linear.log10();
 
     // Ensure we don't exceed 1.0
     let gain_linear = gain_linear.min(1.0 / peak);
+    let gain_db = 20.0 * gain_linear.log10();
 
     // Apply gain
     for sample in samples.iter_mut() {
-- 
2.43.0


From 5aeac12f7a4600820df93251dcce1d6e94bb6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:24 +0000
Subject: [PATCH 04/28] fix: onset clustering truncated sample positions to 32
 bits

---
 src/features/onset/consensus.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..59b3bd1 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -213,9 +213,7 @@ pub fn vote_onsets(
         for cluster in &mut clusters {
             // Check if this onset is within tolerance of any onset in the cluster
             for existing_onset in cluster.iter() {
-                if (onset.sample as i32 - existing_onset.sample as i32).unsigned_abs() as usize
-                    <= tolerance_samples
-                {
+                if onset.sample.abs_diff(existing_onset.sample) <= tolerance_samples {
                     cluster.push(onset);
                     added = true;
                     break;
-- 
2.43.0


From 289fcf7a7208ce763c4cd73849491dc15b5e868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:44 +0000
Subject: [PATCH 05/28] fix: a method voted more than once for the same onset
 cluster

---
 src/features/onset/consensus.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 59b3bd1..38e9075 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -242,8 +242,11 @@ pub fn vote_onsets(
         let mut voted_by_methods = [false; 4]; // Track which methods voted
 
         for onset in cluster {
-            total_weight += onset.weight;
-            voted_by_methods[onset.method_idx] = true;
+            // A method votes once per cluster, however many onsets it contributed
+            if !voted_by_methods[onset.method_idx] {
+                total_weight += onset.weight;
+                voted_by_methods[onset.method_idx] = true;
+            }
         }
 
         // Count number of unique methods that voted
-- 
2.43.0


From 8ea3387d52c30c4934788732eacda6f0127bcd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:52 +0000
Subject: [PATCH 06/28] fix: STFT panicked or produced NaN for a degenerate
 frame or hop size

---
 src/features/chroma/extractor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6c78568..2e9e98d 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -303,6 +303,13 @@ pub fn compute_stft(
     frame_size: usize,
     hop_size: usize,
 ) -> Result<Vec<Vec<f32>>, AnalysisError> {
+    if frame_size < 2 || hop_size == 0 {
+        return Err(AnalysisError::InvalidInput(format!(
+            "Frame size must be >= 2 and hop size > 0, got frame_size={}, hop_size={}",
+            frame_size, hop_size
+        )));
+    }
+
     let n_samples = samples.len();
 
     if n_samples < frame_size {
-- 
2.43.0


From 888db423765915ef39a7e4b8f8a146c9b01bb3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:43 +0000
Subject: [PATCH 07/28] fix: tuning estimate and harmonic mask panicked at very
 low sample rates

---
 src/features/chroma/extractor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 2e9e98d..b855873 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -98,7 +98,7 @@ pub fn estimate_tuning_offset_semitones_from_spectrogram(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0);
     let step = frame_step.max(1);
     let thr = peak_rel_threshold.clamp(0.0, 1.0);
 
@@ -1410,7 +1410,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0);
     let mut bin_start = (fmin / freq_resolution).floor() as isize;
     let mut bin_end = (fmax / freq_resolution).ceil() as isize;
     bin_start = bin_start.clamp(0, n_bins as isize);
-- 
2.43.0


From 3adabfad7f489ed98966e1ddd6be80a478c0f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:43 +0000
Subject: [PATCH 08/28] fix: log-frequency conversion overflowed on an empty
 frequency range

---
 src/features/chroma/extractor.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index b855873..787edf2 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -742,6 +742,12 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     let fmin = fmin_hz.max(20.0);
     let fmax = fmax_hz.min(nyquist - 1.0);
 
+    if fmax <= fmin {
+        return Err(AnalysisError::InvalidInput(
+            "Invalid semitone range: fmin >= fmax".to_string(),
+        ));
+    }
+
     // Compute semitone range: convert frequency bounds to semitones
     // semitone = 12 * log2(freq / 440.0) + 57.0
     let semitone_min = 12.0 * (fmin / A4_FREQ).log2() + SEMITONE_OFFSET;
@@ -752,12 +758,6 @@ pub fn convert_linear_to_log_frequency_spectrogram(
     let semitone_bin_max = semitone_max.ceil() as i32;
     let n_semitone_bins = (semitone_bin_max - semitone_bin_min + 1) as usize;
 
-    if n_semitone_bins == 0 {
-        return Err(AnalysisError::InvalidInput(
-            "Invalid semitone range: fmin >= fmax".to_string(),
-        ));
-    }
-
     // Precompute semitone bin frequency bounds (for reference, not used in conversion)
     // Note: We use direct interpolation in the conversion loop below, so this is just for documentation
     let _semitone_freqs: Vec<(f32, f32)> = (0..n_semitone_bins)
-- 
2.43.0


From 8408425eafd4498b19f9d1a0fd5563f0202fa566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:23 +0000
Subject: [PATCH 09/28] fix: detected key depended on hash iteration order when
 votes tied

---
 src/features/key/detector.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..ff0660f 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -258,16 +258,21 @@ pub fn detect_key_weighted(
 
     let final_key = if use_weighted_voting {
         // Weighted voting: count occurrences of each key in top 3, weighted by score
-        let mut key_votes: std::collections::HashMap<Key, f32> = std::collections::HashMap::new();
+        let mut key_votes: Vec<(Key, f32)> = Vec::with_capacity(3);
         for (key, score) in scores.iter().take(3) {
             let vote_weight = *score / best_score; // Normalize by best score
-            *key_votes.entry(*key).or_insert(0.0) += vote_weight;
+            match key_votes.iter_mut().find(|(k, _)| k == key) {
+                Some((_, votes)) => *votes += vote_weight,
+                None => key_votes.push((*key, vote_weight)),
+            }
         }
 
-        // Select key with highest vote count
+        // Select key with highest vote count (ties go to the better-ranked key, so the
+        // result does not depend on hash iteration order)
         key_votes
             .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
+            .rev()
+            .max_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
             .map(|(k, _)| *k)
             .unwrap_or(best_key)
     } else {
-- 
2.43.0


From c813fa239669ccb971824664681c50c338028a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:23 +0000
Subject: [PATCH 10/28] fix: most common key across segments depended on hash
 iteration order

---
 src/features/key/detector.rs    | 16 ++++++++++++----
 src/features/key/key_changes.rs | 14 +++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index ff0660f..b9c456f 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -775,17 +775,25 @@ pub fn detect_key_median(
     }
 
     // Count key occurrences (weighted by confidence)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (key, result) in segment_keys.iter().zip(segment_scores.iter()) {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
+        let idx = match key_counts.iter().position(|(k, _)| k == key) {
+            Some(idx) => idx,
+            None => {
+                key_counts.push((*key, (0, 0.0)));
+                key_counts.len() - 1
+            }
+        };
+        let entry = &mut key_counts[idx].1;
         entry.0 += 1;
         entry.1 += result.confidence;
     }
 
-    // Select median key (most common, with confidence as tiebreaker)
+    // Select median key (most common, with confidence as tiebreaker; remaining ties go to
+    // the key that appeared first)
     let (median_key, (count, _total_conf)) = key_counts
         .iter()
+        .rev()
         .max_by(|a, b| {
             // First by count, then by total confidence
             match a.1 .0.cmp(&b.1 .0) {
diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..a132668 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -132,16 +132,24 @@ pub fn detect_key_changes(
     }
 
     // Find primary key (most common)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    let mut key_counts: Vec<(Key, (usize, f32))> = Vec::new();
     for (_, key, confidence) in &segment_keys {
-        let entry = key_counts.entry(*key).or_insert((0, 0.0));
+        let idx = match key_counts.iter().position(|(k, _)| k == key) {
+            Some(idx) => idx,
+            None => {
+                key_counts.push((*key, (0, 0.0)));
+                key_counts.len() - 1
+            }
+        };
+        let entry = &mut key_counts[idx].1;
         entry.0 += 1;
         entry.1 += confidence;
     }
 
+    // Ties go to the key that appeared first
     let (primary_key, (count, total_confidence)) = key_counts
         .iter()
+        .rev()
         .max_by_key(|(_, (count, _))| *count)
         .unwrap();
 
-- 
2.43.0


From 5252c83a02193824bdd78dad66b9b3fa2cbac2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:23 +0000
Subject: [PATCH 11/28] fix: key change detection panicked on overlapping or
 zero-length segment settings

---
 src/features/key/key_changes.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index a132668..f3c4001 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -88,11 +88,17 @@ pub fn detect_key_changes(
         ));
     }
 
+    if sample_rate == 0 || hop_size == 0 {
+        return Err(AnalysisError::InvalidInput(
+            "Sample rate and hop size must be > 0".to_string(),
+        ));
+    }
+
     // Convert segment duration to frames
     let frames_per_second = sample_rate as f32 / hop_size as f32;
     let segment_frames = (segment_duration * frames_per_second) as usize;
     let overlap_frames = (segment_overlap * frames_per_second) as usize;
-    let hop_frames = segment_frames - overlap_frames;
+    let hop_frames = segment_frames.saturating_sub(overlap_frames);
 
     if segment_frames == 0 || hop_frames == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From c50ab597a6cf3c45bf066d9b9c002b12256fe09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:23 +0000
Subject: [PATCH 12/28] fix: parsing a numerical key panicked on non-ASCII text

---
 src/analysis/result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index a5df132..de17569 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -115,7 +115,7 @@ impl Key {
             return None;
         }
 
-        let (num_str, suffix) = notation.split_at(notation.len() - 1);
+        let (num_str, suffix) = notation.split_at_checked(notation.len() - 1)?;
         let num: u32 = num_str.parse().ok()?;
 
         if !(1..=12).contains(&num) {
-- 
2.43.0


From 196c022ee5b75578d916f9367f6d68d76207c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:34 +0000
Subject: [PATCH 13/28] fix: mel novelty panicked when the sample rate left no
 room above its lowest band

---
 src/features/period/novelty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..dc80cdb 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,7 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        let fmax = fmax.max(fmin + 1.0).min(nyquist);
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
-- 
2.43.0


From 6cd18c6656141f44b62e2f1c95a37abc0d612d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:34 +0000
Subject: [PATCH 14/28] fix: multi-resolution octave folding left the
 configured BPM range

---
 src/features/period/multi_resolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index f3740b7..f37a43a 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -697,7 +697,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-down (high -> half)
     if best.bpm >= 170.0 {
         let half = best.bpm * 0.5;
-        if (70.0..=120.0).contains(&half) {
+        if (70.0..=120.0).contains(&half) && half >= min_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_half, a_half) = total_support(&c256, &c512, &c1024, half, tol);
             let ratio = if s_best > 0.0 { s_half / s_best } else { 0.0 };
@@ -726,7 +726,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-up (low -> double)
     if best.bpm <= 80.0 {
         let dbl = best.bpm * 2.0;
-        if (70.0..=180.0).contains(&dbl) {
+        if (70.0..=180.0).contains(&dbl) && dbl <= max_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_dbl, a_dbl) = total_support(&c256, &c512, &c1024, dbl, tol);
             let ratio = if s_best > 0.0 { s_dbl / s_best } else { 0.0 };
-- 
2.43.0


From 9eca99fcfe241f70ebbfe15216839de875b713f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:34 +0000
Subject: [PATCH 15/28] fix: BPM grid search never ended when the resolution
 could not advance the grid

---
 src/features/period/comb_filter.rs        | 8 ++++++++
 src/features/period/tempogram_autocorr.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9f604d5..648452d 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -137,6 +137,14 @@ pub fn estimate_bpm_from_comb_filter(
         )));
     }
 
+    // A step too small to advance the BPM grid (or an infinite range) would never terminate.
+    if max_bpm + bpm_resolution <= max_bpm {
+        return Err(crate::error::AnalysisError::InvalidInput(format!(
+            "BPM resolution {} is too small for max_bpm {}",
+            bpm_resolution, max_bpm
+        )));
+    }
+
     // Need at least 2 onsets for meaningful scoring
     if onsets.len() < 2 {
         log::warn!("Too few onsets for comb filter: {}", onsets.len());
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 9489dad..ec8bcd3 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -116,6 +116,14 @@ pub fn autocorrelation_tempogram(
         )));
     }
 
+    // A step too small to advance the BPM grid (or an infinite range) would never terminate.
+    if max_bpm + bpm_resolution <= max_bpm {
+        return Err(AnalysisError::InvalidInput(format!(
+            "BPM resolution {} is too small for max_bpm {}",
+            bpm_resolution, max_bpm
+        )));
+    }
+
     // Compute frame rate (frames per second)
     let frame_rate = sample_rate as f32 / hop_size as f32;
 
-- 
2.43.0


From 1f0e06a19e2c55b03773aa6dfa41757774c6e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:02 +0000
Subject: [PATCH 16/28] fix: peak picking ignored minimum distances beyond 32
 bits

---
 src/features/period/peak_picking.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/features/period/peak_picking.rs b/src/features/period/peak_picking.rs
index fbca90b..2c875c2 100644
--- a/src/features/period/peak_picking.rs
+++ b/src/features/period/peak_picking.rs
@@ -106,9 +106,9 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
         let mut filtered_peaks = Vec::new();
         for (idx, value) in peaks {
             // Check if too close to any existing peak
-            let too_close = filtered_peaks.iter().any(|(existing_idx, _)| {
-                (idx as i32 - *existing_idx as i32).abs() < min_distance as i32
-            });
+            let too_close = filtered_peaks
+                .iter()
+                .any(|&(existing_idx, _): &(usize, f32)| idx.abs_diff(existing_idx) < min_distance);
 
             if !too_close {
                 filtered_peaks.push((idx, value));
-- 
2.43.0


From 7dbf02338facdb7cd94b76b56a9b9476de198b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:49 +0000
Subject: [PATCH 17/28] fix: floating-point residue of the onset
 autocorrelation was reported as tempo

---
 src/features/period/autocorrelation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index f92314c..e4e2b69 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -163,7 +163,12 @@ pub fn estimate_bpm_from_autocorrelation(
     }
 
     // Step 2: Compute autocorrelation using FFT acceleration
-    let acf = compute_autocorrelation_fft(&beat_signal)?;
+    // The signal is binary, so every lag is a whole number of coinciding onsets; rounding removes
+    // the FFT's floating-point residue, which would otherwise show up as spurious periodicity.
+    let acf: Vec<f32> = compute_autocorrelation_fft(&beat_signal)?
+        .into_iter()
+        .map(f32::round)
+        .collect();
 
     // Step 3: Convert lag range to frame indices
     // BPM = (60 * sample_rate) / (lag * hop_size)
-- 
2.43.0


From 620131a146429c2a2654a190cc9df14341c33478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 18/28] fix: beats in overlapping tempo segments were listed
 twice in the beat grid

---
 src/features/beat_tracking/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..46f6857 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -210,6 +210,8 @@ pub fn generate_beat_grid(
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
             refined_beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+            // Segments overlap, so a beat can be contributed by both of its segments
+            refined_beats.dedup_by(|a, b| a.time_seconds == b.time_seconds);
             beat_positions = refined_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
-- 
2.43.0


From 72cfc6621a3c02a6e9a1a4646926ca2cdb2c96ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:01 +0000
Subject: [PATCH 19/28] fix: beat grid generation panicked on non-finite onset
 times

---
 src/features/beat_tracking/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 46f6857..5f61545 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -124,6 +124,12 @@ pub fn generate_beat_grid(
         ));
     }
 
+    if onsets.iter().any(|onset| !onset.is_finite()) {
+        return Err(AnalysisError::InvalidInput(
+            "Cannot generate beat grid: onset times must be finite".to_string(),
+        ));
+    }
+
     log::debug!(
         "Generating beat grid: BPM={:.2}, confidence={:.3}, {} onsets",
         bpm_estimate,
-- 
2.43.0


From ff23716f8b1729cd46a22af866f5e5453cff118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:51 +0000
Subject: [PATCH 20/28] fix: key detection panicked when frame energy weights
 overflowed

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3dcbf84..3f8beb5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1277,11 +1277,12 @@ pub fn analyze_audio(
                     None
                 };
 
-                // Safety: if weighting zeroes out essentially everything, fall back to unweighted.
+                // Safety: if weighting zeroes out essentially everything (or overflows), fall back
+                // to unweighted.
                 if let Some(w) = frame_weights.as_ref() {
                     let sum_w: f32 = w.iter().sum();
                     let used = w.iter().filter(|&&x| x > 0.0).count();
-                    if sum_w <= 1e-12 || used < 10 {
+                    if sum_w <= 1e-12 || !sum_w.is_finite() || used < 10 {
                         frame_weights = None;
                     }
                 }
-- 
2.43.0


From 23dd1f760aa6ad251b3cb7202b58332d757834ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:00 +0000
Subject: [PATCH 21/28] fix: analysis panicked or reported garbage for NaN or
 infinite samples

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3f8beb5..7b3548a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,6 +109,12 @@ pub fn analyze_audio(
         ));
     }
 
+    if samples.iter().any(|s| !s.is_finite()) {
+        return Err(AnalysisError::InvalidInput(
+            "Audio samples must be finite".to_string(),
+        ));
+    }
+
     // Phase 1A: Preprocessing
     let mut processed_samples = samples.to_vec();
 
-- 
2.43.0


From 9abc29918ffc67e931c04aa171c66c5f549dc9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:32 +0000
Subject: [PATCH 22/28] fix: tempo confidence from the legacy estimator
 exceeded 1.0

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7b3548a..62ee9a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -905,6 +905,10 @@ pub fn analyze_audio(
             .unwrap_or((0.0, 0.0))
     };
 
+    // Legacy confidences are boosted past 1.0 (method agreement, guardrail multipliers); the
+    // reported confidence is documented as 0.0-1.0.
+    let bpm_confidence = bpm_confidence.clamp(0.0, 1.0);
+
     if bpm == 0.0 {
         log::warn!("Could not estimate BPM: tempogram and legacy methods both failed");
     } else {
-- 
2.43.0


From bf907a9d127b94662cc43297808eb4518b5c6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:26 +0000
Subject: [PATCH 23/28] fix: more tempogram candidates were emitted than
 configured

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 62ee9a6..40c7cc1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -692,6 +692,7 @@ pub fn analyze_audio(
                         tempogram_candidates = Some(
                             chosen_cands
                                 .into_iter()
+                                .take(config.tempogram_candidates_top_n)
                                 .map(|c| TempoCandidateDebug {
                                     bpm: c.bpm,
                                     score: c.score,
-- 
2.43.0


From 7205cbcbae03a275fb7973b56fe779c00e2a91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:33 +0000
Subject: [PATCH 24/28] fix: minor keys were reported as major

After per-mode normalization the best major and the best minor key always
score the same, and the tie went to the major key. Break it by the
unnormalized template score.
---
 src/features/key/detector.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index b9c456f..337cd0d 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -132,6 +132,10 @@ pub fn detect_key_weighted(
         scores.push((Key::Minor(key_idx), score));
     }
 
+    // The best major and the best minor key both score the same after the normalization
+    // below, so keep the unnormalized scores to tell them apart.
+    let raw_scores = scores.clone();
+
     // Step 1.5: Normalize major and minor scores separately to address scale differences.
     // This helps when major and minor template scores have different ranges, which can
     // bias mode selection. We normalize by the max score in each mode category.
@@ -242,8 +246,20 @@ pub fn detect_key_weighted(
 
     scores = refined_scores;
 
-    // Step 2: Sort by score (highest first)
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+    // Step 2: Sort by score (highest first); ties go to the better template match
+    let raw_score = |key: &Key| {
+        raw_scores
+            .iter()
+            .find(|(k, _)| k == key)
+            .map_or(0.0, |(_, s)| *s)
+    };
+    scores.sort_by(|a, b| {
+        b.1.partial_cmp(&a.1).unwrap().then_with(|| {
+            raw_score(&b.0)
+                .partial_cmp(&raw_score(&a.0))
+                .unwrap_or(std::cmp::Ordering::Equal)
+        })
+    });
 
     // Step 3: Select best key using weighted top-N voting (if top keys are close)
     // This helps when the best key is only slightly better than alternatives
-- 
2.43.0


From bb84597d62a0de2cdf4709aaadac5555711301ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:48 +0000
Subject: [PATCH 25/28] fix: minor keys were reported as major by segment
 voting, multi-scale and ensemble detection

The accumulated scores of the best major and the best minor key tie, and the
tie always went to the major key. Ties now keep the whole-track ranking.
---
 src/features/key/detector.rs | 35 +++++++++++++++++++----------------
 src/lib.rs                   | 16 ++++++++--------
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 337cd0d..ee67b5c 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -590,14 +590,17 @@ pub fn detect_key_multi_scale(
         ));
     }
 
-    // Initialize accumulated score table (24 keys)
-    let mut acc_scores: Vec<(Key, f32)> = Vec::with_capacity(24);
-    for k in 0..12 {
-        acc_scores.push((Key::Major(k as u32), 0.0));
-    }
-    for k in 0..12 {
-        acc_scores.push((Key::Minor(k as u32), 0.0));
-    }
+    // Initialize accumulated score table (24 keys), in whole-track order: the best major and
+    // the best minor key of a segment score the same, and ties keep this order
+    let mut acc_scores: Vec<(Key, f32)> = detect_key_weighted(
+        chroma_vectors,
+        templates,
+        frame_weights.filter(|w| w.len() == chroma_vectors.len()),
+    )?
+    .all_scores
+    .into_iter()
+    .map(|(k, _)| (k, 0.0))
+    .collect();
 
     let mut total_weight = 0.0f32;
     let mut used_segments = 0usize;
@@ -949,14 +952,14 @@ pub fn detect_key_ensemble(
         temp_scores.insert(*key, *score);
     }
 
-    // Combine scores for all 24 keys
-    for key_idx in 0..24 {
-        let key = if key_idx < 12 {
-            Key::Major(key_idx as u32)
-        } else {
-            Key::Minor((key_idx - 12) as u32)
-        };
-
+    // Combine scores for all 24 keys, in the order of the dominant template set: the best
+    // major and the best minor key score the same in either set, and ties keep this order
+    let ranking = if temp_norm > kk_norm {
+        &temp_result.all_scores
+    } else {
+        &kk_result.all_scores
+    };
+    for &(key, _) in ranking {
         let kk_score = kk_scores.get(&key).copied().unwrap_or(0.0);
         let temp_score = temp_scores.get(&key).copied().unwrap_or(0.0);
 
diff --git a/src/lib.rs b/src/lib.rs
index 40c7cc1..6b683d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1350,14 +1350,14 @@ pub fn analyze_audio(
                         let hop = config.key_segment_hop_frames.min(seg_len).max(1); // Not a simple clamp: min first, then max
                         let min_clarity = config.key_segment_min_clarity.clamp(0.0, 1.0);
 
-                        let mut acc_scores: Vec<(Key, f32)> = Vec::with_capacity(24);
-                        // init score table
-                        for k in 0..12 {
-                            acc_scores.push((Key::Major(k as u32), 0.0));
-                        }
-                        for k in 0..12 {
-                            acc_scores.push((Key::Minor(k as u32), 0.0));
-                        }
+                        // init score table, in whole-track order: the best major and the best minor
+                        // key of a segment score the same, and ties keep this order
+                        let mut acc_scores: Vec<(Key, f32)> =
+                            detect_key_weighted(chroma_slice, &templates, frame_weights.as_deref())?
+                                .all_scores
+                                .into_iter()
+                                .map(|(k, _)| (k, 0.0))
+                                .collect();
 
                         let mut used_segments = 0usize;
                         let mut start = 0usize;
-- 
2.43.0


From 531fcbc4af9ef6bc3ad8f41cd8f1af2419c87bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:23 +0000
Subject: [PATCH 26/28] fix: the number of reported tempo candidates changed
 the tempo decision

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6b683d8..44744fe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -437,10 +437,14 @@ pub fn analyze_audio(
                         best
                     }
 
+                    // `tempogram_candidates_top_n` only sets how many candidates are reported, so a
+                    // longer list fetched for it must not take part in the decision.
+                    let support_cands = &base_cands
+                        [..base_cands.len().min(config.tempogram_multi_res_top_k.max(10))];
                     let tol = 2.0f32.max(config.bpm_resolution);
-                    let s_base = cand_support(&base_cands, base_est.bpm, tol);
-                    let s_2x = cand_support(&base_cands, base_est.bpm * 2.0, tol);
-                    let s_half = cand_support(&base_cands, base_est.bpm * 0.5, tol);
+                    let s_base = cand_support(support_cands, base_est.bpm, tol);
+                    let s_2x = cand_support(support_cands, base_est.bpm * 2.0, tol);
+                    let s_half = cand_support(support_cands, base_est.bpm * 0.5, tol);
                     let family_competes = (s_2x > 0.0 && s_2x >= s_base * 0.90)
                         || (s_half > 0.0 && s_half >= s_base * 0.90);
 
-- 
2.43.0


From 6041157f7d83a1b0937b36417042c8e5428f9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 27/28] fix: the minor leading-tone bonus grew with the length
 of the recording

---
 src/config.rs                | 4 ++--
 src/features/key/detector.rs | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index eefdf4f..35c799e 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -579,8 +579,8 @@ pub struct AnalysisConfig {
     /// Default: true.
     pub enable_key_minor_harmonic_bonus: bool,
 
-    /// Weight for the minor harmonic bonus. Internally scaled by the sum of frame weights so it
-    /// is comparable to the template-score scale.
+    /// Weight for the minor harmonic bonus. Added to the normalized template scores (best key of
+    /// each mode = 1.0), so its effect does not depend on the length of the recording.
     ///
     /// Default: 0.8.
     pub key_minor_leading_tone_bonus_weight: f32,
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index ee67b5c..092e19b 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -399,6 +399,7 @@ pub fn detect_key_weighted_mode_heuristic(
 
     // Optional: apply a minor-key harmonic bonus (leading-tone vs flat-7) to the score table.
     // We do this *after* base scoring so we can keep the existing template code unchanged.
+    // The base scores are normalized per mode, so the bonus must not grow with the frame count.
     let mut scores = base.all_scores.clone();
     if enable_minor_harmonic_bonus {
         let w = minor_leading_tone_bonus_weight.max(0.0);
@@ -408,7 +409,7 @@ pub fn detect_key_weighted_mode_heuristic(
                     let tonic = tonic_u32 as usize;
                     let lt = (tonic + 11) % 12; // leading tone
                     let b7 = (tonic + 10) % 12; // flat-7
-                    *s += wsum * w * (avg[lt] - avg[b7]);
+                    *s += w * (avg[lt] - avg[b7]);
                 }
             }
         }
-- 
2.43.0


From 7162c44628280f29db8578550f575ccb7959c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:13 +0000
Subject: [PATCH 28/28] fix: the strongest tempo peak of a long recording could
 be dropped as a near-duplicate

---
 src/features/period/tempogram.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/features/period/tempogram.rs b/src/features/period/tempogram.rs
index 933d730..6b0cb44 100644
--- a/src/features/period/tempogram.rs
+++ b/src/features/period/tempogram.rs
@@ -557,17 +557,9 @@ fn estimate_bpm_tempogram_impl(
         }
     }
 
-    // Deduplicate by clustering within ~0.75 BPM
+    // Exact duplicates only: near-duplicates are merged after scoring (see below).
     candidates.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-    let mut uniq: Vec<f32> = Vec::new();
-    for bpm in candidates {
-        if let Some(last) = uniq.last().copied() {
-            if (bpm - last).abs() < 0.75 {
-                continue;
-            }
-        }
-        uniq.push(bpm);
-    }
+    candidates.dedup();
 
     // Preferable (but not exclusive) tempo range.
     //
@@ -583,8 +575,8 @@ fn estimate_bpm_tempogram_impl(
         autocorr_norm: f32,
     }
 
-    let mut scored: Vec<ScoredCandidate> = Vec::with_capacity(uniq.len());
-    for bpm in uniq {
+    let mut scored: Vec<ScoredCandidate> = Vec::with_capacity(candidates.len());
+    for bpm in candidates {
         // Use a nearest-neighbor lookup (not max-over-window) to avoid score plateaus where
         // adjacent BPMs all inherit the same peak strength (which collapses confidence to 0.0).
         let mut fft_acc = 0.0f32;
@@ -657,6 +649,18 @@ fn estimate_bpm_tempogram_impl(
             .partial_cmp(&a.score)
             .unwrap_or(std::cmp::Ordering::Equal)
     });
+
+    // Deduplicate within ~0.75 BPM, keeping the best-scored candidate of each group. On long
+    // recordings the FFT bins are narrower than this, so keeping an arbitrary member instead
+    // could drop the strongest peak in favour of a neighbour without any support.
+    let mut uniq: Vec<ScoredCandidate> = Vec::with_capacity(scored.len());
+    for c in scored {
+        if !uniq.iter().any(|kept| (c.bpm - kept.bpm).abs() < 0.75) {
+            uniq.push(c);
+        }
+    }
+    let scored = uniq;
+
     let mut best = scored.first().cloned().ok_or_else(|| {
         AnalysisError::ProcessingError("No BPM candidates could be scored".to_string())
     })?;
-- 
2.43.0

