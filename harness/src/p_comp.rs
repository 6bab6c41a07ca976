//! The documented analysis pipeline, re-assembled from the separately checked public stages,
//! and the properties that compare a whole analysis with it.
use crate::cfg;
use crate::engine::*;
use crate::gen::*;
use stratum_dsp::analysis::result::{AnalysisFlag, BeatGrid, Key};
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::sharpen_chroma;
use stratum_dsp::features::chroma::smoothing::smooth_chroma;
use stratum_dsp::features::key::*;
use stratum_dsp::features::onset::consensus::{vote_onsets, OnsetConsensus};
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::{detect_hpss_onsets, hpss_decompose};
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use stratum_dsp::features::period::multi_resolution::multi_resolution_tempogram_from_samples;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::{estimate_bpm, estimate_bpm_with_guardrails, BpmEstimate, LegacyBpmGuardrails};
use stratum_dsp::preprocessing::normalization::{normalize, NormalizationConfig};
use stratum_dsp::preprocessing::silence::{detect_and_trim, SilenceDetector};
use stratum_dsp::{analyze_audio, AnalysisConfig, AnalysisError, AnalysisResult};

type Spec = Vec<Vec<f32>>;
type E = AnalysisError;

/// Normalised and trimmed samples.
pub fn prepare(x: &[f32], sr: u32, c: &AnalysisConfig) -> Result<Vec<f32>, E> {
    let mut s = x.to_vec();
    if c.enable_normalization {
        let n = NormalizationConfig { method: c.normalization, target_loudness_lufs: -14.0, max_headroom_db: 1.0 };
        normalize(&mut s, n, sr as f32)?;
    }
    if !c.enable_silence_trimming {
        return Ok(s);
    }
    let d = SilenceDetector { threshold_db: c.min_amplitude_db, min_duration_ms: 500, frame_size: c.frame_size };
    Ok(detect_and_trim(&s, sr, d)?.0)
}

pub struct Onsets {
    pub energy: Vec<usize>,
    pub chosen: Vec<usize>,
    pub by_vote: bool,
}

/// Onsets used for tempo fallback and beat tracking.
pub fn onsets(s: &[f32], spec: &Spec, sr: u32, c: &AnalysisConfig) -> Result<Onsets, E> {
    let energy = detect_energy_flux_onsets(s, c.frame_size, c.hop_size, -20.0)?;
    let mut o = Onsets { chosen: energy.clone(), energy, by_vote: false };
    if !c.enable_onset_consensus || spec.is_empty() {
        return Ok(o);
    }
    let pos = |f: Result<Vec<usize>, E>| -> Vec<usize> {
        let set: std::collections::BTreeSet<usize> = f.unwrap_or_default().into_iter().map(|k| k * c.hop_size).filter(|&k| k < s.len()).collect();
        set.into_iter().collect()
    };
    let pct = c.onset_threshold_percentile;
    let all = OnsetConsensus {
        energy_flux: o.energy.clone(),
        spectral_flux: pos(detect_spectral_flux_onsets(spec, pct)),
        hfc: pos(detect_hfc_onsets(spec, sr, pct)),
        hpss: if c.enable_hpss_onsets {
            pos(hpss_decompose(spec, c.hpss_margin).and_then(|(_, p)| detect_hpss_onsets(&p, pct)))
        } else {
            vec![]
        },
    };
    if let Ok(v) = vote_onsets(all, c.onset_consensus_weights, c.onset_consensus_tolerance_ms, sr) {
        let get = |min: u32| -> Vec<usize> {
            let b: std::collections::BTreeSet<usize> = v.iter().filter(|x| x.voted_by >= min).map(|x| x.time_samples).collect();
            b.into_iter().collect()
        };
        let two = get(2);
        let any = if two.is_empty() { get(0) } else { two };
        if !any.is_empty() {
            o.chosen = any;
            o.by_vote = true;
        }
    }
    Ok(o)
}

pub fn legacy(on: &[usize], sr: u32, c: &AnalysisConfig) -> Result<Option<BpmEstimate>, E> {
    if on.len() < 2 {
        return Ok(None);
    }
    if c.enable_legacy_bpm_guardrails {
        let g = LegacyBpmGuardrails {
            preferred_min: c.legacy_bpm_preferred_min,
            preferred_max: c.legacy_bpm_preferred_max,
            soft_min: c.legacy_bpm_soft_min,
            soft_max: c.legacy_bpm_soft_max,
            mul_preferred: c.legacy_bpm_conf_mul_preferred,
            mul_soft: c.legacy_bpm_conf_mul_soft,
            mul_extreme: c.legacy_bpm_conf_mul_extreme,
        };
        estimate_bpm_with_guardrails(on, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution, g)
    } else {
        estimate_bpm(on, sr, c.hop_size, c.min_bpm, c.max_bpm, c.bpm_resolution)
    }
}

pub fn band(c: &AnalysisConfig) -> TempogramBandFusionConfig {
    TempogramBandFusionConfig {
        enabled: c.enable_tempogram_band_fusion,
        low_max_hz: c.tempogram_band_low_max_hz,
        mid_max_hz: c.tempogram_band_mid_max_hz,
        high_max_hz: c.tempogram_band_high_max_hz,
        w_full: c.tempogram_band_w_full,
        w_low: c.tempogram_band_w_low,
        w_mid: c.tempogram_band_w_mid,
        w_high: c.tempogram_band_w_high,
        seed_only: c.tempogram_band_seed_only,
        support_threshold: c.tempogram_band_support_threshold,
        consensus_bonus: c.tempogram_band_consensus_bonus,
        enable_mel: c.enable_tempogram_mel_novelty,
        mel_n_mels: c.tempogram_mel_n_mels,
        mel_fmin_hz: c.tempogram_mel_fmin_hz,
        mel_fmax_hz: c.tempogram_mel_fmax_hz,
        mel_max_filter_bins: c.tempogram_mel_max_filter_bins,
        w_mel: c.tempogram_mel_weight,
        novelty_w_spectral: c.tempogram_novelty_w_spectral,
        novelty_w_energy: c.tempogram_novelty_w_energy,
        novelty_w_hfc: c.tempogram_novelty_w_hfc,
        novelty_local_mean_window: c.tempogram_novelty_local_mean_window,
        novelty_smooth_window: c.tempogram_novelty_smooth_window,
        debug_track_id: None,
        debug_gt_bpm: None,
        debug_top_n: 0,
        superflux_max_filter_bins: c.tempogram_superflux_max_filter_bins,
    }
}

#[derive(Default)]
pub struct Tempo {
    pub est: Option<BpmEstimate>,
    pub cands: Option<Vec<TempogramCandidateDebug>>,
    pub mr_triggered: Option<bool>,
    pub mr_used: Option<bool>,
    pub perc_triggered: Option<bool>,
    pub perc_used: Option<bool>,
    /// a comparison that decided the outcome was within rounding distance
    pub close_call: bool,
    /// rules that alone decided something, for coverage
    pub why: Vec<&'static str>,
}

/// Tempogram estimate with escalation to the multi-resolution and percussive variants.
pub fn tempo(s: &[f32], spec: &Spec, sr: u32, c: &AnalysisConfig) -> Tempo {
    let mut o = Tempo::default();
    if c.force_legacy_bpm || spec.is_empty() {
        return o;
    }
    let aux = c.enable_tempogram_band_fusion || c.enable_tempogram_mel_novelty || c.tempogram_band_consensus_bonus > 0.0;
    let run = |sp: &Spec, n: usize| {
        if aux {
            estimate_bpm_tempogram_with_candidates_band_fusion(sp, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution, n, band(c))
        } else {
            estimate_bpm_tempogram_with_candidates(sp, sr, c.hop_size as u32, c.min_bpm, c.max_bpm, c.bpm_resolution, n)
        }
    };
    if !c.enable_tempogram_multi_resolution {
        if let Ok((e, v)) = run(spec, c.tempogram_candidates_top_n) {
            o.est = Some(e);
            o.cands = c.emit_tempogram_candidates.then_some(v);
        }
        return o;
    }
    let n = c.tempogram_candidates_top_n.max(c.tempogram_multi_res_top_k).max(10);
    let Ok((base, bc)) = run(spec, n) else { return o };
    let b = base.bpm;
    let mut near = |x: f32, y: f32| o.close_call |= x != y && (x - y).abs() < 1e-4 * y.abs().max(1e-2);
    let low = (55.0..=80.0).contains(&b);
    let high = (170.0..=200.0).contains(&b);
    let tol = c.bpm_resolution.max(2.0);
    let pool = c.tempogram_multi_res_top_k.max(10);
    let sup = |x: f32| bc.iter().take(pool).filter(|k| (k.bpm - x).abs() <= tol).map(|k| k.score).fold(0.0, f32::max);
    let (s1, s2, sh) = (sup(b), sup(b * 2.0), sup(b * 0.5));
    let family = (s2 > 0.0 && s2 >= s1 * 0.9) || (sh > 0.0 && sh >= s1 * 0.9);
    for (x, y) in [(b, 55.0), (b, 80.0), (b, 170.0), (b, 200.0), (s2, s1 * 0.9), (sh, s1 * 0.9), (base.confidence, 0.06), (b, 85.0), (b, 100.0)] {
        near(x, y);
    }
    let weak = base.method_agreement == 0 || base.confidence < 0.06;
    let ambiguous = low || high || family || (weak && (170.0..=200.0).contains(&(2.0 * b)));
    o.mr_triggered = Some(ambiguous);
    o.why.push(match (low, high, family, ambiguous) {
        (true, _, _, _) => "low trap",
        (_, true, _, _) => "high trap",
        (_, _, true, _) => "family competes",
        (_, _, _, true) => "weak fold",
        _ => "unambiguous",
    });
    o.mr_used = Some(false);
    let mut est = base.clone();
    let mut cands = bc;
    let ratio = |x: f32, y: f32| if y > 1e-6 { (x / y).max(y / x) } else { 1.0 };
    let in_family = |r: f32| [2.0f32, 1.5, 4.0 / 3.0].iter().any(|k| (r - k).abs() < 0.05);
    if ambiguous {
        let m = multi_resolution_tempogram_from_samples(
            s, sr, c.frame_size, c.min_bpm, c.max_bpm, c.bpm_resolution, c.tempogram_multi_res_top_k, c.tempogram_multi_res_w512,
            c.tempogram_multi_res_w256, c.tempogram_multi_res_w1024, c.tempogram_multi_res_structural_discount,
            c.tempogram_multi_res_double_time_512_factor, c.tempogram_multi_res_margin_threshold, c.tempogram_multi_res_use_human_prior, Some(band(c)),
        );
        if let Ok((m, mc)) = m {
            let rel = ratio(m.bpm, b);
            for (x, y) in [
                (m.confidence, base.confidence + 0.05), (m.confidence, base.confidence * 0.9), (m.confidence, base.confidence * 0.88),
                (rel, 2.05), (rel, 1.95), (rel, 1.55), (rel, 1.45), (rel, 4.0 / 3.0 + 0.05), (rel, 4.0 / 3.0 - 0.05), (m.bpm, 180.0), (m.bpm, 70.0), (b, 180.0),
            ] {
                near(x, y);
            }
            let promotes = b <= 180.0 && m.bpm > 180.0;
            let stronger = m.confidence >= base.confidence + 0.05;
            let agreed = m.method_agreement > base.method_agreement && m.confidence >= base.confidence * 0.9;
            let relative = (low || high) && in_family(rel) && m.confidence >= base.confidence * 0.88 && ((70.0..=180.0).contains(&m.bpm) || b > 180.0);
            if promotes && (stronger || agreed || relative) {
                o.why.push(if b > 170.0 { "multi-res: kept from promoting 170-180" } else { "multi-res: kept from promoting" });
            }
            match (stronger, agreed, relative) {
                (true, false, false) => o.why.push("multi-res: stronger only"),
                (false, true, false) => o.why.push("multi-res: agreement only"),
                (false, false, true) => o.why.push("multi-res: relative only"),
                (false, false, false) => o.why.push("multi-res: refused"),
                _ => {}
            }
            if !promotes && (stronger || agreed || relative) {
                est = m;
                cands = mc;
                o.mr_used = Some(true);
            }
        }
    }
    o.perc_triggered = Some(ambiguous && low);
    if c.enable_tempogram_percussive_fallback {
        o.perc_used = Some(false);
        if ambiguous && low {
            if let Ok((p, pc)) = hpss_decompose(spec, c.hpss_margin).and_then(|(_, p)| run(&p, n)) {
                let rel = ratio(p.bpm, est.bpm);
                for (x, y) in [
                    (p.confidence, est.confidence + 0.04), (p.confidence, est.confidence * 0.85), (p.confidence, est.confidence * 0.92),
                    (rel, 2.05), (rel, 1.95), (rel, 1.55), (rel, 1.45), (rel, 4.0 / 3.0 + 0.05), (rel, 4.0 / 3.0 - 0.05), (p.bpm, 180.0), (p.bpm, 70.0),
                    (est.bpm, 180.0),
                ] {
                    near(x, y);
                }
                let promotes = est.bpm <= 180.0 && p.bpm > 180.0;
                let p_family = in_family(rel);
                let p_common = (70.0..=180.0).contains(&p.bpm);
                let better = p.confidence >= est.confidence + 0.04
                    || p.confidence >= est.confidence * 0.85
                    || (p.method_agreement > est.method_agreement && p.confidence >= est.confidence * 0.92);
                match (p_family, p_common, better) {
                    (true, true, false) => o.why.push("percussive: too weak"),
                    (true, false, true) => o.why.push("percussive: uncommon tempo"),
                    (false, true, true) => o.why.push("percussive: unrelated"),
                    (true, true, true) if p.confidence < est.confidence + 0.04 => o.why.push("percussive: taken though not stronger"),
                    _ => {}
                }
                if !promotes && p_family && p_common && better {
                    est = p;
                    cands = pc;
                    o.perc_used = Some(true);
                }
            }
        }
    }
    cands.truncate(c.tempogram_candidates_top_n);
    o.cands = c.emit_tempogram_candidates.then_some(cands);
    o.est = Some(est);
    o
}

/// Final tempo and confidence.
pub fn decide(t: &Tempo, l: &Option<BpmEstimate>, c: &AnalysisConfig) -> (f32, f32) {
    let leg = l.as_ref().map(|e| (e.bpm, e.confidence)).unwrap_or((0.0, 0.0));
    let r = if c.force_legacy_bpm {
        leg
    } else if let Some(e) = &t.est {
        let mut conf = e.confidence.clamp(0.0, 1.0);
        if c.enable_bpm_fusion {
            if e.bpm <= 0.0 {
                return (leg.0, leg.1.clamp(0.0, 1.0));
            }
            if leg.0 > 0.0 {
                let agrees = [1.0f32, 0.5, 2.0, 2.0 / 3.0, 1.5].iter().any(|k| (leg.0 - e.bpm * k).abs() <= 2.0);
                conf = if agrees { conf + 0.12 * leg.1.clamp(0.0, 1.0) } else { conf * 0.9 };
            }
        }
        (e.bpm, conf)
    } else {
        leg
    };
    (r.0, r.1.clamp(0.0, 1.0))
}

pub fn grid(bpm: f32, conf: f32, on: &[usize], sr: u32) -> (BeatGrid, f32) {
    let none = (BeatGrid { downbeats: vec![], beats: vec![], bars: vec![] }, 0.0);
    if bpm <= 0.0 || on.len() < 2 {
        return none;
    }
    let s: Vec<f32> = on.iter().map(|&k| k as f32 / sr as f32).collect();
    generate_beat_grid(bpm, conf, &s, sr).unwrap_or(none)
}

fn tonalness(v: &[f32]) -> f32 {
    let sum: f32 = v.iter().sum();
    if sum <= 1e-12 {
        return 0.0;
    }
    let h: f32 = v.iter().map(|x| x / sum).filter(|&p| p > 1e-12).map(|p| -p * p.ln()).sum();
    (1.0 - h / 12f32.ln()).clamp(0.0, 1.0)
}

pub struct KeyOut {
    pub key: Key,
    pub confidence: f32,
    pub clarity: f32,
    /// the best key is clearly ahead of the next
    pub clear: bool,
    /// name of the route taken, for coverage
    pub route: &'static str,
    pub weighted: bool,
}

/// Key detection under the configured route.
pub fn key(s: &[f32], spec: &Spec, sr: u32, c: &AnalysisConfig, beats: &[f32]) -> Result<KeyOut, E> {
    let none = KeyOut { key: Key::Major(0), confidence: 0.0, clarity: 0.0, clear: true, route: "none", weighted: false };
    if s.len() < c.frame_size {
        return Ok(none);
    }
    let (fft, hop) = if c.enable_key_stft_override { (c.key_stft_frame_size.max(256), c.key_stft_hop_size.max(1)) } else { (c.frame_size, c.hop_size) };
    let raw = if c.enable_key_stft_override { compute_stft(s, fft, hop).unwrap_or_else(|_| spec.clone()) } else { spec.clone() };
    let sp = if raw.is_empty() {
        raw
    } else if c.enable_key_hpss_harmonic {
        harmonic_spectrogram_hpss_median_mask(&raw, sr, fft, 100.0, 5000.0, c.key_hpss_frame_step, c.key_hpss_time_margin, c.key_hpss_freq_margin, c.key_hpss_mask_power)
            .unwrap_or(raw)
    } else if c.enable_key_harmonic_mask {
        harmonic_spectrogram_time_mask(&raw, c.key_spectrogram_smooth_margin, c.key_harmonic_mask_power).unwrap_or(raw)
    } else if c.enable_key_spectrogram_time_smoothing {
        smooth_spectrogram_time(&raw, c.key_spectrogram_smooth_margin).unwrap_or(raw)
    } else {
        raw
    };
    let logf = if c.enable_key_log_frequency && !sp.is_empty() { convert_linear_to_log_frequency_spectrogram(&sp, sr, fft, 100.0, 5000.0).ok() } else { None };
    let tuning = if c.enable_key_tuning_compensation && !sp.is_empty() && logf.is_none() {
        let m = c.key_tuning_max_abs_semitones.abs();
        estimate_tuning_offset_semitones_from_spectrogram(&sp, sr, fft, 80.0, 2000.0, c.key_tuning_frame_step, c.key_tuning_peak_rel_threshold)
            .map(|d| d.clamp(-m, m))
            .unwrap_or(0.0)
    } else {
        0.0
    };
    let (soft, sigma) = (c.soft_chroma_mapping, c.soft_mapping_sigma);
    let call = if let Some(l) = &logf {
        // 100 Hz lies 26 semitones below 440 Hz, i.e. in the semitone numbered 31
        let first = (12.0 * (100f32 / 440.0).log2() + 57.0).floor() as i32;
        extract_chroma_from_log_frequency_spectrogram(l, first).map(|v| (v, l.iter().map(|f| f.iter().map(|x| x * x).sum()).collect::<Vec<f32>>()))
    } else if c.enable_key_beat_synchronous && !beats.is_empty() {
        extract_beat_synchronous_chroma(&sp, sr, fft, hop, beats, soft, sigma, tuning)
    } else if c.enable_key_hpcp && c.enable_key_hpcp_bass_blend {
        extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(
            &sp, sr, fft, sigma, tuning, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
            c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins, c.key_hpcp_bass_fmin_hz, c.key_hpcp_bass_fmax_hz, c.key_hpcp_bass_weight,
        )
    } else if c.enable_key_hpcp {
        extract_hpcp_from_spectrogram_with_options_and_energy_tuned(
            &sp, sr, fft, sigma, tuning, c.key_hpcp_peaks_per_frame, c.key_hpcp_num_harmonics, c.key_hpcp_harmonic_decay, c.key_hpcp_mag_power,
            c.enable_key_hpcp_whitening, c.key_hpcp_whitening_smooth_bins,
        )
    } else {
        extract_chroma_from_spectrogram_with_options_and_energy_tuned(&sp, sr, fft, soft, sigma, tuning)
    };
    let Ok((mut ch, en)) = call else { return Ok(none) };
    if c.chroma_sharpening_power > 1.0 {
        ch = ch.iter().map(|v| sharpen_chroma(v, c.chroma_sharpening_power)).collect();
    }
    if ch.len() > 5 {
        ch = smooth_chroma(&ch, 5);
    }
    let n = ch.len();
    let (mut a, mut z) = (0, n);
    if c.enable_key_edge_trim && n == en.len() && n >= 200 {
        let f = c.key_edge_trim_fraction.clamp(0.0, 0.49);
        let (p, q) = ((n as f32 * f).round() as usize, (n as f32 * (1.0 - f)).round() as usize);
        if q > p + 50 && q <= n {
            (a, z) = (p, q);
        }
    }
    let cs = &ch[a..z];
    let es = &en[a.min(en.len())..z.min(en.len())];
    let mut w: Option<Vec<f32>> = None;
    if c.enable_key_frame_weighting && !es.is_empty() && es.len() == cs.len() {
        let mut srt = es.to_vec();
        srt.sort_by(f32::total_cmp);
        let med = srt[srt.len() / 2].max(1e-12);
        let v: Vec<f32> = cs
            .iter()
            .zip(es)
            .map(|(ch, &e)| {
                let t = tonalness(ch);
                let t = if t < c.key_min_tonalness { 0.0 } else { t };
                t.powf(c.key_tonalness_power.max(0.0)) * (e / med).powf(c.key_energy_power.max(0.0))
            })
            .collect();
        let sum: f32 = v.iter().sum();
        if sum > 1e-12 && sum.is_finite() && v.iter().filter(|&&x| x > 0.0).count() >= 10 {
            w = Some(v);
        }
    }
    let wr = w.as_deref();
    let tpl = KeyTemplates::new_with_template_set(c.key_template_set);
    let (heur, bonus) = (c.enable_key_mode_heuristic, c.enable_key_minor_harmonic_bonus);
    let flip = if heur { c.key_mode_flip_min_score_ratio } else { 0.0 };
    let one = |v: &[Vec<f32>], w: Option<&[f32]>| {
        if heur || bonus {
            detect_key_weighted_mode_heuristic(v, &tpl, w, c.key_mode_third_ratio_margin, flip, bonus, c.key_minor_leading_tone_bonus_weight)
        } else {
            detect_key_weighted(v, &tpl, w)
        }
    };
    let route;
    let res = if c.enable_key_ensemble {
        route = "ensemble";
        detect_key_ensemble(cs, wr, c.key_ensemble_kk_weight, c.key_ensemble_temperley_weight)
    } else if c.enable_key_multi_scale && c.key_multi_scale_lengths.iter().min().is_some_and(|&m| cs.len() >= m) {
        route = "multi-scale";
        detect_key_multi_scale(
            cs, &tpl, wr, &c.key_multi_scale_lengths, c.key_multi_scale_hop.max(1), c.key_multi_scale_min_clarity.clamp(0.0, 1.0),
            (!c.key_multi_scale_weights.is_empty()).then_some(&c.key_multi_scale_weights[..]), heur, c.key_mode_third_ratio_margin, flip, bonus,
            c.key_minor_leading_tone_bonus_weight,
        )
    } else if c.enable_key_segment_voting && c.key_segment_len_frames >= 120 && cs.len() >= c.key_segment_len_frames && c.key_segment_hop_frames >= 1 {
        let len = c.key_segment_len_frames;
        let step = c.key_segment_hop_frames.min(len);
        let mut acc: Vec<(Key, f32)> = detect_key_weighted(cs, &tpl, wr)?.all_scores.iter().map(|x| (x.0, 0.0)).collect();
        let mut used = 0;
        let mut st = 0;
        while st + len <= cs.len() {
            let r = one(&cs[st..st + len], wr.map(|w| &w[st..st + len]))?;
            let cl = compute_key_clarity(&r.all_scores);
            if cl >= c.key_segment_min_clarity.clamp(0.0, 1.0) {
                used += 1;
                for (k, v) in &mut acc {
                    *v += cl * r.all_scores.iter().find(|x| x.0 == *k).map_or(0.0, |x| x.1);
                }
            }
            st += step;
        }
        if used == 0 {
            route = "segments unused";
            one(cs, wr)
        } else {
            route = "segments";
            acc.sort_by(|a, b| b.1.total_cmp(&a.1));
            let (b, s) = (acc[0].1, acc[1].1);
            Ok(KeyDetectionResult {
                key: acc[0].0,
                confidence: if b > 0.0 { ((b - s) / b).clamp(0.0, 1.0) } else { 0.0 },
                top_keys: acc[..3].to_vec(),
                all_scores: acc,
            })
        }
    } else {
        route = if heur || bonus { "mode heuristic" } else { "global" };
        one(cs, wr)
    };
    Ok(match res {
        Ok(r) => {
            let mut v: Vec<f32> = r.all_scores.iter().map(|x| x.1).collect();
            v.sort_by(|a, b| b.total_cmp(a));
            let lead = if v[0] > 0.0 { (v[0] - v[1]) / v[0] } else { 0.0 };
            // the best major and minor key usually tie; the template match then decides
            let temperley = if route == "ensemble" { c.key_ensemble_temperley_weight > c.key_ensemble_kk_weight } else { matches!(c.key_template_set, templates::TemplateSet::Temperley) };
            let split = crate::p_key::mode_lead(cs, wr, temperley).abs() > 1e-3 && v[1] - v[2] > 1e-4 * v[0];
            KeyOut {
                key: r.key,
                confidence: r.confidence,
                clarity: compute_key_clarity(&r.all_scores),
                clear: lead > 1e-4 || split,
                route,
                weighted: w.is_some(),
            }
        }
        Err(_) => none,
    })
}

pub struct Whole {
    pub samples: Vec<f32>,
    pub spec: Spec,
    pub on: Onsets,
    pub legacy: Option<BpmEstimate>,
}

pub fn front(x: &[f32], sr: u32, c: &AnalysisConfig) -> Result<Whole, E> {
    let samples = prepare(x, sr, c)?;
    if samples.is_empty() {
        return Err(E::ProcessingError("silent".into()));
    }
    let spec = compute_stft(&samples, c.frame_size, c.hop_size)?;
    let on = onsets(&samples, &spec, sr, c)?;
    let legacy = legacy(&on.chosen, sr, c)?;
    Ok(Whole { samples, spec, on, legacy })
}

/// Draw audio and a configuration, analyse, and prepare the reference front end.
fn both(t: &mut T, secs: f32, max: usize, focus: &[&str], rhythm: bool, tweak: fn(&mut T, &mut AnalysisConfig)) -> Result<Option<(AnalysisResult, Whole, AnalysisConfig, u32)>, Stop> {
    both_on(t, None, secs, max, focus, rhythm, tweak)
}

fn both_on(t: &mut T, rec: Option<Recipe>, secs: f32, max: usize, focus: &[&str], rhythm: bool, tweak: fn(&mut T, &mut AnalysisConfig)) -> Result<Option<(AnalysisResult, Whole, AnalysisConfig, u32)>, Stop> {
    let r = if let Some(r) = rec {
        r
    } else if rhythm && t.chance(2, 3) {
        let (lo, hi) = t.pick(&[(50.0, 90.0), (90.0, 180.0), (160.0, 240.0)]);
        rhythmic(t, lo, hi, secs)
    } else {
        recipe(t, secs)
    };
    let x = render(&r);
    let (mut c, _) = cfg::sane(t, max);
    tweak(t, &mut c);
    c.hpss_margin = c.hpss_margin.min(5);
    if !focus.is_empty() {
        cfg::alter_named(t, &mut c, focus, 6);
    }
    t.describe(|| format!("config[{}] {r:?}", cfg::diff(&c)));
    let got = analyze_audio(&x, r.sr, c.clone());
    match (got, front(&x, r.sr, &c)) {
        (Ok(a), Ok(w)) => Ok(Some((a, w, c, r.sr))),
        (Err(_), Err(_)) => Ok(None),
        (Ok(_), Err(e)) => fail(format!("analysis succeeded, but its own stages fail: {e}")),
        (Err(e), Ok(_)) => fail(format!("analysis failed ({e}) although every stage succeeds")),
    }
}

/// the separation into harmonic and percussive parts would dominate the cost of a full-length recording
fn frugal(_: &mut T, c: &mut AnalysisConfig) {
    c.enable_hpss_onsets = false;
    c.enable_tempogram_percussive_fallback = false;
}

fn tempo_long(t: &mut T) -> R {
    let r = full_length(t);
    let Some((a, w, c, sr)) = both_on(t, Some(r), 0.0, 3, &["enable_bpm_fusion", "force_legacy_bpm", "enable_legacy_bpm_guardrails", "emit_tempogram_candidates"], true, |t, c| {
        frugal(t, c);
        c.enable_key_stft_override = false;
        c.enable_key_hpss_harmonic = false;
    })? else { return Ok(()) };
    tempo_check(t, a, w, c, sr)
}

fn tempo_case(t: &mut T) -> R {
    const F: &[&str] = &[
        "enable_bpm_fusion", "force_legacy_bpm", "enable_tempogram_multi_resolution", "enable_tempogram_percussive_fallback",
        "emit_tempogram_candidates", "tempogram_candidates_top_n", "min_bpm", "max_bpm", "enable_tempogram_band_fusion",
        "enable_tempogram_mel_novelty", "tempogram_band_consensus_bonus", "enable_legacy_bpm_guardrails", "tempogram_multi_res_top_k",
    ];
    let Some((a, w, c, sr)) = both(t, 6.0, 4, F, true, |t, c| c.enable_tempogram_percussive_fallback = t.bool())? else { return Ok(()) };
    tempo_check(t, a, w, c, sr)
}

/// Recordings and settings aimed at the escalation rules.
fn escalation_case(t: &mut T) -> R {
    const F: &[&str] = &[
        "tempogram_multi_res_w512", "tempogram_multi_res_w256", "tempogram_multi_res_w1024", "tempogram_multi_res_structural_discount",
        "tempogram_multi_res_double_time_512_factor", "tempogram_multi_res_margin_threshold", "tempogram_multi_res_use_human_prior",
        "tempogram_multi_res_top_k", "tempogram_candidates_top_n", "enable_tempogram_band_fusion", "bpm_resolution",
    ];
    let r = ambiguous(t, 7.0);
    let Some((a, w, c, sr)) = both_on(t, Some(r), 9.0, 0, F, true, |t, c| {
        c.enable_tempogram_multi_resolution = true;
        c.enable_tempogram_percussive_fallback = !t.chance(1, 6);
        c.emit_tempogram_candidates = t.bool();
        c.enable_bpm_fusion = t.chance(1, 5);
        c.enable_key_stft_override = false;
        c.enable_key_segment_voting = false;
        c.frame_size = t.pick(&[1024, 2048, 512]);
        c.hpss_margin = t.pick(&[5, 2, 3, 1]);
        c.hop_size = t.pick(&[512, 1024, 256, 2048, 700, 300]).min(c.frame_size);
        // ranges that make the estimate land around the tempos the escalation rules compare with
        if let Some((a, b, x, y)) = t.pick(&[None, Some((140.0, 176.0, 182.0, 230.0)), Some((52.0, 60.0, 100.0, 200.0)), Some((58.0, 70.0, 130.0, 200.0)), Some((84.0, 100.0, 170.0, 215.0))]) {
            c.min_bpm = t.f(a, b);
            c.max_bpm = t.f(x, y);
        }
    })?
    else {
        return Ok(());
    };
    tempo_check(t, a, w, c, sr)
}

fn tempo_check(t: &mut T, a: AnalysisResult, w: Whole, c: AnalysisConfig, sr: u32) -> R {
    let mut tp = tempo(&w.samples, &w.spec, sr, &c);
    if c.enable_bpm_fusion {
        if let (Some(e), Some(l)) = (&tp.est, &w.legacy) {
            tp.close_call |= [1.0f32, 0.5, 2.0, 2.0 / 3.0, 1.5].iter().any(|k| ((l.bpm - e.bpm * k).abs() - 2.0).abs() < 1e-3);
        }
    }
    if tp.close_call {
        return Err(Stop::Discard);
    }
    for y in &tp.why {
        t.label(y);
    }
    let (bpm, conf) = decide(&tp, &w.legacy, &c);
    ensure!(close(a.bpm as f64, bpm as f64, 1e-5, 0.0), "tempo {}, its stages give {bpm}", a.bpm);
    ensure!(close(a.bpm_confidence as f64, conf as f64, 1e-4, 1e-5), "tempo confidence {}, its stages give {conf}", a.bpm_confidence);
    let m = &a.metadata;
    for (n, g, e) in [
        ("multi-resolution triggered", m.tempogram_multi_res_triggered, tp.mr_triggered),
        ("multi-resolution used", m.tempogram_multi_res_used, tp.mr_used),
        ("percussive triggered", m.tempogram_percussive_triggered, tp.perc_triggered),
        ("percussive used", m.tempogram_percussive_used, tp.perc_used),
    ] {
        ensure!(g == e, "{n}: {g:?}, expected {e:?}");
    }
    match (&m.tempogram_candidates, &tp.cands) {
        (None, None) => {}
        (Some(g), Some(e)) => {
            ensure!(g.len() == e.len(), "{} candidates, expected {}", g.len(), e.len());
            ensure!(g.len() <= c.tempogram_candidates_top_n, "{} candidates emitted, {} configured", g.len(), c.tempogram_candidates_top_n);
            for (x, y) in g.iter().zip(e) {
                ensure!(
                    close(x.bpm as f64, y.bpm as f64, 1e-5, 0.0) && close(x.score as f64, y.score as f64, 1e-4, 1e-6)
                        && close(x.fft_norm as f64, y.fft_norm as f64, 1e-4, 1e-6) && close(x.autocorr_norm as f64, y.autocorr_norm as f64, 1e-4, 1e-6),
                    "candidate {x:?}, expected {y:?}"
                );
                let d = (x.bpm - a.bpm).abs();
                if (d - 0.75).abs() > 1e-3 {
                    ensure!(x.selected == (d < 0.75), "candidate {} marked selected={} while the tempo is {}", x.bpm, x.selected, a.bpm);
                }
            }
            t.label("candidates");
        }
        (g, e) => return fail(format!("candidate list present: {}, expected {}", g.is_some(), e.is_some())),
    }
    if bpm > 0.0 {
        t.nontrivial();
    }
    if tp.mr_used == Some(true) {
        t.label("multi-resolution");
    }
    if tp.perc_used == Some(true) {
        t.label("percussive");
    }
    if tp.est.is_none() && bpm > 0.0 {
        t.label("legacy");
    }
    if c.enable_bpm_fusion && tp.est.is_some() && w.legacy.is_some() {
        t.label("fused");
    }
    Ok(())
}

fn beat_case(t: &mut T) -> R {
    const F: &[&str] = &[
        "enable_onset_consensus", "enable_hpss_onsets", "onset_threshold_percentile", "onset_consensus_tolerance_ms", "onset_consensus_weights",
        "hop_size", "frame_size", "force_legacy_bpm", "hpss_margin",
    ];
    let Some((a, w, _, sr)) = both(t, 6.0, 3, F, true, |_, _| ())? else { return Ok(()) };
    beat_check(t, a, w, sr)
}

fn beat_long(t: &mut T) -> R {
    let r = full_length(t);
    const F: &[&str] = &["enable_onset_consensus", "onset_threshold_percentile", "onset_consensus_tolerance_ms", "onset_consensus_weights", "force_legacy_bpm"];
    let Some((a, w, _, sr)) = both_on(t, Some(r), 0.0, 2, F, true, |t, c| {
        frugal(t, c);
        c.enable_key_stft_override = false;
        c.enable_key_hpss_harmonic = false;
    })? else { return Ok(()) };
    beat_check(t, a, w, sr)
}

fn beat_check(t: &mut T, a: AnalysisResult, w: Whole, sr: u32) -> R {
    let (g, stab) = grid(a.bpm, a.bpm_confidence, &w.on.chosen, sr);
    for (n, x, y) in [("beats", &a.beat_grid.beats, &g.beats), ("downbeats", &a.beat_grid.downbeats, &g.downbeats), ("bars", &a.beat_grid.bars, &g.bars)] {
        ensure!(x.len() == y.len(), "{} {n}, the onsets give {}", x.len(), y.len());
        for (p, q) in x.iter().zip(y) {
            ensure!(close(*p as f64, *q as f64, 1e-5, 1e-5), "{n}: {p}, the onsets give {q}");
        }
    }
    ensure!(close(a.grid_stability as f64, stab as f64, 1e-4, 1e-5), "grid stability {}, expected {stab}", a.grid_stability);
    // structure
    let b = &a.beat_grid.beats;
    let dur = w.samples.len() as f32 / sr as f32;
    ensure!(b.windows(2).all(|p| p[0] < p[1]), "beats are not in strictly increasing order: {}", fmtv(b));
    ensure!(b.iter().all(|&x| x >= 0.0 && x <= dur + 0.1001), "a beat lies outside the recording of {dur} s: {}", fmtv(b));
    ensure!(a.beat_grid.downbeats.windows(2).all(|p| p[0] < p[1]), "downbeats out of order");
    ensure!(a.beat_grid.downbeats.iter().all(|d| b.contains(d)), "a downbeat is not one of the beats");
    ensure!(b.is_empty() == a.beat_grid.downbeats.is_empty(), "{} beats but {} downbeats", b.len(), a.beat_grid.downbeats.len());
    ensure!(a.bpm > 0.0 || b.is_empty(), "beats without a tempo");
    let oc = if w.on.energy.is_empty() { 0.0 } else { 1.0 };
    ensure!(a.metadata.onset_method_consensus == oc, "onset agreement {}, expected {oc}", a.metadata.onset_method_consensus);
    if b.len() >= 4 {
        t.nontrivial();
    }
    if w.on.by_vote {
        t.label("voted onsets");
    }
    Ok(())
}

const KEY_F: &[&str] = &[
        "enable_key_ensemble", "enable_key_multi_scale", "enable_key_segment_voting", "enable_key_mode_heuristic", "enable_key_minor_harmonic_bonus",
        "enable_key_hpcp", "enable_key_hpcp_bass_blend", "enable_key_hpcp_whitening", "enable_key_log_frequency", "enable_key_beat_synchronous",
        "enable_key_tuning_compensation", "enable_key_edge_trim", "enable_key_frame_weighting", "enable_key_harmonic_mask", "key_template_set",
        "key_edge_trim_fraction", "soft_chroma_mapping", "chroma_sharpening_power", "key_segment_min_clarity", "key_min_tonalness", "key_energy_power",
];

fn key_long(t: &mut T) -> R {
    let r = full_length(t);
    let Some((a, w, c, sr)) = both_on(t, Some(r), 0.0, 2, KEY_F, false, |t, c| {
        frugal(t, c);
        c.enable_tempogram_multi_resolution = false;
        c.key_stft_frame_size = t.pick(&[4096, 2048, 8192]);
        c.enable_key_hpss_harmonic = t.chance(1, 4);
    })? else { return Ok(()) };
    key_check(t, a, w, c, sr)
}

fn key_case(t: &mut T) -> R {
    const F: &[&str] = &[
        "enable_key_ensemble", "enable_key_multi_scale", "enable_key_segment_voting", "enable_key_mode_heuristic", "enable_key_minor_harmonic_bonus",
        "enable_key_hpcp", "enable_key_hpcp_bass_blend", "enable_key_hpcp_whitening", "enable_key_log_frequency", "enable_key_beat_synchronous",
        "enable_key_tuning_compensation", "enable_key_edge_trim", "enable_key_frame_weighting", "enable_key_stft_override", "enable_key_hpss_harmonic",
        "enable_key_harmonic_mask", "key_segment_len_frames", "key_segment_hop_frames", "key_multi_scale_lengths", "key_template_set",
        "key_edge_trim_fraction", "soft_chroma_mapping", "chroma_sharpening_power", "key_stft_hop_size", "key_stft_frame_size", "key_segment_min_clarity",
        "key_min_tonalness", "key_energy_power",
    ];
    let secs = if t.chance(1, 10) { 0.8 } else { 6.0 };
    let Some((a, w, c, sr)) = both(t, secs, 3, F, false, |t, c| {
        if t.chance(1, 3) {
            // windowed voting needs many frames: shorten the windows and the hop
            c.key_segment_len_frames = t.pick(&[120usize, 150, 200]);
            c.key_segment_hop_frames = t.pick(&[30usize, 60, 7, 500]);
            c.key_stft_hop_size = t.pick(&[128usize, 200]);
            c.key_segment_min_clarity = t.pick(&[0.0f32, 0.2, 0.3, 0.6]);
        } else if t.chance(1, 4) {
            c.enable_key_multi_scale = true;
            c.key_multi_scale_lengths = t.pick(&[vec![20usize, 50], vec![30], vec![10, 80, 40], vec![400, 15]]);
            c.key_multi_scale_hop = t.pick(&[10usize, 5, 40]);
        } else if t.chance(1, 6) {
            c.enable_key_ensemble = true;
            c.key_ensemble_kk_weight = t.pick(&[0.0f32, 0.03, 0.5, 1.0]);
            c.key_ensemble_temperley_weight = t.pick(&[1.0f32, 0.2, 0.05, 0.0]);
        }
    })? else { return Ok(()) };
    key_check(t, a, w, c, sr)
}

fn key_check(t: &mut T, a: AnalysisResult, w: Whole, c: AnalysisConfig, sr: u32) -> R {
    let k = key(&w.samples, &w.spec, sr, &c, &a.beat_grid.beats).map_err(|e| Stop::Fail(format!("analysis succeeded, key stage fails: {e}")))?;
    if k.clear {
        t.label(if matches!(k.key, Key::Minor(_)) { "minor" } else { "major" });
        ensure!(a.key == k.key, "key {:?}, its stages ({}) give {:?}", a.key, k.route, k.key);
    }
    ensure!(close(a.key_confidence as f64, k.confidence as f64, 1e-3, 1e-4), "key confidence {}, its stages ({}) give {}", a.key_confidence, k.route, k.confidence);
    ensure!(close(a.key_clarity as f64, k.clarity as f64, 1e-3, 1e-4), "key clarity {}, its stages ({}) give {}", a.key_clarity, k.route, k.clarity);
    if k.route != "none" {
        t.nontrivial();
    }
    t.label(k.route);
    if k.weighted {
        t.label("weighted");
    }
    Ok(())
}

fn report_case(t: &mut T) -> R {
    let Some((a, w, c, sr)) = both(t, 3.0, 10, &[], true, |_, _| ())? else {
        return Ok(());
    };
    report_check(t, a, w, c, sr)
}

fn report_long(t: &mut T) -> R {
    let r = full_length(t);
    let Some((a, w, c, sr)) = both_on(t, Some(r), 0.0, 6, &[], true, |t, c| {
        frugal(t, c);
        c.enable_key_stft_override = false;
        c.enable_key_hpss_harmonic = false;
    })? else { return Ok(()) };
    report_check(t, a, w, c, sr)
}

fn report_check(t: &mut T, a: AnalysisResult, w: Whole, c: AnalysisConfig, sr: u32) -> R {
    let m = &a.metadata;
    let dur = w.samples.len() as f64 / sr as f64;
    ensure!(close(m.duration_seconds as f64, dur, 1e-5, 0.0), "duration {}, the trimmed recording has {dur} s", m.duration_seconds);
    ensure!(m.sample_rate == sr, "sample rate {}", m.sample_rate);
    let has = |s: &str| m.confidence_warnings.iter().any(|x| x.contains(s));
    ensure!(has("BPM detection failed") == (a.bpm == 0.0), "tempo {} with warnings {:?}", a.bpm, m.confidence_warnings);
    ensure!(has("beat grid stability") == (a.grid_stability < 0.5), "grid stability {} with warnings {:?}", a.grid_stability, m.confidence_warnings);
    ensure!(has("key detection confidence") == (a.key_confidence < 0.3), "key confidence {} with warnings {:?}", a.key_confidence, m.confidence_warnings);
    ensure!(has("key clarity") == (a.key_clarity < 0.2), "key clarity {} with warnings {:?}", a.key_clarity, m.confidence_warnings);
    let want = (a.bpm == 0.0) as usize + (a.grid_stability < 0.5) as usize + (a.key_confidence < 0.3) as usize + (a.key_clarity < 0.2) as usize;
    for (w, v) in [("beat grid stability", a.grid_stability), ("key detection confidence", a.key_confidence), ("key clarity", a.key_clarity)] {
        if let Some(x) = m.confidence_warnings.iter().find(|x| x.contains(w)) {
            let quoted = x.split(|c: char| !(c.is_ascii_digit() || c == '.')).filter_map(|y| y.parse::<f32>().ok()).next();
            ensure!(quoted.is_some_and(|q| (q - v).abs() <= 0.0051), "warning {x:?} for a value of {v}");
        }
    }
    ensure!(m.confidence_warnings.len() == want, "{} warnings, expected {want}: {:?}", m.confidence_warnings.len(), m.confidence_warnings);
    let weak = m.flags.iter().filter(|f| matches!(f, AnalysisFlag::WeakTonality)).count();
    ensure!(weak == (a.key_clarity < 0.2) as usize && m.flags.len() == weak, "key clarity {} with flags {:?}", a.key_clarity, m.flags);
    ensure!(!m.algorithm_version.is_empty() && !m.methods_used.is_empty(), "no version or methods reported");
    ensure!(
        m.tempogram_candidates.is_some() <= (c.emit_tempogram_candidates && !c.force_legacy_bpm),
        "candidates emitted without being asked for"
    );
    if want < 4 {
        t.nontrivial();
    }
    if a.key_clarity >= 0.2 {
        t.label("tonal");
    }
    if a.grid_stability >= 0.5 {
        t.label("stable grid");
    }
    if a.bpm == 0.0 {
        t.label("no tempo");
    }
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    let p = |name, quick, thorough, f| Part { name, quick, thorough, f, serial: false };
    v.push(Property {
        id: "C03",
        rule: "the reported grid has at least four beats",
        assumptions: &[],
        parts: vec![p("grid", 1200, 40000, beat_case as fn(&mut T) -> R), p("full-length", 40, 600, beat_long)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C30",
        rule: "at least one of the four warnings is absent",
        assumptions: &[],
        parts: vec![p("report", 1500, 40000, report_case as fn(&mut T) -> R), p("full-length", 16, 400, report_long)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C31",
        rule: "a tempo was reported",
        assumptions: &[],
        parts: vec![p("tempo", 1000, 30000, tempo_case as fn(&mut T) -> R), p("escalation", 2500, 60000, escalation_case), p("full-length", 24, 600, tempo_long)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C32",
        rule: "a key was actually detected (not the default for missing material)",
        assumptions: &[],
        parts: vec![p("key", 1200, 40000, key_case as fn(&mut T) -> R), p("full-length", 24, 600, key_long)],
        hang_is_violation: false,
    });
}
