//! Generator of analysis configurations: the default with a drawn set of settings changed.
use crate::engine::T;
use stratum_dsp::features::key::templates::TemplateSet;
use stratum_dsp::preprocessing::normalization::NormalizationMethod;
use stratum_dsp::AnalysisConfig;

type Set = (&'static str, fn(&mut T, &mut AnalysisConfig));

macro_rules! flag {
    ($f:ident) => {
        (stringify!($f), |_t: &mut T, c: &mut AnalysisConfig| c.$f = !c.$f)
    };
}
macro_rules! pick {
    ($f:ident, $($v:expr),+) => {
        (stringify!($f), |t: &mut T, c: &mut AnalysisConfig| c.$f = t.pick(&[$($v),+]))
    };
}
macro_rules! range {
    ($f:ident, $a:expr, $b:expr) => {
        (stringify!($f), |t: &mut T, c: &mut AnalysisConfig| c.$f = t.f($a, $b))
    };
}

/// Settings within their documented domains.
pub const SANE: &[Set] = &[
    pick!(min_amplitude_db, -60.0, -30.0, -20.0, -80.0, -10.0),
    pick!(normalization, NormalizationMethod::RMS, NormalizationMethod::Loudness, NormalizationMethod::Peak),
    flag!(enable_normalization),
    flag!(enable_silence_trimming),
    flag!(enable_onset_consensus),
    range!(onset_threshold_percentile, 0.0, 1.0),
    pick!(onset_consensus_tolerance_ms, 20, 100, 5, 200, 1),
    ("onset_consensus_weights", |t, c| {
        for w in c.onset_consensus_weights.iter_mut() {
            *w = t.f(0.0, 1.0);
        }
    }),
    flag!(enable_hpss_onsets),
    pick!(hpss_margin, 5, 2, 15, 1),
    flag!(force_legacy_bpm),
    flag!(enable_bpm_fusion),
    flag!(enable_legacy_bpm_guardrails),
    flag!(enable_tempogram_multi_resolution),
    pick!(tempogram_multi_res_top_k, 1, 5, 50),
    range!(tempogram_multi_res_w512, 0.0, 1.0),
    range!(tempogram_multi_res_w256, 0.0, 1.0),
    range!(tempogram_multi_res_w1024, 0.0, 1.0),
    range!(tempogram_multi_res_structural_discount, 0.3, 1.0),
    range!(tempogram_multi_res_double_time_512_factor, 0.3, 1.0),
    range!(tempogram_multi_res_margin_threshold, 0.0, 0.5),
    flag!(tempogram_multi_res_use_human_prior),
    flag!(enable_tempogram_percussive_fallback),
    flag!(enable_tempogram_band_fusion),
    range!(tempogram_band_low_max_hz, 80.0, 400.0),
    range!(tempogram_band_mid_max_hz, 500.0, 3000.0),
    range!(tempogram_band_high_max_hz, 3100.0, 12000.0),
    range!(tempogram_band_w_full, 0.0, 1.0),
    range!(tempogram_band_w_low, 0.0, 1.0),
    range!(tempogram_band_w_mid, 0.0, 1.0),
    range!(tempogram_band_w_high, 0.0, 1.0),
    flag!(tempogram_band_seed_only),
    range!(tempogram_band_support_threshold, 0.0, 1.0),
    range!(tempogram_band_consensus_bonus, 0.0, 0.3),
    range!(tempogram_novelty_w_spectral, 0.0, 1.0),
    range!(tempogram_novelty_w_energy, 0.0, 1.0),
    range!(tempogram_novelty_w_hfc, 0.0, 1.0),
    pick!(tempogram_novelty_local_mean_window, 8, 32, 1, 0),
    pick!(tempogram_novelty_smooth_window, 3, 9, 1, 0),
    flag!(enable_tempogram_mel_novelty),
    pick!(tempogram_mel_n_mels, 20, 8, 64),
    range!(tempogram_mel_fmin_hz, 0.0, 200.0),
    pick!(tempogram_mel_fmax_hz, 4000.0, 0.0, 16000.0),
    pick!(tempogram_mel_max_filter_bins, 0, 1, 5),
    range!(tempogram_mel_weight, 0.0, 1.0),
    pick!(tempogram_superflux_max_filter_bins, 0, 1, 8),
    flag!(emit_tempogram_candidates),
    pick!(tempogram_candidates_top_n, 1, 3, 50, 0, 25),
    range!(legacy_bpm_preferred_min, 61.0, 100.0),
    range!(legacy_bpm_preferred_max, 120.0, 200.0),
    range!(legacy_bpm_soft_min, 30.0, 60.0),
    range!(legacy_bpm_soft_max, 200.0, 260.0),
    range!(legacy_bpm_conf_mul_preferred, 0.5, 2.0),
    range!(legacy_bpm_conf_mul_soft, 0.1, 1.0),
    range!(legacy_bpm_conf_mul_extreme, 0.0, 1.0),
    range!(min_bpm, 30.0, 90.0),
    range!(max_bpm, 100.0, 300.0),
    pick!(bpm_resolution, 0.5, 2.0, 0.25, 5.0),
    pick!(frame_size, 1024, 512, 4096, 1000, 256),
    pick!(hop_size, 256, 128, 1024, 300),
    flag!(soft_chroma_mapping),
    range!(soft_mapping_sigma, 0.1, 1.5),
    range!(chroma_sharpening_power, 1.0, 3.0),
    flag!(enable_key_spectrogram_time_smoothing),
    pick!(key_spectrogram_smooth_margin, 0, 3, 30),
    flag!(enable_key_frame_weighting),
    range!(key_min_tonalness, 0.0, 0.6),
    range!(key_tonalness_power, 0.0, 4.0),
    range!(key_energy_power, 0.0, 2.0),
    flag!(enable_key_harmonic_mask),
    range!(key_harmonic_mask_power, 0.5, 4.0),
    flag!(enable_key_hpss_harmonic),
    pick!(key_hpss_frame_step, 1, 2, 8),
    pick!(key_hpss_time_margin, 1, 3, 15),
    pick!(key_hpss_freq_margin, 1, 3, 15),
    range!(key_hpss_mask_power, 0.5, 4.0),
    flag!(enable_key_stft_override),
    pick!(key_stft_frame_size, 4096, 2048, 1024, 16384),
    pick!(key_stft_hop_size, 256, 1024, 128),
    flag!(enable_key_log_frequency),
    flag!(enable_key_beat_synchronous),
    flag!(enable_key_multi_scale),
    pick!(key_template_set, TemplateSet::Temperley, TemplateSet::KrumhanslKessler),
    flag!(enable_key_ensemble),
    range!(key_ensemble_kk_weight, 0.0, 1.0),
    range!(key_ensemble_temperley_weight, 0.0, 1.0),
    ("key_multi_scale_lengths", |t, c| {
        let n = t.us(0, 3);
        c.key_multi_scale_lengths = (0..n).map(|_| t.pick(&[20usize, 60, 120, 5, 360])).collect();
        c.key_multi_scale_weights = if t.bool() { vec![] } else { (0..n).map(|_| t.f(0.1, 2.0)).collect() };
    }),
    pick!(key_multi_scale_hop, 10, 30, 1, 60),
    range!(key_multi_scale_min_clarity, 0.0, 0.6),
    flag!(enable_key_tuning_compensation),
    range!(key_tuning_max_abs_semitones, 0.0, 0.5),
    pick!(key_tuning_frame_step, 1, 5, 40),
    range!(key_tuning_peak_rel_threshold, 0.05, 0.9),
    flag!(enable_key_edge_trim),
    range!(key_edge_trim_fraction, 0.0, 0.45),
    flag!(enable_key_segment_voting),
    pick!(key_segment_len_frames, 120, 200, 300, 119, 50),
    pick!(key_segment_hop_frames, 60, 30, 400, 1),
    range!(key_segment_min_clarity, 0.0, 1.0),
    flag!(enable_key_mode_heuristic),
    range!(key_mode_third_ratio_margin, 0.0, 0.5),
    range!(key_mode_flip_min_score_ratio, 0.3, 1.0),
    flag!(enable_key_hpcp),
    pick!(key_hpcp_peaks_per_frame, 8, 4, 60),
    pick!(key_hpcp_num_harmonics, 1, 2, 8),
    range!(key_hpcp_harmonic_decay, 0.1, 1.0),
    range!(key_hpcp_mag_power, 0.2, 2.0),
    flag!(enable_key_hpcp_whitening),
    pick!(key_hpcp_whitening_smooth_bins, 11, 3, 61),
    flag!(enable_key_hpcp_bass_blend),
    range!(key_hpcp_bass_fmin_hz, 30.0, 100.0),
    range!(key_hpcp_bass_fmax_hz, 150.0, 500.0),
    range!(key_hpcp_bass_weight, 0.0, 1.0),
    flag!(enable_key_minor_harmonic_bonus),
    range!(key_minor_leading_tone_bonus_weight, 0.0, 1.0),
];

macro_rules! wf {
    ($($f:ident),+ $(,)?) => {
        &[$((stringify!($f), |t: &mut T, c: &mut AnalysisConfig| c.$f = wild(t))),+]
    };
}
macro_rules! wu {
    ($($f:ident),+ $(,)?) => {
        &[$((stringify!($f), |t: &mut T, c: &mut AnalysisConfig| c.$f = t.pick(&[0usize, 1, 2, 3, 7, 40, 5000]))),+]
    };
}

fn wild(t: &mut T) -> f32 {
    t.pick(&[0.0f32, -1.0, 1e-12, 1e9, 0.5, 3.0, -1e9, 200.0])
}

/// Numeric settings outside their documented domains.
pub const WILD_F: &[Set] = wf!(
    min_amplitude_db, onset_threshold_percentile, tempogram_multi_res_w512, tempogram_multi_res_w256, tempogram_multi_res_w1024,
    tempogram_multi_res_structural_discount, tempogram_multi_res_double_time_512_factor, tempogram_multi_res_margin_threshold,
    tempogram_band_low_max_hz, tempogram_band_mid_max_hz, tempogram_band_high_max_hz, tempogram_band_w_full, tempogram_band_w_low,
    tempogram_band_w_mid, tempogram_band_w_high, tempogram_band_support_threshold, tempogram_band_consensus_bonus,
    tempogram_novelty_w_spectral, tempogram_novelty_w_energy, tempogram_novelty_w_hfc, tempogram_mel_fmin_hz, tempogram_mel_fmax_hz,
    tempogram_mel_weight, legacy_bpm_preferred_min, legacy_bpm_preferred_max, legacy_bpm_soft_min, legacy_bpm_soft_max,
    legacy_bpm_conf_mul_preferred, legacy_bpm_conf_mul_soft, legacy_bpm_conf_mul_extreme, min_bpm, max_bpm, bpm_resolution,
    soft_mapping_sigma, chroma_sharpening_power, key_min_tonalness, key_tonalness_power, key_energy_power, key_harmonic_mask_power,
    key_hpss_mask_power, key_ensemble_kk_weight, key_ensemble_temperley_weight, key_multi_scale_min_clarity,
    key_tuning_max_abs_semitones, key_tuning_peak_rel_threshold, key_edge_trim_fraction, key_segment_min_clarity,
    key_mode_third_ratio_margin, key_mode_flip_min_score_ratio, key_hpcp_harmonic_decay, key_hpcp_mag_power, key_hpcp_bass_fmin_hz,
    key_hpcp_bass_fmax_hz, key_hpcp_bass_weight, key_minor_leading_tone_bonus_weight,
);
pub const WILD_U: &[Set] = wu!(
    hpss_margin, key_hpss_time_margin, key_hpss_freq_margin, hop_size, key_stft_hop_size, tempogram_multi_res_top_k, tempogram_novelty_local_mean_window, tempogram_novelty_smooth_window, tempogram_mel_n_mels,
    tempogram_mel_max_filter_bins, tempogram_superflux_max_filter_bins, tempogram_candidates_top_n, frame_size,
    key_spectrogram_smooth_margin, key_hpss_frame_step, key_stft_frame_size,
    key_multi_scale_hop, key_tuning_frame_step, key_segment_len_frames, key_segment_hop_frames,
    key_hpcp_peaks_per_frame, key_hpcp_num_harmonics, key_hpcp_whitening_smooth_bins,
);

/// The default configuration with up to `max` settings redrawn from `sets`.
pub fn alter(t: &mut T, c: &mut AnalysisConfig, sets: &[Set], max: usize) -> Vec<&'static str> {
    let n = t.us(0, max);
    let mut names = vec![];
    for _ in 0..n {
        let i = t.us(0, sets.len() - 1);
        (sets[i].1)(t, c);
        names.push(sets[i].0);
    }
    // Work grows with the window widths and with 1/hop: keep it bounded.
    for m in [&mut c.hpss_margin, &mut c.key_hpss_time_margin, &mut c.key_hpss_freq_margin] {
        *m = (*m).min(40);
    }
    for h in [&mut c.hop_size, &mut c.key_stft_hop_size] {
        if (1..32).contains(h) {
            *h = 32;
        }
    }
    names
}

pub fn sane(t: &mut T, max: usize) -> (AnalysisConfig, Vec<&'static str>) {
    let mut c = AnalysisConfig::default();
    // the key spectrogram of the default is the main cost; shrink it most of the time
    if t.chance(3, 4) {
        c.key_stft_frame_size = 2048;
    }
    plain_tempogram(t, &mut c);
    let names = alter(t, &mut c, SANE, max);
    (c, names)
}

/// One time in four, no auxiliary novelty curve and no band support: the plain tempogram.
pub fn plain_tempogram(t: &mut T, c: &mut AnalysisConfig) {
    if t.chance(1, 4) {
        c.tempogram_band_consensus_bonus = 0.0;
        c.enable_tempogram_band_fusion = false;
        c.enable_tempogram_mel_novelty = false;
    }
}

/// Text of the settings that differ from the default.
pub fn diff(c: &AnalysisConfig) -> String {
    let a = format!("{:#?}", AnalysisConfig::default());
    let b = format!("{:#?}", c);
    let (a, b): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    let base: std::collections::HashSet<&str> = a.into_iter().collect();
    b.into_iter().filter(|l| !base.contains(l)).map(|l| l.trim()).collect::<Vec<_>>().join(" ")
}

/// Redraw up to `max` of the named settings.
pub fn alter_named(t: &mut T, c: &mut AnalysisConfig, names: &[&str], max: usize) {
    for _ in 0..t.us(0, max) {
        let n = names[t.us(0, names.len() - 1)];
        let s = SANE.iter().find(|s| s.0 == n).unwrap_or_else(|| panic!("no setting {n}"));
        (s.1)(t, c);
    }
}

/// Switch whole stages on and off, more often than single settings are redrawn.
pub fn stages(t: &mut T, c: &mut AnalysisConfig) {
    c.normalization = t.pick(&[NormalizationMethod::Peak, NormalizationMethod::Loudness, NormalizationMethod::RMS]);
    for f in [
        &mut c.enable_bpm_fusion,
        &mut c.enable_tempogram_multi_resolution,
        &mut c.enable_tempogram_percussive_fallback,
        &mut c.enable_tempogram_band_fusion,
        &mut c.enable_tempogram_mel_novelty,
        &mut c.enable_key_stft_override,
        &mut c.enable_key_log_frequency,
        &mut c.enable_key_hpss_harmonic,
        &mut c.enable_key_harmonic_mask,
        &mut c.enable_key_tuning_compensation,
        &mut c.enable_key_hpcp,
        &mut c.enable_key_ensemble,
        &mut c.enable_key_multi_scale,
        &mut c.enable_key_segment_voting,
        &mut c.enable_key_beat_synchronous,
        &mut c.enable_key_mode_heuristic,
        &mut c.force_legacy_bpm,
    ] {
        if t.chance(1, 4) {
            *f = !*f;
        }
    }
}
