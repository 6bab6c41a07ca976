//! Accuracy on unambiguous material: tempo of steady pulses, key of plain cadences.
use crate::engine::*;
use crate::gen::*;
use std::f64::consts::PI;
use stratum_dsp::analysis::result::Key;
use stratum_dsp::preprocessing::normalization::NormalizationMethod;
use stratum_dsp::{analyze_audio, AnalysisConfig};

/// Broadband decaying clicks, all alike, at a steady tempo.
pub fn pulses(sr: u32, bpm: f64, secs: f64, offset: f64, decay: f64, hz: f64, noise: f64, seed: u64) -> Vec<f32> {
    let n = (secs * sr as f64) as usize;
    let mut x = vec![0f64; n];
    let mut rng = Rng::new(seed);
    add_layer(&mut x, sr as f64, &Layer::Clicks { bpm, offset_s: offset, decay_s: decay, tone_hz: hz, amp: 0.8, jitter_s: 0.0, accent: 0 }, &mut rng);
    if noise > 0.0 {
        add_layer(&mut x, sr as f64, &Layer::Noise { amp: noise }, &mut rng);
    }
    x.iter().map(|&v| v.clamp(-1.0, 1.0) as f32).collect()
}

fn tempo_long(t: &mut T) -> R {
    let sr = t.pick(&[16000u32, 22050]);
    let bpm = t.f(72.0, 155.0) as f64;
    let secs = if t.chance(1, 4) { t.f(120.0, 360.0) } else { t.f(40.0, 120.0) } as f64;
    let offset = t.f(0.0, 0.5) as f64;
    let decay = t.f(0.005, 0.03) as f64;
    let hz = t.pick(&[1000.0, 200.0, 3000.0]);
    let noise = t.pick(&[0.0, 0.001, 0.01]);
    let seed = t.draw(0xFFFF);
    let mut c = AnalysisConfig::default();
    c.enable_hpss_onsets = false;
    c.enable_key_stft_override = false;
    c.enable_key_hpss_harmonic = false;
    c.enable_bpm_fusion = t.bool();
    c.enable_tempogram_multi_resolution = !t.chance(1, 4);
    t.describe(|| format!("{bpm} BPM pulses of {decay} s at {hz} Hz, {secs} s at {sr} Hz from {offset} s, noise {noise}, config[{}]", crate::cfg::diff(&c)));
    let x = pulses(sr, bpm, secs, offset, decay, hz, noise, seed);
    let a = analyze_audio(&x, sr, c).map_err(|e| Stop::Fail(format!("{e}")))?;
    t.nontrivial();
    ensure!((a.bpm as f64 / bpm - 1.0).abs() < 0.04, "steady pulses at {bpm} BPM reported as {} BPM", a.bpm);
    Ok(())
}

fn tempo_case(t: &mut T) -> R {
    let sr = t.pick(&[22050u32, 44100, 48000, 16000, 32000]);
    let bpm = t.f(72.0, 155.0) as f64;
    let secs = t.f(10.0, 18.0) as f64;
    let offset = t.f(0.0, 0.5) as f64;
    let decay = t.f(0.005, 0.03) as f64;
    let hz = t.pick(&[1000.0, 200.0, 3000.0]);
    let noise = t.pick(&[0.0, 0.001, 0.01]);
    let seed = t.draw(0xFFFF);
    let mut c = AnalysisConfig::default();
    c.key_stft_frame_size = 2048;
    c.enable_bpm_fusion = t.bool();
    let alt = t.us(0, 8);
    match alt {
        0 => c.enable_tempogram_multi_resolution = false,
        1 => c.enable_hpss_onsets = true,
        2 => c.normalization = NormalizationMethod::RMS,
        3 => c.enable_onset_consensus = false,
        4 => c.enable_silence_trimming = false,
        5 => c.enable_normalization = false,
        6 => c.enable_tempogram_band_fusion = false,
        7 => c.enable_tempogram_percussive_fallback = true,
        8 => c.emit_tempogram_candidates = true,
        _ => {}
    }
    t.describe(|| format!("{bpm} BPM pulses of {decay} s at {hz} Hz, {secs} s at {sr} Hz from {offset} s, noise {noise}, config[{}]", crate::cfg::diff(&c)));
    let x = pulses(sr, bpm, secs, offset, decay, hz, noise, seed);
    let a = analyze_audio(&x, sr, c).map_err(|e| Stop::Fail(format!("{e}")))?;
    t.nontrivial();
    ensure!((a.bpm as f64 / bpm - 1.0).abs() < 0.04, "steady pulses at {bpm} BPM reported as {} BPM", a.bpm);
    Ok(())
}

/// I-IV-V-I (minor: i-iv-V-i) cadence in root position with a bass, repeated.
pub fn cadence(sr: u32, tonic: i32, minor: bool, secs: f64, chord_s: f64, harmonics: usize, octave: i32, detune: f64) -> Vec<f32> {
    let n = (secs * sr as f64) as usize;
    let mut x = vec![0f64; n];
    let third = if minor { 3 } else { 4 };
    let prog: [(i32, i32); 4] = [(0, third), (5, third), (7, 4), (0, third)];
    for (i, v) in x.iter_mut().enumerate() {
        let tm = i as f64 / sr as f64;
        let k = (tm / chord_s) as usize;
        let (root, th) = prog[k % 4];
        let ph = tm - k as f64 * chord_s;
        let env = (ph / 0.02).min(1.0) * ((chord_s - ph) / 0.02).clamp(0.0, 1.0);
        for (m, amp) in [(root - 12, 0.12), (root, 0.1), (root + th, 0.1), (root + 7, 0.1)] {
            let f = note_hz((12 * (octave + 1) + tonic + m) as f64 + detune);
            for h in 1..=harmonics {
                let fh = f * h as f64;
                if fh < sr as f64 / 2.0 {
                    *v += env * amp / (h * h) as f64 * (2.0 * PI * fh * tm).sin();
                }
            }
        }
    }
    x.iter().map(|&v| v.clamp(-1.0, 1.0) as f32).collect()
}

fn key_long(t: &mut T) -> R {
    let sr = 22050u32;
    let tonic = t.int(0, 11) as i32;
    let minor = t.bool();
    let chord_s = t.pick(&[0.5f64, 0.75, 1.0]);
    let reps = if t.chance(1, 4) { 240.0 } else { 80.0 } / (4.0 * chord_s);
    let secs = chord_s * 4.0 * t.us(10, reps as usize) as f64;
    let harmonics = t.us(1, 3);
    let octave = t.int(4, 5) as i32;
    let detune = t.f(-0.08, 0.08) as f64;
    let mut c = AnalysisConfig::default();
    c.enable_hpss_onsets = false;
    c.enable_key_hpss_harmonic = t.chance(1, 3);
    c.enable_tempogram_multi_resolution = false;
    match t.us(0, 6) {
        1 => c.enable_key_ensemble = true,
        2 => c.key_template_set = stratum_dsp::features::key::templates::TemplateSet::Temperley,
        3 => c.enable_key_frame_weighting = false,
        4 => c.enable_key_segment_voting = false,
        5 => c.enable_key_mode_heuristic = true,
        _ => {}
    }
    t.describe(|| format!("tonic={tonic} minor={minor} chord={chord_s} secs={secs} harmonics={harmonics} octave={octave} detune={detune} sr={sr} config[{}]", crate::cfg::diff(&c)));
    let x = cadence(sr, tonic, minor, secs, chord_s, harmonics, octave, detune);
    let a = analyze_audio(&x, sr, c).map_err(|e| Stop::Fail(format!("{e}")))?;
    let want = if minor { Key::Minor(tonic as u32) } else { Key::Major(tonic as u32) };
    t.nontrivial();
    t.label(if minor { "minor" } else { "major" });
    ensure!(a.key == want, "a plain cadence in {want:?} was reported as {:?}", a.key);
    Ok(())
}

fn key_case(t: &mut T) -> R {
    let sr = t.pick(&[22050u32, 44100, 32000, 48000]);
    let tonic = t.int(0, 11) as i32;
    let minor = t.bool();
    let chord_s = t.pick(&[0.5f64, 0.75, 1.0]);
    let secs = chord_s * 4.0 * t.us(2, 5) as f64;
    let harmonics = t.us(1, 4);
    let octave = t.int(4, 5) as i32;
    let detune = t.f(-0.08, 0.08) as f64;
    let mut c = AnalysisConfig::default();
    let alt = t.us(0, 8);
    match alt {
        0 => c.enable_key_hpss_harmonic = false,
        1 => c.enable_key_ensemble = true,
        2 => c.key_template_set = stratum_dsp::features::key::templates::TemplateSet::Temperley,
        3 => c.enable_key_frame_weighting = false,
        4 => c.enable_key_harmonic_mask = false,
        5 => c.enable_key_segment_voting = false,
        6 => c.enable_key_mode_heuristic = true,
        8 => c.enable_key_tuning_compensation = true,
        _ => {}
    }
    t.describe(|| format!("tonic={tonic} minor={minor} chord={chord_s} secs={secs} harmonics={harmonics} octave={octave} detune={detune} sr={sr} config[{}]", crate::cfg::diff(&c)));
    let x = cadence(sr, tonic, minor, secs, chord_s, harmonics, octave, detune);
    let a = analyze_audio(&x, sr, c).map_err(|e| Stop::Fail(format!("{e}")))?;
    let want = if minor { Key::Minor(tonic as u32) } else { Key::Major(tonic as u32) };
    t.nontrivial();
    t.label(if minor { "minor" } else { "major" });
    ensure!(a.key == want, "a plain cadence in {want:?} was reported as {:?}", a.key);
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    let p = |name, quick, thorough, f| Part { name, quick, thorough, f, serial: false };
    v.push(Property {
        id: "C08",
        rule: "every case: a recording of steady, identical pulses at a known tempo between 72 and 155 BPM was analysed",
        assumptions: &["tempo-doubling and halving outside 72-155 BPM is not judged", "the legacy estimator alone is not judged"],
        parts: vec![p("tempo", 280, 6000, tempo_case as fn(&mut T) -> R), p("full-length", 36, 600, tempo_long)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C09",
        rule: "every case: a recording of whole cadences in a known key was analysed",
        assumptions: &["cadences are root-position triads with a bass, within 8 cents of A=440 Hz, in the fourth or fifth octave"],
        parts: vec![p("key", 480, 8000, key_case as fn(&mut T) -> R), p("full-length", 36, 600, key_long)],
        hang_is_violation: false,
    });
}
