//! Whole-analysis properties of analyze_audio.
use crate::cfg;
use crate::engine::*;
use crate::gen::*;
use stratum_dsp::{analyze_audio, AnalysisConfig, AnalysisError, AnalysisResult};

/// Any samples at all: structured audio, or extreme contents.
fn any_samples(t: &mut T) -> (Vec<f32>, u32, String) {
    match t.weighted(&[5, 2, 2, 1]) {
        0 => {
            let r = recipe(t, 4.0);
            (render(&r), r.sr, format!("{r:?}"))
        }
        1 => {
            // very short
            let n = t.us(1, 40);
            let v: Vec<f32> = (0..n).map(|_| t.coarse(-1.0, 1.0, 8)).collect();
            let sr = t.pick(&[44100u32, 8000, 1, 100, 192000]);
            let d = format!("{v:?}");
            (v, sr, d)
        }
        2 => {
            // odd sample rates and lengths around the frame sizes
            let n = t.pick(&[2048usize, 2047, 2049, 512, 4096, 8192, 8191, 1000, 30000]);
            let sr = t.pick(&[44100u32, 8000, 1, 50, 400, 1000, 192000, u32::MAX, 3000]);
            let amp = t.pick(&[0.5f32, 1.0, 1e-3, 8.0, 1e-20]);
            let kind = t.us(0, 3);
            let mut rng = t.bulk();
            let v: Vec<f32> = (0..n)
                .map(|i| {
                    amp * match kind {
                        0 => (rng.unit() * 2.0 - 1.0) as f32,
                        1 => (i % 500 < 20) as u8 as f32,
                        2 => 1.0,
                        _ => 0.0,
                    }
                })
                .collect();
            (v, sr, format!("{n} samples, kind {kind}, amp {amp}"))
        }
        _ => {
            // quantised / square material: many exact ties
            let sr = t.pick(&[8000u32, 22050]);
            let n = t.us(3000, 40000);
            let p = t.us(1, 6000);
            let v: Vec<f32> = (0..n).map(|i| if (i / p) % 2 == 0 { 0.5 } else { -0.5 }).collect();
            (v, sr, format!("square wave of period {} over {n} samples", 2 * p))
        }
    }
}

fn total_case(t: &mut T) -> R {
    let (x, sr, d) = any_samples(t);
    let (c, _) = cfg::sane(t, 12);
    t.describe(|| format!("sr={sr} config[{}] {d}", cfg::diff(&c)));
    match analyze_audio(&x, sr, c) {
        Ok(_) => t.nontrivial(),
        Err(_) => t.label("refused"),
    }
    Ok(())
}

/// Ordinary recordings are analysed; the only ones refused are those with nothing but silence.
fn accept_case(t: &mut T) -> R {
    let r = recipe(t, 3.0);
    let mut x = render(&r);
    let (c, _) = cfg::sane(t, 12);
    if t.chance(1, 12) {
        x.iter_mut().for_each(|v| *v = 0.0);
    }
    let empty = t.us(0, 40);
    let sr = if empty == 39 { 0 } else { r.sr };
    if empty == 40 {
        x.clear();
    }
    t.describe(|| format!("sr={sr} {} samples config[{}] {r:?}", x.len(), cfg::diff(&c)));
    let got = analyze_audio(&x, sr, c.clone());
    if x.is_empty() || sr == 0 {
        t.label("no audio");
        ensure!(matches!(got, Err(AnalysisError::InvalidInput(_))), "{} samples at {sr} Hz accepted: {:?}", x.len(), got.map(|r| r.bpm));
        return Ok(());
    }
    let sound = crate::p_comp::prepare(&x, sr, &c).map(|v| !v.is_empty()).unwrap_or(false);
    match got {
        Ok(_) => {
            ensure!(sound, "analysis of a recording without sound succeeded");
            t.nontrivial();
        }
        Err(e) => {
            if sound && sr >= 8000 {
                return fail(format!("an ordinary recording was refused: {e}"));
            }
            t.label("refused");
        }
    }
    Ok(())
}

fn wild_case(t: &mut T) -> R {
    let (x, sr, d) = any_samples(t);
    let mut c = AnalysisConfig::default();
    c.key_stft_frame_size = 2048;
    cfg::alter(t, &mut c, cfg::SANE, 6);
    if t.bool() {
        cfg::alter(t, &mut c, cfg::WILD_F, 3);
    } else {
        cfg::alter(t, &mut c, cfg::WILD_U, 3);
    }
    t.describe(|| format!("sr={sr} config[{}] {d}", cfg::diff(&c)));
    match analyze_audio(&x, sr, c) {
        Ok(_) => t.nontrivial(),
        Err(_) => t.label("refused"),
    }
    Ok(())
}

/// Corrupt recordings: some samples are NaN or infinite.
fn corrupt_case(t: &mut T) -> R {
    let (mut x, sr, d) = any_samples(t);
    let (c, _) = cfg::sane(t, 8);
    let n = t.us(1, 3);
    let mut at = vec![];
    for _ in 0..n {
        let i = t.us(0, x.len() - 1);
        x[i] = t.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
        at.push((i, x[i]));
    }
    t.describe(|| format!("sr={sr} corrupt samples {at:?} config[{}] {d}", cfg::diff(&c)));
    let r = analyze_audio(&x, sr, c);
    ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "samples that are not finite were accepted: {:?}", r.map(|r| (r.bpm, r.key)));
    t.nontrivial();
    Ok(())
}

fn ranges(r: &AnalysisResult, c: &AnalysisConfig, n: usize, sr: u32) -> R {
    ensure!(r.bpm.is_finite(), "tempo {}", r.bpm);
    let slack = 1e-3 * c.max_bpm;
    ensure!(
        r.bpm == 0.0 || (r.bpm >= c.min_bpm - slack && r.bpm <= c.max_bpm + slack),
        "tempo {} outside the configured range {}..{}", r.bpm, c.min_bpm, c.max_bpm
    );
    for (name, x) in [
        ("tempo confidence", r.bpm_confidence),
        ("key confidence", r.key_confidence),
        ("key clarity", r.key_clarity),
        ("grid stability", r.grid_stability),
        ("onset agreement", r.metadata.onset_method_consensus),
    ] {
        ensure!((0.0..=1.0).contains(&x), "{name} is {x}");
    }
    ensure!(r.bpm != 0.0 || r.bpm_confidence == 0.0, "no tempo, yet tempo confidence {}", r.bpm_confidence);
    let (stratum_dsp::Key::Major(k) | stratum_dsp::Key::Minor(k)) = r.key;
    ensure!(k < 12, "key {:?}", r.key);
    let m = &r.metadata;
    ensure!(m.sample_rate == sr, "sample rate {} reported for {sr}", m.sample_rate);
    ensure!(m.processing_time_ms >= 0.0 && m.processing_time_ms.is_finite(), "processing time {}", m.processing_time_ms);
    ensure!(
        m.duration_seconds > 0.0 && m.duration_seconds as f64 <= n as f64 / sr as f64 * (1.0 + 1e-5),
        "duration {} of {n} samples at {sr} Hz", m.duration_seconds
    );
    if let Some(cs) = &m.tempogram_candidates {
        for c in cs {
            for (n, x) in [("tempo", c.bpm), ("score", c.score)] {
                ensure!(x.is_finite() && x >= 0.0, "candidate {n} {x}");
            }
            for (n, x) in [("periodicity support", c.fft_norm), ("autocorrelation support", c.autocorr_norm)] {
                ensure!((0.0..=1.0).contains(&x), "candidate {n} {x}");
            }
        }
    }
    Ok(())
}

fn range_case(t: &mut T) -> R {
    let r = recipe(t, 6.0);
    let x = render(&r);
    let (c, _) = cfg::sane(t, 12);
    t.describe(|| format!("config[{}] {r:?}", cfg::diff(&c)));
    if let Ok(a) = analyze_audio(&x, r.sr, c.clone()) {
        ranges(&a, &c, x.len(), r.sr)?;
        if a.bpm > 0.0 {
            t.nontrivial();
        }
    }
    Ok(())
}

fn long_case(t: &mut T) -> R {
    let r = full_length(t);
    let x = render(&r);
    let (mut c, _) = cfg::sane(t, 10);
    c.enable_hpss_onsets = false;
    c.enable_tempogram_percussive_fallback = false;
    c.enable_key_hpss_harmonic = false;
    c.key_stft_frame_size = c.key_stft_frame_size.min(4096);
    t.describe(|| format!("config[{}] {r:?}", cfg::diff(&c)));
    let a = match analyze_audio(&x, r.sr, c.clone()) {
        Ok(a) => a,
        Err(e) => {
            ensure!(!crate::p_comp::prepare(&x, r.sr, &c).map(|v| !v.is_empty()).unwrap_or(false), "an ordinary recording was refused: {e}");
            return Ok(());
        }
    };
    ranges(&a, &c, x.len(), r.sr)?;
    if a.bpm > 0.0 {
        t.nontrivial();
    }
    Ok(())
}

/// Tempo ranges whose edges lie next to the tempo found in a wide range or one of its relatives: every
/// correction, retry and fallback has to stay inside.
fn tempo_range_case(t: &mut T) -> R {
    let r = match t.us(0, 2) {
        0 => rhythmic(t, 50.0, 230.0, 7.0),
        _ => ambiguous(t, 7.0),
    };
    let x = render(&r);
    let (mut c, _) = cfg::sane(t, 2);
    c.enable_tempogram_percussive_fallback = t.chance(3, 4);
    c.enable_tempogram_multi_resolution = t.chance(3, 4);
    match t.us(0, 5) {
        0 => c.enable_bpm_fusion = true,
        1 => c.force_legacy_bpm = true,
        _ => {}
    }
    c.enable_key_segment_voting = false;
    c.enable_key_stft_override = false;
    c.frame_size = t.pick(&[1024, 512, 2048]);
    c.hop_size = c.frame_size / t.pick(&[2, 4, 1]);
    c.hpss_margin = t.pick(&[5, 3, 2]);
    c.bpm_resolution = t.pick(&[1.0f32, 0.5, 2.0]);
    (c.min_bpm, c.max_bpm) = (45.0, 230.0);
    let k = t.pick(&[2.0f32, 2.0, 0.5, 1.5, 1.0, 2.0 / 3.0, 4.0 / 3.0, 0.75]);
    let off = t.f(-12.0, 12.0);
    let upper = t.bool();
    t.describe(|| format!("edge at {k} of the tempo {off:+}, upper {upper}, config[{}] {r:?}", cfg::diff(&c)));
    let Ok(a) = analyze_audio(&x, r.sr, c.clone()) else { return Ok(()) };
    ranges(&a, &c, x.len(), r.sr)?;
    if a.bpm == 0.0 {
        return Ok(());
    }
    t.nontrivial();
    let e = a.bpm * k + off;
    if upper {
        c.max_bpm = e.clamp(70.0, 230.0);
    } else {
        c.min_bpm = e.clamp(45.0, 180.0);
    }
    let Ok(b) = analyze_audio(&x, r.sr, c.clone()) else { return Ok(()) };
    ranges(&b, &c, x.len(), r.sr)?;
    if b.metadata.tempogram_percussive_used == Some(true) {
        t.label("percussive fallback used");
    }
    if b.metadata.tempogram_multi_res_used == Some(true) {
        t.label("escalation used");
    }
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    let p = |name, quick, thorough, f| Part { name, quick, thorough, f, serial: false };
    v.push(Property {
        id: "C01",
        rule: "the analysis completed with a result",
        assumptions: &[],
        parts: vec![p("valid", 800, 20000, total_case as fn(&mut T) -> R), p("accept", 1000, 30000, accept_case), p("wild", 800, 20000, wild_case), p("corrupt", 400, 10000, corrupt_case), p("full-length", 36, 600, long_case)],
        hang_is_violation: true,
    });
    v.push(Property {
        id: "C02",
        rule: "the analysis reported a tempo",
        assumptions: &[],
        parts: vec![p("ranges", 1500, 40000, range_case as fn(&mut T) -> R), p("tempo-range", 1500, 40000, tempo_range_case), p("full-length", 36, 600, long_case)],
        hang_is_violation: false,
    });
}
