//! Pitch-class extraction, spectrogram conditioning, chroma post-processing.
use crate::engine::*;
use crate::gen::*;
use std::f64::consts::PI;
use stratum_dsp::features::chroma::extractor::*;
use stratum_dsp::features::chroma::normalization::{l2_normalize_chroma, sharpen_chroma};
use stratum_dsp::features::chroma::smoothing::{smooth_chroma, smooth_chroma_average};
use stratum_dsp::AnalysisError;

fn semitone(f: f64) -> f64 {
    12.0 * (f / 440.0).log2() + 57.0
}
/// too close to a half-semitone boundary to decide in single precision
fn on_boundary(s: f64) -> bool {
    (s.rem_euclid(1.0) - 0.5).abs() < 3e-4
}
fn spread(pc: &mut [f64; 12], s: f64, c: f64, sigma: f64) {
    let spc = s.rem_euclid(12.0);
    let k = (s.round() as i64).rem_euclid(12);
    for o in -1..=1i64 {
        let cls = (k + o).rem_euclid(12);
        let mut d = (spc - cls as f64).abs();
        d = d.min(12.0 - d);
        pc[cls as usize] += c * (-d * d / (2.0 * sigma * sigma)).exp();
    }
}
fn unit(pc: &mut [f64]) -> f64 {
    let n = pc.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n > 1e-10 {
        pc.iter_mut().for_each(|x| *x /= n);
    }
    n
}

struct Fr {
    sr: u32,
    fft: usize,
    spec: Vec<Vec<f32>>,
}

/// frames over a realistic frequency axis; bins whose treatment single precision cannot decide are zeroed
fn frames(t: &mut T, max_frames: usize, tuning: f64, edges: &[f64]) -> Fr {
    let sr = t.pick(&[8000u32, 11025, 22050, 44100, 2000, 400, 150, 8192]);
    let fft = t.pick(&[256usize, 64, 512, 1024, 80, 2048, 441]);
    let nb = fft / 2 + 1;
    let cap = t.cap(max_frames, if fft <= 256 { 400 } else { 60 }, 250);
    let nf = t.us(1, cap);
    let mode = t.us(0, 4);
    let mut rng = t.bulk();
    let scale = t.pick(&[1.0f64, 50.0, 1e-3]);
    let mut spec = vec![vec![0f32; nb]; nf];
    let res = sr as f64 / fft as f64;
    for f in spec.iter_mut() {
        let npk = 1 + rng.next() as usize % 12;
        match mode {
            0 => {
                for _ in 0..npk {
                    let b = rng.next() as usize % nb;
                    f[b] = (scale * (0.1 + rng.unit())) as f32;
                }
            }
            1 => f.iter_mut().for_each(|v| *v = (scale * rng.unit()) as f32),
            2 => f.iter_mut().for_each(|v| *v = (scale * 10f64.powf(-4.0 * rng.unit())) as f32),
            4 => {
                // a few flat-topped peaks of distinct heights
                for k in 0..npk.min(6) {
                    let (b, w) = (rng.next() as usize % nb, 1 + rng.next() as usize % 4);
                    let a = (scale * (0.2 + 0.15 * k as f64)) as f32;
                    f.iter_mut().skip(b).take(w).for_each(|v| *v = a);
                }
            }
            _ => {
                // a harmonic note
                let m = 36.0 + (rng.next() % 48) as f64 + tuning;
                for h in 1..=6 {
                    let b = (note_hz(m) * h as f64 / res).round() as usize;
                    if b < nb {
                        f[b] += (scale / h as f64) as f32;
                    }
                }
            }
        }
    }
    for b in 0..nb {
        let fq = b as f64 * res;
        let mut amb = b > 0 && on_boundary(semitone(fq) - tuning);
        if sr as usize % fft != 0 {
            amb |= edges.iter().any(|e| (fq - e).abs() < 2e-3 * (1.0 + e * 1e-3));
        }
        if amb {
            spec.iter_mut().for_each(|f| f[b] = 0.0);
        }
    }
    Fr { sr, fft, spec }
}

fn ref_chroma(fr: &[f32], sr: u32, fft: usize, soft: bool, sigma: f64, tuning: f64) -> [f64; 12] {
    let mut pc = [0f64; 12];
    let res = sr as f64 / fft as f64;
    let nyq = sr as f64 / 2.0;
    for (b, &m) in fr.iter().enumerate() {
        let f = b as f64 * res;
        if f < 100.0 || f > 5000.0 || f >= nyq || m <= 0.0 {
            continue;
        }
        let s = semitone(f) - tuning;
        let c = (m as f64).powf(0.6);
        if soft {
            spread(&mut pc, s, c, sigma.max(1e-6));
        } else {
            pc[(s.round() as i64).rem_euclid(12) as usize] += c;
        }
    }
    pc
}

fn cmp_pc(got: &[f32], want: &[f64; 12], what: &str) -> R {
    ensure!(got.len() == 12, "{}: {} pitch classes", what, got.len());
    let mut w = *want;
    let n = unit(&mut w);
    if n > 1e-10 && n < 1e-8 {
        return Ok(());
    }
    for k in 0..12 {
        ensure!(got[k].is_finite(), "{}: class {} is {}", what, k, got[k]);
        ensure!(
            (got[k] as f64 - w[k]).abs() < 2e-3,
            "{}: pitch class {} has weight {} but the reference gives {} (got {:?} want {:?})", what, k, got[k], w[k], got, w
        );
    }
    Ok(())
}

fn check_energy(e: &[f32], spec: &[Vec<f32>]) -> R {
    ensure!(e.len() == spec.len(), "{} energies for {} frames", e.len(), spec.len());
    for (i, f) in spec.iter().enumerate() {
        let w: f64 = f.iter().map(|&x| x as f64 * x as f64).sum();
        ensure!(close(e[i] as f64, w, 1e-3, 1e-30), "frame {}: energy {} expected {}", i, e[i], w);
    }
    Ok(())
}

fn tuning_of(t: &mut T) -> f32 {
    if t.bool() { 0.0 } else { t.f(-0.5, 0.5) }
}

fn chroma_case(t: &mut T) -> R {
    let tuning = tuning_of(t);
    let fr = frames(t, 4, tuning as f64, &[100.0, 5000.0]);
    let soft = !t.chance(1, 3);
    let sigma = if t.bool() { 0.5 } else { t.f(0.05, 2.0) };
    t.describe(|| format!("sr {} fft {} frames {} soft {} sigma {} tuning {} first {}", fr.sr, fr.fft, fr.spec.len(), soft, sigma, tuning, fmtv(&fr.spec[0])));
    let (c, e) = match extract_chroma_from_spectrogram_with_options_and_energy_tuned(&fr.spec, fr.sr, fr.fft, soft, sigma, tuning) {
        Ok(x) => x,
        Err(e) => return fail(format!("extraction failed: {}", e)),
    };
    ensure!(c.len() == fr.spec.len(), "{} vectors for {} frames", c.len(), fr.spec.len());
    check_energy(&e, &fr.spec)?;
    for (i, f) in fr.spec.iter().enumerate() {
        let w = ref_chroma(f, fr.sr, fr.fft, soft, sigma as f64, tuning as f64);
        if w.iter().any(|x| *x > 0.0) {
            t.nontrivial();
        }
        cmp_pc(&c[i], &w, "chroma")?;
    }
    if tuning == 0.0 {
        let p = extract_chroma_from_spectrogram_with_options(&fr.spec, fr.sr, fr.fft, soft, sigma).map_err(|e| Stop::Fail(e.to_string()))?;
        ensure!(p == c, "untuned extraction differs from extraction with zero tuning");
        let (p, pe) = extract_chroma_from_spectrogram_with_options_and_energy(&fr.spec, fr.sr, fr.fft, soft, sigma).map_err(|e| Stop::Fail(e.to_string()))?;
        ensure!(p == c && pe == e, "untuned extraction with energy differs from extraction with zero tuning");
    }
    Ok(())
}

/// tones: the whole audio-to-chroma path; the pitch class of a pure tone dominates, in every octave
fn chroma_audio(t: &mut T) -> R {
    let sr = t.pick(&[8000u32, 22050, 44100]);
    let fft = if sr == 8000 { 2048 } else { t.pick(&[4096usize, 8192]) };
    let midi = t.us(69, 100) as f64;
    let soft = t.bool();
    let a = t.f(0.05, 1.0) as f64;
    let hz = note_hz(midi);
    t.describe(|| format!("sr {} fft {} tone MIDI {} ({} Hz) soft {}", sr, fft, midi, hz, soft));
    if hz > 0.45 * sr as f64 || hz * 0.0595 < 4.0 * sr as f64 / fft as f64 {
        return Err(Stop::Discard);
    }
    t.nontrivial();
    let n = fft + 2 * 512;
    let x: Vec<f32> = (0..n).map(|i| (a * (2.0 * PI * hz * i as f64 / sr as f64).sin()) as f32).collect();
    let c = extract_chroma_with_options(&x, sr, fft, 512, soft, 0.5).map_err(|e| Stop::Fail(e.to_string()))?;
    ensure!(c.len() == 3, "{} chroma frames, expected 3", c.len());
    let want = (midi as usize) % 12;
    let s = compute_stft(&x, fft, 512).map_err(|e| Stop::Fail(e.to_string()))?;
    for (i, v) in c.iter().enumerate() {
        let best = (0..12).max_by(|&a, &b| v[a].partial_cmp(&v[b]).unwrap()).unwrap();
        ensure!(best == want, "tone of pitch class {} dominated by class {} in frame {}: {:?}", want, best, i, v);
        // consistency with the spectrogram route
        cmp_pc_loose(v, &ref_chroma(&s[i], sr, fft, soft, 0.5, 0.0))?;
    }
    if soft {
        let d = extract_chroma(&x, sr, fft, 512).map_err(|e| Stop::Fail(e.to_string()))?;
        ensure!(d == c, "default extraction differs from soft mapping with sigma 0.5");
    }
    Ok(())
}
fn cmp_pc_loose(got: &[f32], want: &[f64; 12]) -> R {
    let mut w = *want;
    unit(&mut w);
    let n: f64 = got.iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
    ensure!((n - 1.0).abs() < 1e-3, "chroma vector has norm {}", n);
    for k in 0..12 {
        ensure!((got[k] as f64 - w[k]).abs() < 0.03, "chroma of audio: class {} weight {} but its spectrogram gives {}", k, got[k], w[k]);
    }
    Ok(())
}

#[derive(Debug, Clone, Copy)]
struct Hp {
    sigma: f32,
    tuning: f32,
    peaks: usize,
    harm: usize,
    decay: f32,
    power: f32,
    white: bool,
    wbins: usize,
}

/// None: undecidable in single precision
fn ref_hpcp(fr: &[f32], sr: u32, fft: usize, p: &Hp, fmin: f64, fmax: f64, peaks_cap: usize) -> Option<[f64; 12]> {
    let mut pc = [0f64; 12];
    let res = sr as f64 / fft as f64;
    let fmin = fmin.max(20.0);
    let fmax = fmax.min(sr as f64 / 2.0);
    if fmax <= fmin {
        return Some(pc);
    }
    let n = fr.len();
    let white = p.white && p.wbins >= 3;
    let v: Vec<f64> = if white {
        let half = (p.wbins | 1) / 2;
        let total: f64 = fr.iter().map(|&x| x as f64).sum();
        let mut out = vec![];
        for i in 0..n {
            let (l, r) = (i.saturating_sub(half), (i + half).min(n - 1));
            let mean = fr[l..=r].iter().map(|&x| x as f64).sum::<f64>() / (r + 1 - l) as f64;
            if fr[i] > 0.0 && mean < total * 1e-4 {
                return None;
            }
            out.push((fr[i] as f64 / (mean + 1e-12)).min(20.0));
        }
        out
    } else {
        fr.iter().map(|&x| x as f64).collect()
    };
    let amb = |a: f64, b: f64| white && a != b && (a - b).abs() <= 2e-3 * a.abs().max(b.abs());
    let mut peaks: Vec<(usize, f64)> = vec![];
    for b in 1..n.saturating_sub(1) {
        let f = b as f64 * res;
        if f < fmin || f > fmax {
            continue;
        }
        if fr[b] > 0.0 && (amb(v[b], v[b - 1]) || amb(v[b], v[b + 1]) || (white && v[b] > 0.0 && v[b] < 20.0 && (v[b] == v[b - 1] || v[b] == v[b + 1]))) {
            return None;
        }
        if v[b] > v[b - 1] && v[b] >= v[b + 1] {
            peaks.push((b, v[b]));
        }
    }
    if peaks.is_empty() {
        return Some(pc);
    }
    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
    let k = p.peaks.min(peaks_cap).clamp(1, peaks.len());
    if k < peaks.len() {
        let (a, b) = (peaks[k - 1].1, peaks[k].1);
        if a == b || (white && (a - b).abs() <= 2e-3 * a) {
            return None; // which of the tied peaks is kept is not specified
        }
    }
    for &(b, _) in &peaks[..k] {
        let f0 = b as f64 * res;
        let w0 = (fr[b] as f64).powf(p.power.clamp(0.05, 1.0) as f64);
        for h in 1..=p.harm.max(1) {
            let fh = f0 * h as f64;
            if (fh - fmax).abs() < 1e-4 * fmax && sr as usize % fft != 0 {
                return None;
            }
            if fh > fmax {
                break;
            }
            let s = semitone(fh) - p.tuning as f64;
            if on_boundary(s) {
                return None;
            }
            let d = p.decay.clamp(0.0, 1.0) as f64;
            spread(&mut pc, s, w0 * d.powi(h as i32 - 1) / h as f64, p.sigma.max(1e-6) as f64);
        }
    }
    Some(pc)
}

fn hpcp_case(t: &mut T) -> R {
    let tuning = tuning_of(t);
    let fr = frames(t, 3, tuning as f64, &[100.0, 5000.0, 55.0, 300.0]);
    let p = Hp {
        sigma: if t.bool() { 0.5 } else { t.f(0.1, 1.5) },
        tuning,
        peaks: t.us(0, 30),
        harm: t.us(0, 6),
        decay: t.pick(&[0.6f32, 0.0, 1.0, 0.3, 1.4]),
        power: t.pick(&[0.6f32, 1.0, 0.01, 0.3, 2.0]),
        white: t.bool(),
        wbins: t.us(0, 31),
    };
    let bass = t.bool();
    let (bmin, bmax) = t.pick(&[(55.0f32, 300.0f32), (100.0, 500.0), (10.0, 300.0), (300.0, 55.0), (55.0, 9000.0)]);
    let bw = t.pick(&[0.35f32, 0.0, 1.0, 0.5, 1.7, -0.4]);
    t.describe(|| format!("sr {} fft {} {:?} bass {} {}..{} w {} first {}", fr.sr, fr.fft, p, bass, bmin, bmax, bw, fmtv(&fr.spec[0])));
    let r = if bass {
        extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(
            &fr.spec, fr.sr, fr.fft, p.sigma, p.tuning, p.peaks, p.harm, p.decay, p.power, p.white, p.wbins, bmin, bmax, bw,
        )
    } else {
        extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&fr.spec, fr.sr, fr.fft, p.sigma, p.tuning, p.peaks, p.harm, p.decay, p.power, p.white, p.wbins)
    };
    let (c, e) = r.map_err(|e| Stop::Fail(format!("extraction failed: {}", e)))?;
    ensure!(c.len() == fr.spec.len(), "{} vectors for {} frames", c.len(), fr.spec.len());
    check_energy(&e, &fr.spec)?;
    for (i, f) in fr.spec.iter().enumerate() {
        let n: f64 = c[i].iter().map(|&x| x as f64 * x as f64).sum::<f64>().sqrt();
        ensure!(n == 0.0 || (n - 1.0).abs() < 1e-3 || n < 1e-9, "profile of frame {} has norm {}", i, n);
        let Some(mut w) = ref_hpcp(f, fr.sr, fr.fft, &p, 100.0, 5000.0, usize::MAX) else {
            t.label("tied peaks");
            continue;
        };
        if bass {
            unit(&mut w);
            let Some(mut b) = ref_hpcp(f, fr.sr, fr.fft, &p, bmin as f64, bmax as f64, 12) else {
                t.label("tied peaks");
                continue;
            };
            unit(&mut b);
            let q = bw.clamp(0.0, 1.0) as f64;
            for k in 0..12 {
                w[k] = (1.0 - q) * w[k] + q * b[k];
            }
        }
        if w.iter().any(|x| *x > 0.0) {
            t.nontrivial();
        }
        cmp_pc(&c[i], &w, "harmonic profile")?;
    }
    Ok(())
}

fn beat_sync_case(t: &mut T) -> R {
    let fr = frames(t, 20, 0.0, &[100.0, 5000.0]);
    let hop = t.pick(&[128usize, 512, 64]);
    let soft = t.bool();
    let dt = hop as f64 / fr.sr as f64;
    let nb = if fr.spec.len() > 20 { t.us(0, 200) } else { t.us(0, 8) };
    let mut beats: Vec<f32> = vec![];
    // with a power-of-two rate frame times are exact, so beats may fall exactly on frames
    let mut x = t.us(0, 4) as f64 * dt + if fr.sr == 8192 { 0.0 } else { 0.37 * dt };
    for _ in 0..nb {
        beats.push(x as f32);
        x += t.us(0, 6) as f64 * dt;
    }
    t.describe(|| format!("sr {} fft {} hop {} frames {} beats {:?}", fr.sr, fr.fft, hop, fr.spec.len(), beats));
    let r = extract_beat_synchronous_chroma(&fr.spec, fr.sr, fr.fft, hop, &beats, soft, 0.5, 0.0);
    if nb == 0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "beat-synchronous extraction without beats not rejected");
        return Ok(());
    }
    let (c, e) = r.map_err(|e| Stop::Fail(format!("extraction failed: {}", e)))?;
    ensure!(c.len() == nb - 1 && e.len() == nb - 1, "{} vectors for {} beat intervals", c.len(), nb - 1);
    for i in 0..nb - 1 {
        let mut acc = [0f64; 12];
        let mut en = 0f64;
        let mut k = 0;
        for (j, f) in fr.spec.iter().enumerate() {
            let tm = j as f64 * dt;
            if tm >= beats[i] as f64 && tm < beats[i + 1] as f64 {
                let mut w = ref_chroma(f, fr.sr, fr.fft, soft, 0.5, 0.0);
                let n = unit(&mut w);
                if n > 1e-10 && n < 1e-8 {
                    return Err(Stop::Discard);
                }
                for q in 0..12 {
                    acc[q] += w[q];
                }
                en += f.iter().map(|&x| x as f64 * x as f64).sum::<f64>();
                k += 1;
            }
        }
        if k > 1 && en > 0.0 {
            t.nontrivial();
        }
        if k == 0 {
            ensure!(c[i].iter().all(|x| *x == 0.0) && e[i] == 0.0, "empty beat interval {} is not zero", i);
            continue;
        }
        cmp_pc(&c[i], &acc, "beat chroma")?;
        ensure!(close(e[i] as f64, en, 1e-3, 1e-30), "beat interval {}: energy {} expected {}", i, e[i], en);
    }
    Ok(())
}

fn logfreq_case(t: &mut T) -> R {
    let fr = frames(t, 3, 0.5, &[]); // zero bins near integer semitones (interpolation kink), harmless otherwise
    let fmin = t.pick(&[100.0f32, 56.0, 10.0, 28.0, 200.0]);
    let fmax = t.pick(&[5000.0f32, 1000.0, 20000.0, 450.0, 90.0]);
    t.describe(|| format!("sr {} fft {} {}..{} Hz first {}", fr.sr, fr.fft, fmin, fmax, fmtv(&fr.spec[0])));
    let r = convert_linear_to_log_frequency_spectrogram(&fr.spec, fr.sr, fr.fft, fmin, fmax);
    let lo = (fmin as f64).max(20.0);
    let hi = (fmax as f64).min(fr.sr as f64 / 2.0 - 1.0);
    if hi <= lo {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "empty frequency range {}..{} not rejected", lo, hi);
        t.label("empty range");
        return Ok(());
    }
    let out = r.map_err(|e| Stop::Fail(format!("conversion failed: {}", e)))?;
    let (s0, s1) = (semitone(lo), semitone(hi));
    if (s0 - s0.round()).abs() < 1e-3 || (s1 - s1.round()).abs() < 1e-3 {
        return Err(Stop::Discard);
    }
    let (b0, b1) = (s0.floor() as i64, s1.ceil() as i64);
    let n = (b1 - b0 + 1) as usize;
    let res = fr.sr as f64 / fr.fft as f64;
    ensure!(out.len() == fr.spec.len(), "frame count changed");
    for (f, o) in fr.spec.iter().zip(&out) {
        ensure!(o.len() == n, "{} semitone bins, expected {}", o.len(), n);
        let mut w = vec![0f64; n];
        let mut tot = 0.0;
        for (b, &m) in f.iter().enumerate() {
            let fq = b as f64 * res;
            if fq > 0.0 && ((fq - lo).abs() < 2e-3 || (fq - hi).abs() < 0.02) {
                return Err(Stop::Discard);
            }
            if m <= 0.0 || fq < lo || fq >= hi {
                continue;
            }
            let p = semitone(fq) - b0 as f64;
            let k = p.floor() as usize;
            w[k] += m as f64 * (1.0 - p.fract());
            if k + 1 < n {
                w[k + 1] += m as f64 * p.fract();
            }
            tot += m as f64;
        }
        if tot > 0.0 {
            t.nontrivial();
        }
        for k in 0..n {
            ensure!(close(o[k] as f64, w[k], 1e-3, 2e-4 * tot + 1e-30), "semitone bin {}: {} expected {}", k, o[k], w[k]);
        }
    }
    // folding to pitch classes
    let c = extract_chroma_from_log_frequency_spectrogram(&out, b0 as i32).map_err(|e| Stop::Fail(e.to_string()))?;
    ensure!(c.len() == out.len(), "frame count changed");
    for (o, v) in out.iter().zip(&c) {
        let mut w = [0f64; 12];
        for (k, &m) in o.iter().enumerate() {
            w[(b0 + k as i64).rem_euclid(12) as usize] += m as f64;
        }
        cmp_pc(v, &w, "folded chroma")?;
    }
    Ok(())
}

fn tuning_case(t: &mut T) -> R {
    let fr = frames(t, 6, 0.0, &[]);
    let (fmin, fmax) = t.pick(&[(80.0f32, 2000.0f32), (100.0, 5000.0), (20.0, 100.0), (200.0, 100.0)]);
    let step = t.us(0, 3);
    let thr = t.pick(&[0.3f32, 0.0, 0.9, 1.0, 0.05]);
    t.describe(|| format!("sr {} fft {} {}..{} Hz step {} threshold {} first {}", fr.sr, fr.fft, fmin, fmax, step, thr, fmtv(&fr.spec[0])));
    let d = estimate_tuning_offset_semitones_from_spectrogram(&fr.spec, fr.sr, fr.fft, fmin, fmax, step, thr).map_err(|e| Stop::Fail(e.to_string()))?;
    ensure!((-0.5..=0.5).contains(&d), "tuning offset {} outside half a semitone", d);
    let lo = (fmin as f64).max(20.0);
    let hi = (fmax as f64).max(lo + 1.0).min(fr.sr as f64 / 2.0);
    let res = fr.sr as f64 / fr.fft as f64;
    let (mut sn, mut cs, mut sw) = (0.0, 0.0, 0.0);
    for f in fr.spec.iter().step_by(step.max(1)) {
        let inb = |b: usize| {
            let q = b as f64 * res;
            q >= lo && q <= hi
        };
        for b in 0..f.len() {
            let q = b as f64 * res;
            if f[b] > 0.0 && ((q - lo).abs() < 2e-3 || (q - hi).abs() < 2e-3) {
                return Err(Stop::Discard);
            }
        }
        let pk = (0..f.len()).filter(|&b| inb(b)).map(|b| f[b]).fold(0.0f32, f32::max) as f64;
        if pk <= 1e-12 {
            continue;
        }
        for b in (0..f.len()).filter(|&b| inb(b)) {
            let m = f[b] as f64;
            if m <= 0.0 {
                continue;
            }
            let x = pk * thr as f64;
            if (m - x).abs() < 1e-5 * x && m != pk {
                return Err(Stop::Discard);
            }
            if m < x && !(m == pk) {
                continue;
            }
            let s = semitone(b as f64 * res);
            let a = 2.0 * PI * (s - s.round());
            sn += m.sqrt() * a.sin();
            cs += m.sqrt() * a.cos();
            sw += m.sqrt();
        }
    }
    if sw <= 1e-6 {
        if sw < 0.9e-6 {
            ensure!(d == 0.0, "offset {} from an empty spectrum", d);
        }
        return Ok(());
    }
    let r = (sn * sn + cs * cs).sqrt() / sw;
    if (r - 0.05).abs() < 1e-3 {
        return Err(Stop::Discard);
    }
    if r < 0.05 {
        ensure!(d == 0.0, "scattered residuals (concentration {}) but offset {}", r, d);
        t.label("scattered");
        return Ok(());
    }
    t.nontrivial();
    let w = sn.atan2(cs) / (2.0 * PI);
    let mut diff = (d as f64 - w).abs();
    diff = diff.min(1.0 - diff);
    ensure!(diff < 2e-3, "tuning offset {} expected {}", d, w);
    Ok(())
}

fn malformed(t: &mut T) -> R {
    let which = t.us(0, 6);
    let nb = t.us(1, 6);
    let nf = t.us(2, 5);
    let bad = t.us(0, nf - 1);
    let empty = t.chance(1, 4);
    let mut s = vec![vec![1.0f32; nb]; nf];
    if empty {
        s.iter_mut().for_each(|f| f.clear());
    } else if t.bool() {
        s[bad].push(1.0);
    } else {
        s[bad].pop();
    }
    t.describe(|| format!("operation {} frame lengths {:?}", which, s.iter().map(|f| f.len()).collect::<Vec<_>>()));
    t.nontrivial();
    let r = match which {
        0 => extract_chroma_from_spectrogram_with_options_and_energy_tuned(&s, 8000, 512, true, 0.5, 0.0).map(|_| ()),
        1 => extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&s, 8000, 512, 0.5, 0.0, 5, 3, 0.6, 0.6, false, 0).map(|_| ()),
        2 => smooth_spectrogram_time(&s, 2).map(|_| ()),
        3 => harmonic_spectrogram_time_mask(&s, 2, 2.0).map(|_| ()),
        4 => harmonic_spectrogram_hpss_median_mask(&s, 8000, 512, 100.0, 3000.0, 1, 2, 2, 2.0).map(|_| ()),
        5 => estimate_tuning_offset_semitones_from_spectrogram(&s, 8000, 512, 100.0, 3000.0, 1, 0.3).map(|_| ()),
        _ => extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&s, 8000, 512, 0.5, 0.0, 5, 3, 0.6, 0.6, false, 0, 55.0, 300.0, 0.3).map(|_| ()),
    };
    match r {
        Err(AnalysisError::InvalidInput(_)) => Ok(()),
        r => fail(format!("malformed spectrogram not rejected: {:?}", r)),
    }
}

/// no frames in, no frames out; meaningless rates are refused or leave the data alone
fn empty_case(t: &mut T) -> R {
    let which = t.us(0, 10);
    let sr = t.pick(&[44100u32, 8000, 0]);
    let fft = t.pick(&[2048usize, 0, 64]);
    let soft = t.bool();
    t.describe(|| format!("operation {which} rate {sr} fft {fft} soft {soft}"));
    t.nontrivial();
    let e: Vec<Vec<f32>> = vec![];
    let pairs = |r: Result<(Vec<Vec<f32>>, Vec<f32>), AnalysisError>| r.map(|(a, b)| a.len() + b.len());
    let n = match which {
        0 => extract_chroma_from_spectrogram_with_options(&e, sr, fft, soft, 0.5).map(|v| v.len()),
        1 => pairs(extract_chroma_from_spectrogram_with_options_and_energy(&e, sr, fft, soft, 0.5)),
        2 => pairs(extract_chroma_from_spectrogram_with_options_and_energy_tuned(&e, sr, fft, soft, 0.5, 0.1)),
        3 => pairs(extract_hpcp_from_spectrogram_with_options_and_energy_tuned(&e, sr, fft, 0.5, 0.0, 5, 3, 0.6, 0.6, soft, 9)),
        4 => pairs(extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned(&e, sr, fft, 0.5, 0.0, 5, 3, 0.6, 0.6, soft, 9, 55.0, 300.0, 0.3)),
        5 => smooth_spectrogram_time(&e, fft).map(|v| v.len()),
        6 => harmonic_spectrogram_time_mask(&e, 3, 2.0).map(|v| v.len()),
        7 => harmonic_spectrogram_hpss_median_mask(&e, sr, fft, 100.0, 3000.0, 1, 2, 2, 2.0).map(|v| v.len()),
        8 => extract_chroma_from_log_frequency_spectrogram(&e, 3).map(|v| v.len()),
        9 => pairs(extract_beat_synchronous_chroma(&e, sr, fft, 512, if soft { &[] } else { &[0.0, 1.0] }, soft, 0.5, 0.0)),
        _ => convert_linear_to_log_frequency_spectrogram(&e, sr, fft, 100.0, 3000.0).map(|v| v.len()),
    };
    ensure!(matches!(n, Ok(0)), "no frames in, but {n:?} out (operation {which})");
    let d = estimate_tuning_offset_semitones_from_spectrogram(&e, sr, fft, 100.0, 3000.0, 1, 0.3);
    ensure!(matches!(d, Ok(x) if x == 0.0), "tuning of nothing is {d:?}");
    // samples
    let len = t.us(0, 40);
    let x = vec![0.25f32; len];
    let (f, h) = (t.pick(&[64usize, 41, 0]), t.pick(&[16usize, 0]));
    let r = if soft { extract_chroma(&x, sr, f, h) } else { extract_chroma_with_options(&x, sr, f, h, soft, 0.5) };
    if len == 0 || f == 0 || h == 0 || sr == 0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "{len} samples, rate {sr}, frame {f}, hop {h}: not rejected: {r:?}");
    } else {
        ensure!(matches!(&r, Ok(v) if v.is_empty()), "{len} samples are shorter than one frame of {f}, but gave {:?}", r.map(|v| v.len()));
    }
    Ok(())
}

// ------------------------------------------------------------ C18 conditioning

fn cond_case(t: &mut T) -> R {
    let mf = t.cap(24, 1500, 300);
    let s = spectrogram(t, mf, 10);
    let margin = t.us(0, 30);
    let power = t.pick(&[2.0f32, 1.0, 0.2, 3.5]);
    let (nf, nb) = (s.len(), s[0].len());
    t.describe(|| format!("{}x{} margin {} power {} spec {:?}", nf, nb, margin, power, s.iter().take(4).collect::<Vec<_>>()));
    let sm = smooth_spectrogram_time(&s, margin).map_err(|e| Stop::Fail(e.to_string()))?;
    let mk = harmonic_spectrogram_time_mask(&s, margin, power).map_err(|e| Stop::Fail(e.to_string()))?;
    ensure!(sm.len() == nf && mk.len() == nf, "frame count changed");
    let p = power.max(1.0) as f64;
    for i in 0..nf {
        ensure!(sm[i].len() == nb && mk[i].len() == nb, "bin count changed");
        for b in 0..nb {
            let (l, r) = (i.saturating_sub(margin), (i + margin + 1).min(nf));
            let tot: f64 = s.iter().map(|f| f[b] as f64).sum();
            let h = s[l..r].iter().map(|f| f[b] as f64).sum::<f64>() / (r - l) as f64;
            ensure!(close(sm[i][b] as f64, h, 1e-4, 2e-6 * tot), "smoothed value at frame {} bin {}: {} expected {}", i, b, sm[i][b], h);
            let x = s[i][b] as f64;
            ensure!(mk[i][b] >= 0.0 && mk[i][b] as f64 <= x * 1.00001, "mask amplified frame {} bin {}: {} of {}", i, b, mk[i][b], x);
            let res = (x - h).max(0.0);
            if h.powf(p) < 1e-9 && x > 0.0 {
                continue; // the stabilising constant dominates
            }
            let m = x * h.powf(p) / (h.powf(p) + res.powf(p) + 1e-12);
            ensure!(close(mk[i][b] as f64, m, 3e-3, 1e-3 * x + 1e-5 * tot), "harmonic mask at frame {} bin {}: {} expected {}", i, b, mk[i][b], m);
        }
    }
    if nf > 1 && margin > 0 && s.iter().flatten().any(|x| *x > 0.0) {
        t.nontrivial();
    }
    Ok(())
}

fn hmask_case(t: &mut T) -> R {
    let sr = t.pick(&[8000u32, 2000, 44100, 60, 30]);
    let fft = t.pick(&[32usize, 64, 20]);
    let nb = fft / 2 + 1;
    let nf = t.cap(16, 300, 300);
    let nf = t.us(1, nf);
    let s = spectrogram_sized(t, nf, nb);
    let (fmin, fmax) = t.pick(&[(100.0f32, 3000.0f32), (20.0, 100000.0), (500.0, 700.0), (3000.0, 100.0), (0.0, 1000.0)]);
    let step = t.us(0, 4);
    let (tm, fm) = (t.us(0, 6), t.us(0, 6));
    let power = t.pick(&[2.0f32, 1.0, 0.5, 4.0]);
    t.describe(|| format!("sr {} fft {} frames {} band {}..{} step {} margins {}/{} power {} spec {:?}", sr, fft, nf, fmin, fmax, step, tm, fm, power, s.iter().take(3).collect::<Vec<_>>()));
    let out = harmonic_spectrogram_hpss_median_mask(&s, sr, fft, fmin, fmax, step, tm, fm, power).map_err(|e| Stop::Fail(e.to_string()))?;
    let lo = (fmin as f64).max(20.0);
    let hi = (fmax as f64).max(lo + 1.0).min(sr as f64 / 2.0);
    let res = sr as f64 / fft as f64;
    let (ql, qh) = (lo / res, hi / res);
    for q in [ql, qh] {
        if (q - q.round()).abs() < 1e-4 && sr as usize % fft != 0 {
            return Err(Stop::Discard);
        }
    }
    let b0 = (ql.floor() as i64).clamp(0, nb as i64) as usize;
    let b1 = (qh.ceil() as i64).clamp(0, nb as i64) as usize;
    ensure!(out.len() == nf, "frame count changed");
    if b1 <= b0 {
        ensure!(out == s, "spectrogram changed although the band is empty");
        t.label("empty band");
        return Ok(());
    }
    let st = step.max(1);
    let ds: Vec<usize> = (0..nf).step_by(st).collect();
    let upper = |mut v: Vec<f32>| {
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v[v.len() / 2] as f64
    };
    let p = power.max(1.0) as f64;
    if s.iter().any(|f| f[b0..b1].iter().any(|x| *x > 0.0)) {
        t.nontrivial();
    }
    for i in 0..nf {
        ensure!(out[i].len() == nb, "bin count changed");
        let k = (i / st).min(ds.len() - 1);
        for b in 0..nb {
            if b < b0 || b >= b1 {
                ensure!(out[i][b] == 0.0, "bin {} outside the band kept {}", b, out[i][b]);
                continue;
            }
            let h = upper((k.saturating_sub(tm)..(k + tm + 1).min(ds.len())).map(|j| s[ds[j]][b]).collect());
            let v = upper((b.saturating_sub(fm).max(b0)..(b + fm + 1).min(b1)).map(|j| s[ds[k]][j]).collect());
            // the frequency window never crosses the band edge
            let x = s[i][b] as f64;
            if h.powf(p) + v.powf(p) < 1e-9 && x > 0.0 {
                continue;
            }
            let w = x * h.powf(p) / (h.powf(p) + v.powf(p) + 1e-12);
            ensure!(close(out[i][b] as f64, w, 1e-3, 1e-4 * x), "harmonic part at frame {} bin {}: {} expected {}", i, b, out[i][b], w);
        }
    }
    Ok(())
}

fn post_case(t: &mut T) -> R {
    let n = t.cap(14, 1500, 300);
    let n = t.us(0, n);
    let k = if t.chance(1, 5) { t.us(1, 5) } else { 12 };
    let win = t.us(0, 12);
    let ties = t.bool();
    let v: Vec<Vec<f32>> = (0..n).map(|_| (0..k).map(|_| if ties { t.us(0, 3) as f32 / 4.0 } else { t.f(0.0, 1.0) }).collect()).collect();
    let power = t.pick(&[2.0f32, 1.0, 1.5, 3.0, 0.5]);
    t.describe(|| format!("{} vectors of {} window {} power {} first {:?}", n, k, win, power, v.first()));
    let m = smooth_chroma(&v, win);
    let a = smooth_chroma_average(&v, win);
    ensure!(m.len() == n && a.len() == n, "frame count changed");
    let odd = if win % 2 == 0 { win + 1 } else { win };
    if n > 2 && win > 1 {
        t.nontrivial();
    }
    for i in 0..n {
        for c in 0..k {
            let (wm, wa) = if win <= 1 {
                (v[i][c], v[i][c] as f64)
            } else {
                let h = odd / 2;
                let mut w: Vec<f32> = (i.saturating_sub(h)..(i + h + 1).min(n)).map(|j| v[j][c]).collect();
                w.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let hw = win / 2;
                let lo = i.saturating_sub(hw);
                let hi = (i + win - hw).min(n);
                let x: Vec<f64> = (lo..hi).map(|j| v[j][c] as f64).collect();
                (w[w.len() / 2], x.iter().sum::<f64>() / x.len() as f64)
            };
            ensure!(m[i][c] == wm, "median smoothing at frame {} class {}: {} expected {}", i, c, m[i][c], wm);
            ensure!(close(a[i][c] as f64, wa, 1e-4, 1e-5), "average smoothing at frame {} class {}: {} expected {}", i, c, a[i][c], wa);
        }
        for (nm, got, pw) in [("sharpened", sharpen_chroma(&v[i], power), power as f64), ("normalised", l2_normalize_chroma(&v[i]), 1.0)] {
            let mut w: Vec<f64> = v[i].iter().map(|&x| (x as f64).powf(pw)).collect();
            let nn = w.iter().map(|x| x * x).sum::<f64>().sqrt();
            if nn > 1e-10 && nn < 1e-8 {
                continue;
            }
            if nn > 1e-10 {
                w.iter_mut().for_each(|x| *x /= nn);
            } else {
                w.iter_mut().for_each(|x| *x = 1.0 / (k as f64).sqrt());
            }
            ensure!(got.len() == k, "{} vector has {} entries", nm, got.len());
            for c in 0..k {
                ensure!(close(got[c] as f64, w[c], 1e-4, 1e-5), "{} class {}: {} expected {}", nm, c, got[c], w[c]);
            }
        }
    }
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    v.push(Property {
        id: "C17",
        rule: "at least one in-band component contributed, so a non-zero pitch-class profile was compared with the reference",
        assumptions: &["bins within 3e-4 semitone of a class boundary carry no energy, tied peaks at the cut are not compared"],
        parts: vec![
            Part { name: "chroma", quick: 30000, thorough: 400000, f: chroma_case, serial: false },
            Part { name: "audio", quick: 600, thorough: 6000, f: chroma_audio, serial: false },
            Part { name: "hpcp", quick: 40000, thorough: 600000, f: hpcp_case, serial: false },
            Part { name: "beat-sync", quick: 10000, thorough: 100000, f: beat_sync_case, serial: false },
            Part { name: "log-frequency", quick: 20000, thorough: 200000, f: logfreq_case, serial: false },
            Part { name: "tuning", quick: 20000, thorough: 200000, f: tuning_case, serial: false },
            Part { name: "malformed", quick: 4000, thorough: 40000, f: malformed, serial: false },
            Part { name: "empty", quick: 2000, thorough: 20000, f: empty_case, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C18",
        rule: "more than one frame and some energy inside the window or band that is filtered",
        assumptions: &["values where the 1e-12 stabiliser dominates are only checked for range"],
        parts: vec![
            Part { name: "smoothing-and-mask", quick: 20000, thorough: 300000, f: cond_case, serial: false },
            Part { name: "median-mask", quick: 30000, thorough: 300000, f: hmask_case, serial: false },
            Part { name: "post-processing", quick: 30000, thorough: 300000, f: post_case, serial: false },
        ],
        hang_is_violation: false,
    });
}
