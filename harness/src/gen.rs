//! Shared generators: audio recipes, spectrograms, onset lists, configurations.
use crate::engine::{Rng, T};
use std::f64::consts::PI;

/// One additive ingredient of a synthetic recording.
#[derive(Debug, Clone)]
pub enum Layer {
    /// decaying clicks at a steady tempo
    Clicks { bpm: f64, offset_s: f64, decay_s: f64, tone_hz: f64, amp: f64, jitter_s: f64, accent: usize },
    /// broadband noise bursts (snare-like)
    Bursts { bpm: f64, offset_s: f64, len_s: f64, amp: f64 },
    Tone { hz: f64, amp: f64, harmonics: usize },
    Chord { root: i32, minor: bool, octave: i32, amp: f64 },
    Noise { amp: f64 },
    Dc { amp: f64 },
    Impulse { at: f64, amp: f64 },
    /// a melody: one sustained note per beat, pitches by the recording's seed
    Notes { bpm: f64, offset_s: f64, attack_s: f64, release_s: f64, low: i32, span: i32, amp: f64 },
}

#[derive(Debug, Clone)]
pub struct Recipe {
    pub sr: u32,
    pub secs: f64,
    pub lead_s: f64,
    pub tail_s: f64,
    pub gap: Option<(f64, f64)>,
    pub layers: Vec<Layer>,
    pub seed: u64,
    /// samples beyond full scale are kept
    pub hot: bool,
}

pub fn layer(t: &mut T) -> Layer {
    match t.weighted(&[5, 2, 3, 3, 2, 1, 1, 2]) {
        0 => Layer::Clicks {
            bpm: t.f(30.0, 260.0) as f64,
            offset_s: t.f(0.0, 1.0) as f64,
            decay_s: t.f(0.002, 0.06) as f64,
            tone_hz: t.pick(&[1000.0, 60.0, 200.0, 2500.0, 3500.0]),
            amp: t.pick(&[0.8, 0.3, 0.05, 1.0]),
            jitter_s: if t.chance(1, 3) { t.f(0.0, 0.05) as f64 } else { 0.0 },
            accent: t.us(0, 6),
        },
        1 => Layer::Bursts {
            bpm: t.f(30.0, 260.0) as f64,
            offset_s: t.f(0.0, 1.0) as f64,
            len_s: t.f(0.01, 0.2) as f64,
            amp: t.pick(&[0.5, 0.1, 1.0]),
        },
        2 => Layer::Tone {
            hz: t.f(30.0, 3800.0) as f64,
            amp: t.pick(&[0.3, 0.05, 0.8]),
            harmonics: t.us(1, 5),
        },
        3 => Layer::Chord {
            root: t.int(0, 11) as i32,
            minor: t.bool(),
            octave: t.int(3, 5) as i32,
            amp: t.pick(&[0.2, 0.05, 0.5]),
        },
        4 => Layer::Noise { amp: t.pick(&[0.05, 0.005, 0.5]) },
        5 => Layer::Dc { amp: t.pick(&[0.1, -0.3, 0.9]) },
        6 => Layer::Impulse { at: t.f(0.0, 1.0) as f64, amp: t.pick(&[1.0, 0.2, -1.0]) },
        _ => {
            let bpm = t.f(30.0, 260.0) as f64;
            notes(t, bpm)
        }
    }
}

pub fn notes(t: &mut T, bpm: f64) -> Layer {
    Layer::Notes {
        bpm,
        offset_s: t.f(0.0, 0.6) as f64,
        attack_s: t.pick(&[0.01, 0.002, 0.1, 0.3]),
        release_s: t.pick(&[0.5, 0.1, 2.0, 0.05]),
        low: t.int(45, 70) as i32,
        span: t.int(0, 12) as i32,
        amp: t.pick(&[0.4, 0.1, 0.8]),
    }
}

/// Recordings whose tempo is ambiguous: two pulses at related tempos, one carried by sustained notes
/// and one by percussion, in or around the ranges where the analysis escalates.
pub fn ambiguous(t: &mut T, max_secs: f32) -> Recipe {
    let sr = t.pick(&[8000u32, 11025, 8000, 16000, 8000]);
    let (lo, hi) = t.pick(&[(55.0, 80.0), (53.0, 82.0), (84.0, 101.0), (165.0, 205.0), (110.0, 160.0)]);
    let bpm = t.f(lo, hi) as f64;
    let k = t.pick(&[2.0, 1.5, 4.0 / 3.0, 0.5, 1.0, 3.0, 2.0 / 3.0, 1.08, 0.93]);
    if t.chance(1, 2) {
        // slow sustained notes, and percussion at a related tempo barely above or below them
        let bpm = t.f(57.0, 79.0) as f64;
        let k = t.pick(&[2.0, 1.5, 4.0 / 3.0]);
        let offset_s = t.f(0.0, 0.6) as f64;
        let amp = 10f32.powf(t.f(-2.2, -0.2)) as f64;
        let mut layers = vec![notes(t, bpm)];
        layers.push(Layer::Clicks { bpm: bpm * k, offset_s, decay_s: t.f(0.003, 0.03) as f64, tone_hz: t.pick(&[1500.0, 3000.0]), amp, jitter_s: 0.0, accent: t.us(0, 2) });
        let secs = t.f(4.0, max_secs) as f64;
        let seed = t.draw(0xFFFF);
        return Recipe { sr, secs, lead_s: 0.0, tail_s: 0.0, gap: None, layers, seed, hot: false };
    }
    let mut layers = vec![];
    if t.chance(3, 4) {
        layers.push(notes(t, bpm));
    }
    let offset_s = t.f(0.0, 0.6) as f64;
    for (b, on) in [(bpm, t.bool()), (bpm * k, t.chance(3, 4))] {
        if on {
            layers.push(if t.chance(1, 3) {
                Layer::Bursts { bpm: b, offset_s, len_s: t.f(0.01, 0.1) as f64, amp: t.pick(&[0.3, 0.1, 0.03, 0.8]) }
            } else {
                Layer::Clicks {
                    bpm: b,
                    offset_s,
                    decay_s: t.f(0.004, 0.06) as f64,
                    tone_hz: t.pick(&[1000.0, 150.0, 2500.0]),
                    amp: t.pick(&[0.3, 0.1, 0.03, 0.8]),
                    jitter_s: t.pick(&[0.0, 0.0, 0.02, 0.06]),
                    accent: t.us(0, 4),
                }
            });
        }
    }
    if layers.is_empty() || t.chance(1, 3) {
        layers.push(layer(t));
    }
    let secs = t.f(3.0, max_secs) as f64;
    let seed = t.draw(0xFFFF);
    Recipe { sr, secs, lead_s: 0.0, tail_s: 0.0, gap: None, layers, seed, hot: false }
}

pub fn recipe(t: &mut T, max_secs: f32) -> Recipe {
    let sr = match t.weighted(&[16, 3, 1]) {
        0 => t.pick(&[8000u32, 11025, 22050, 16000, 44100]),
        1 => t.pick(&[48000u32, 12000, 96000, 32000]),
        _ => t.u32(8000, 50000),
    };
    let secs = t.f(0.05, max_secs) as f64 * (44100.0 / sr as f64).min(1.0);
    let n = t.us(1, 4);
    let layers = (0..n).map(|_| layer(t)).collect();
    let lead_s = if t.chance(1, 4) { t.f(0.0, 1.5) as f64 } else { 0.0 };
    let tail_s = if t.chance(1, 4) { t.f(0.0, 1.5) as f64 } else { 0.0 };
    let gap = if t.chance(1, 5) {
        let a = t.f(0.0, 1.0) as f64;
        Some((a * secs, (a * secs + t.f(0.0, 2.0) as f64).min(secs)))
    } else {
        None
    };
    let seed = t.draw(0xFFFF);
    let hot = t.chance(1, 12);
    let (sr, secs) = lengthen(t, sr, secs);
    Recipe { sr, secs, lead_s, tail_s, gap, layers, seed, hot }
}

/// A recording as long as a track, at a low rate to keep the cost down.
pub fn full_length(t: &mut T) -> Recipe {
    let mut r = match t.us(0, 2) {
        0 => recipe(t, 4.0),
        1 => rhythmic(t, 55.0, 200.0, 4.0),
        _ => ambiguous(t, 4.0),
    };
    r.sr = t.pick(&[8000, 8000, 11025]);
    r.secs = t.f(60.0, 160.0) as f64;
    if t.chance(1, 4) {
        (r.sr, r.secs) = (8000, t.f(160.0, 420.0) as f64);
    }
    if t.chance(1, 3) {
        let a = t.f(0.0, 1.0) as f64 * r.secs;
        r.gap = Some((a, (a + t.f(0.2, 30.0) as f64).min(r.secs)));
    }
    r
}

/// Now and then a long recording, at a low rate to keep the cost down.
fn lengthen(t: &mut T, sr: u32, secs: f64) -> (u32, f64) {
    if t.chance(1, 60) {
        (8000, t.f(15.0, 60.0) as f64)
    } else {
        (sr, secs)
    }
}

/// A recording with a steady pulse, optionally over sustained or noisy material.
pub fn rhythmic(t: &mut T, lo_bpm: f32, hi_bpm: f32, max_secs: f32) -> Recipe {
    let sr = t.pick(&[8000u32, 11025, 22050, 16000, 8000, 11025, 22050, 16000, 44100]);
    let bpm = t.f(lo_bpm, hi_bpm) as f64;
    let offset_s = t.f(0.0, 0.6) as f64;
    let jitter_s = t.pick(&[0.0, 0.0, 0.01, 0.04]);
    let mut layers = vec![Layer::Clicks { bpm, offset_s, decay_s: t.f(0.004, 0.05) as f64, tone_hz: t.pick(&[1000.0, 150.0, 2500.0]), amp: 0.8, jitter_s, accent: t.us(0, 4) }];
    if t.bool() {
        let k = t.pick(&[2.0, 1.5, 4.0, 0.5, 3.0]);
        layers.push(Layer::Clicks { bpm: bpm * k, offset_s, decay_s: 0.01, tone_hz: 2200.0, amp: t.pick(&[0.4, 0.1, 0.8]), jitter_s: 0.0, accent: 0 });
    }
    if t.bool() {
        layers.push(layer(t));
    }
    let secs = t.f(2.0, max_secs) as f64;
    let seed = t.draw(0xFFFF);
    let (sr, secs) = lengthen(t, sr, secs);
    Recipe { sr, secs, lead_s: 0.0, tail_s: 0.0, gap: None, layers, seed, hot: false }
}

pub fn note_hz(midi: f64) -> f64 {
    440.0 * 2f64.powf((midi - 69.0) / 12.0)
}

pub fn render(r: &Recipe) -> Vec<f32> {
    let sr = r.sr as f64;
    let n = (r.secs * sr) as usize;
    let lead = (r.lead_s * sr) as usize;
    let tail = (r.tail_s * sr) as usize;
    let mut x = vec![0f64; n];
    let mut rng = Rng::new(r.seed);
    for l in &r.layers {
        add_layer(&mut x, sr, l, &mut rng);
    }
    if let Some((a, b)) = r.gap {
        let (a, b) = ((a * sr) as usize, ((b * sr) as usize).min(n));
        if a < b {
            for v in &mut x[a..b] {
                *v = 0.0;
            }
        }
    }
    let mut out = vec![0f32; lead];
    let top = if r.hot { 8.0 } else { 1.0 };
    out.extend(x.iter().map(|&v| v.clamp(-top, top) as f32));
    out.extend(std::iter::repeat(0f32).take(tail));
    out
}

pub fn add_layer(x: &mut [f64], sr: f64, l: &Layer, rng: &mut Rng) {
    let n = x.len();
    match *l {
        Layer::Clicks { bpm, offset_s, decay_s, tone_hz, amp, jitter_s, accent } => {
            let per = 60.0 / bpm;
            let mut k = 0usize;
            loop {
                let tm = offset_s + k as f64 * per + if jitter_s > 0.0 { jitter_s * (rng.unit() - 0.5) } else { 0.0 };
                let s = (tm * sr).round();
                if s >= n as f64 {
                    break;
                }
                let a = amp * if accent > 1 && k % accent != 0 { 0.6 } else { 1.0 };
                if s >= 0.0 {
                    let s = s as usize;
                    let len = ((decay_s * 6.0 * sr) as usize).min(n - s);
                    for i in 0..len {
                        let tt = i as f64 / sr;
                        x[s + i] += a * (-tt / decay_s).exp() * (2.0 * PI * tone_hz * tt + 1.0).sin();
                    }
                }
                k += 1;
            }
        }
        Layer::Bursts { bpm, offset_s, len_s, amp } => {
            let per = 60.0 / bpm;
            let mut k = 0usize;
            loop {
                let s = ((offset_s + k as f64 * per) * sr).round() as usize;
                if s >= n {
                    break;
                }
                let len = ((len_s * sr) as usize).min(n - s);
                for i in 0..len {
                    x[s + i] += amp * (rng.unit() * 2.0 - 1.0) * (1.0 - i as f64 / (len.max(1)) as f64);
                }
                k += 1;
            }
        }
        Layer::Tone { hz, amp, harmonics } => {
            for h in 1..=harmonics {
                let f = hz * h as f64;
                if f >= sr / 2.0 {
                    break;
                }
                for (i, v) in x.iter_mut().enumerate() {
                    *v += amp / h as f64 * (2.0 * PI * f * i as f64 / sr).sin();
                }
            }
        }
        Layer::Chord { root, minor, octave, amp } => {
            let iv = if minor { [0, 3, 7] } else { [0, 4, 7] };
            for d in iv {
                let f = note_hz((12 * (octave + 1) + root + d) as f64);
                if f >= sr / 2.0 {
                    continue;
                }
                for (i, v) in x.iter_mut().enumerate() {
                    *v += amp * (2.0 * PI * f * i as f64 / sr).sin();
                }
            }
        }
        Layer::Noise { amp } => {
            for v in x.iter_mut() {
                *v += amp * (rng.unit() * 2.0 - 1.0);
            }
        }
        Layer::Dc { amp } => {
            for v in x.iter_mut() {
                *v += amp;
            }
        }
        Layer::Notes { bpm, offset_s, attack_s, release_s, low, span, amp } => {
            let per = 60.0 / bpm;
            let mut k = 0usize;
            loop {
                let s = ((offset_s + k as f64 * per) * sr).round() as usize;
                if s >= n {
                    break;
                }
                let f = note_hz((low + (rng.unit() * (span + 1) as f64) as i32) as f64);
                let len = ((per.max(release_s * 2.0) * sr) as usize).min(n - s);
                for i in 0..len {
                    let tt = i as f64 / sr;
                    let env = (tt / attack_s).min(1.0) * (-tt / release_s).exp();
                    let ph = 2.0 * PI * f * tt;
                    x[s + i] += amp * env * (ph.sin() + if 2.0 * f < sr / 2.0 { 0.5 * (2.0 * ph).sin() } else { 0.0 });
                }
                k += 1;
            }
        }
        Layer::Impulse { at, amp } => {
            if n > 0 {
                let i = ((at * n as f64) as usize).min(n - 1);
                x[i] += amp;
            }
        }
    }
}

/// A small synthetic magnitude spectrogram drawn element by element or by structure.
pub fn spectrogram(t: &mut T, max_frames: usize, max_bins: usize) -> Vec<Vec<f32>> {
    let nf = t.us(1, max_frames);
    let nb = t.us(1, max_bins);
    spectrogram_sized(t, nf, nb)
}

pub fn spectrogram_sized(t: &mut T, nf: usize, nb: usize) -> Vec<Vec<f32>> {
    let mode = t.weighted(&[3, 3, 2, 2, 1]);
    let scale = t.pick(&[1.0f32, 100.0, 0.01, 1e-4]);
    let mut rng = t.bulk();
    let mut s = vec![vec![0f32; nb]; nf];
    match mode {
        // structured: harmonic rows + percussive columns + noise
        0 => {
            let nh = t.us(0, 4);
            let np = t.us(0, 5);
            let noise = t.pick(&[0.0f32, 0.02, 0.3]);
            for _ in 0..nh {
                let b = t.us(0, nb - 1);
                let a = t.f(0.1, 2.0);
                for f in s.iter_mut() {
                    f[b] += a;
                }
            }
            for _ in 0..np {
                let k = t.us(0, nf - 1);
                let a = t.f(0.1, 2.0);
                for v in s[k].iter_mut() {
                    *v += a;
                }
            }
            for f in s.iter_mut() {
                for v in f.iter_mut() {
                    *v += noise * rng.unit() as f32;
                }
            }
        }
        // dense random
        1 => {
            for f in s.iter_mut() {
                for v in f.iter_mut() {
                    *v = rng.unit() as f32;
                }
            }
        }
        // few levels (ties)
        2 => {
            let lv = t.us(1, 4) as u64;
            for f in s.iter_mut() {
                for v in f.iter_mut() {
                    *v = (rng.next() % (lv + 1)) as f32;
                }
            }
        }
        // sparse
        3 => {
            let k = t.us(1, 12);
            for _ in 0..k {
                let a = t.us(0, nf - 1);
                let b = t.us(0, nb - 1);
                s[a][b] = t.f(0.0, 3.0);
            }
        }
        // heavy dynamic range
        _ => {
            for f in s.iter_mut() {
                for v in f.iter_mut() {
                    *v = 10f64.powf(-6.0 + 7.0 * rng.unit()) as f32;
                }
            }
        }
    }
    for f in s.iter_mut() {
        for v in f.iter_mut() {
            *v *= scale;
        }
    }
    s
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return a.is_nan() && b.is_nan();
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

pub fn fmtv(v: &[f32]) -> String {
    if v.len() <= 40 {
        format!("{:?}", v)
    } else {
        format!("{:?}..({} values)", &v[..40], v.len())
    }
}
