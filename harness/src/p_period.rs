//! Tempo evidence: novelty curves, tempograms, tempogram estimator, onset-based (legacy) estimator.
use crate::engine::*;
use crate::gen::*;
use stratum_dsp::features::period::autocorrelation::estimate_bpm_from_autocorrelation;
use stratum_dsp::features::period::candidate_filter::merge_bpm_candidates;
use stratum_dsp::features::period::comb_filter::{
    coarse_to_fine_search, estimate_bpm_from_comb_filter,
};
use stratum_dsp::features::period::novelty::*;
use stratum_dsp::features::period::peak_picking::find_peaks;
use stratum_dsp::features::period::tempogram::*;
use stratum_dsp::features::period::tempogram_autocorr::*;
use stratum_dsp::features::period::tempogram_fft::*;
use stratum_dsp::features::period::*;
use stratum_dsp::AnalysisError;

type Spec = Vec<Vec<f32>>;

// ---------------------------------------------------------------- novelty references

/// non-negative per-transition values plus the size of the quantities that were subtracted
struct Flux {
    v: Vec<f64>,
    noise: f64,
}
fn logf(s: &Spec) -> Vec<Vec<f64>> {
    s.iter()
        .map(|f| f.iter().map(|&x| (1.0 + (x as f64).max(0.0)).ln()).collect())
        .collect()
}
fn superflux_ref(l: &[Vec<f64>], k: usize, a: usize, b: usize) -> Flux {
    let k = k.max(1);
    let mut v = vec![];
    let mut noise = 0f64;
    for i in 1..l.len() {
        let mut sum = 0.0;
        for j in a..b {
            let lo = j.saturating_sub(k).max(a);
            let hi = (j + k).min(b - 1);
            let m = (lo..=hi).map(|q| l[i - 1][q]).fold(0.0, f64::max);
            noise = noise.max(m).max(l[i][j]);
            sum += (l[i][j] - m).max(0.0).powi(2);
        }
        v.push(sum.sqrt());
    }
    // ln(1+x) in single precision is only good to about one ulp of 1.0
    Flux { v, noise: 2e-7 * (1.0 + noise) * ((b - a) as f64).sqrt() }
}
fn energy_ref(s: &Spec, a: usize, b: usize, w: impl Fn(usize) -> f64) -> Flux {
    let e: Vec<f64> = s
        .iter()
        .map(|f| (a..b).map(|j| w(j) * (f[j] as f64).powi(2)).sum())
        .collect();
    let m = e.iter().copied().fold(0.0, f64::max);
    Flux {
        v: e.windows(2).map(|p| (p[1] - p[0]).max(0.0)).collect(),
        noise: 4e-7 * m * (2.0 + (b - a) as f64 / 8.0),
    }
}
fn spectral_ref(s: &Spec) -> Option<Flux> {
    let mut n = vec![];
    for f in s {
        let m = f.iter().copied().fold(0f32, f32::max) as f64;
        if m > 0.5e-10 && m < 2e-10 {
            return None;
        }
        n.push(
            f.iter()
                .map(|&x| if m > 1e-10 { x as f64 / m } else { 0.0 })
                .collect::<Vec<_>>(),
        );
    }
    let v = n
        .windows(2)
        .map(|p| {
            p[0].iter()
                .zip(&p[1])
                .map(|(a, b)| (b - a).max(0.0).powi(2))
                .sum::<f64>()
                .sqrt()
        })
        .collect();
    Some(Flux { v, noise: 2e-7 * (s[0].len() as f64).sqrt() })
}

/// compare a curve normalised to its maximum with the raw reference; Ok(true) when it was decided
fn cmp_norm(what: &str, got: &[f32], f: &Flux) -> Result<bool, Stop> {
    ensure!(
        got.len() == f.v.len(),
        "{what}: {} values for {} transitions",
        got.len(),
        f.v.len()
    );
    for (i, &x) in got.iter().enumerate() {
        ensure!(
            x.is_finite() && (0.0..=1.0 + 1e-6).contains(&x),
            "{what}: value {x} at {i} is outside [0, 1]"
        );
    }
    let m = f.v.iter().copied().fold(0.0, f64::max);
    if m == 0.0 && f.noise == 0.0 {
        ensure!(got.iter().all(|&x| x == 0.0), "{what}: nothing rises but the curve is {}", fmtv(got));
        return Ok(false);
    }
    if m < 3e-10 || f.noise > 0.02 * m {
        return Ok(false);
    }
    let tol = 2e-5 + 4.0 * f.noise / m;
    for i in 0..got.len() {
        let e = f.v[i] / m;
        ensure!(
            (got[i] as f64 - e).abs() <= tol * (1.0 + e),
            "{what}: value at transition {i} is {} but the definition gives {e} (tolerance {tol})",
            got[i]
        );
    }
    Ok(true)
}

fn spec_in(t: &mut T, max_frames: usize, max_bins: usize) -> Spec {
    let mf = t.cap(max_frames, 1500, 250);
    let nf = t.us(2, mf);
    let mb = if mf > max_frames { 10 } else { t.cap(max_bins, 1025, 250) };
    let nb = t.us(1, mb);
    spectrogram_sized(t, nf, nb)
}
fn ok<X>(r: Result<X, AnalysisError>, what: &str) -> Result<X, Stop> {
    r.or_else(|e| fail(format!("{what}: unexpected error {e}")))
}

fn novelty_case(t: &mut T) -> R {
    let s = spec_in(t, 24, 40);
    let nb = s[0].len();
    let k = t.pick(&[4usize, 0, 1, 2, 7, 50]);
    let sr = t.pick(&[44100u32, 22050, 8000, 1]);
    let which = t.us(0, 6);
    t.describe(|| format!("which={which} frames={} bins={nb} k={k} sr={sr}", s.len()));
    let a = t.us(0, nb + 1);
    let b = t.us(0, nb + 3);
    let band = |e: usize| (a.min(nb), e.min(nb));
    let decided = match which {
        0 => match spectral_ref(&s) {
            Some(f) => cmp_norm("spectral flux", &ok(spectral_flux_novelty(&s), "spectral flux")?, &f)?,
            None => return Err(Stop::Discard),
        },
        1 => cmp_norm("superflux", &ok(superflux_novelty(&s, k), "superflux")?, &superflux_ref(&logf(&s), k, 0, nb))?,
        2 => cmp_norm("energy flux", &ok(energy_flux_novelty(&s), "energy flux")?, &energy_ref(&s, 0, nb, |_| 1.0))?,
        3 => cmp_norm("high-frequency content", &ok(hfc_novelty(&s, sr), "hfc")?, &energy_ref(&s, 0, nb, |j| j as f64))?,
        w => {
            let (lo, hi) = band(b);
            let got = match w {
                4 => ok(superflux_novelty_band(&s, k, a, b), "superflux band")?,
                5 => ok(energy_flux_novelty_band(&s, a, b), "energy band")?,
                _ => ok(hfc_novelty_band(&s, a, b), "hfc band")?,
            };
            if hi <= lo + 1 {
                ensure!(got.is_empty(), "a band of fewer than two bins gave a curve of {} values", got.len());
                return Ok(());
            }
            t.label("band");
            match w {
                4 => cmp_norm("superflux band", &got, &superflux_ref(&logf(&s), k, lo, hi))?,
                5 => cmp_norm("energy band", &got, &energy_ref(&s, lo, hi, |_| 1.0))?,
                _ => cmp_norm("hfc band", &got, &energy_ref(&s, lo, hi, |j| j as f64))?,
            }
        }
    };
    if decided {
        t.nontrivial();
    }
    Ok(())
}

fn mel_case(t: &mut T) -> R {
    let nf = t.us(2, 12);
    let nb = t.pick(&[33usize, 129, 257, 513, 20, 2]);
    let s = spectrogram_sized(t, nf, nb);
    let sr = t.pick(&[44100u32, 22050, 8000, 200, 40, 3]);
    let n_mels = t.pick(&[40usize, 10, 20, 64, 4, 2]);
    let fmin = t.pick(&[30.0f32, 0.0, -5.0, 100.0, 2000.0]);
    let fmax = t.pick(&[8000.0f32, 0.0, -1.0, 4000.0, f32::NAN, 1e6]);
    let k = t.pick(&[1usize, 0, 2, 3, 9]);
    t.describe(|| format!("sr={sr} frames={nf} bins={nb} mels={n_mels} fmin={fmin} fmax={fmax} k={k}"));
    let got = ok(mel_superflux_novelty(&s, sr, n_mels, fmin, fmax, k), "mel")?;
    ensure!(got.len() == nf - 1, "{} values for {} transitions", got.len(), nf - 1);
    for &x in &got {
        ensure!(x.is_finite() && (0.0..=1.0 + 1e-6).contains(&x), "mel novelty value {x} outside [0,1]");
    }
    let ny = sr as f64 / 2.0;
    let lo = (fmin as f64).max(0.0).min(ny.max(1.0));
    let hi = if fmax.is_finite() && fmax > 0.0 { fmax as f64 } else { ny };
    let hi = hi.max(lo + 1.0).min(ny);
    if hi < lo {
        return Ok(()); // no band above the lowest frequency: only well-formedness
    }
    let n_mels = n_mels.max(4);
    let res = sr as f64 / ((nb - 1) * 2) as f64;
    let mel = |f: f64| 2595.0 * (1.0 + f / 700.0).log10();
    let mut pts = vec![];
    for i in 0..n_mels + 2 {
        let m = mel(lo) + (mel(hi) - mel(lo)) * i as f64 / (n_mels + 1) as f64;
        let x = 700.0 * (10f64.powf(m / 2595.0) - 1.0) / res;
        if (x - x.floor() - 0.5).abs() < 2e-3 + 1e-5 * x {
            return Err(Stop::Discard);
        }
        pts.push((x.round().max(0.0) as usize).min(nb - 1));
    }
    for i in 1..pts.len() {
        if pts[i] <= pts[i - 1] {
            pts[i] = (pts[i - 1] + 1).min(nb - 1);
        }
    }
    let l = logf(&s);
    let mut m = vec![vec![0f64; n_mels]; nf];
    for q in 0..n_mels {
        let (a, c, b) = (pts[q], pts[q + 1], pts[q + 2]);
        if !(a < c && c < b) {
            continue;
        }
        for (i, f) in l.iter().enumerate() {
            for j in a + 1..b {
                // the centre bin belongs to both slopes
                if j <= c {
                    m[i][q] += f[j] * (j - a) as f64 / (c - a) as f64;
                }
                if j >= c {
                    m[i][q] += f[j] * (b - j) as f64 / (b - c) as f64;
                }
            }
        }
    }
    let mut f = superflux_ref(&m, k, 0, n_mels);
    // every band accumulates the rounding error of all its bins
    let widest = (0..n_mels).map(|q| pts[q + 2] - pts[q]).max().unwrap().max(1) as f64;
    let peak = m.iter().flatten().copied().fold(0.0, f64::max);
    f.noise = 2e-7 * (widest + peak) * (n_mels as f64).sqrt();
    if cmp_norm("mel superflux", &got, &f)? {
        t.nontrivial();
    }
    Ok(())
}

fn norm64(v: &mut [f64]) -> Option<()> {
    let m = v.iter().copied().fold(0.0, f64::max);
    if m > 0.2e-10 && m < 5e-10 {
        return None;
    }
    if m > 1e-10 {
        v.iter_mut().for_each(|x| *x /= m);
    }
    Some(())
}
fn combined_ref(s: &[f32], e: &[f32], h: &[f32], w: [f32; 3], lm: usize, sm: usize) -> Option<Vec<f64>> {
    let n = s.len().min(e.len()).min(h.len());
    let w: Vec<f64> = w.iter().map(|&x| (x as f64).max(0.0)).collect();
    let ws = w.iter().sum::<f64>().max(1e-10);
    let mut c: Vec<f64> = (0..n)
        .map(|i| (s[i] as f64 * w[0] + e[i] as f64 * w[1] + h[i] as f64 * w[2]) / ws)
        .collect();
    norm64(&mut c)?;
    let win = |c: &[f64], i: usize, w: usize| {
        let a = i.saturating_sub(w / 2);
        let b = (i + w / 2 + 1).min(c.len());
        c[a..b].iter().sum::<f64>() / (b - a) as f64
    };
    if lm > 1 {
        c = (0..n).map(|i| (c[i] - win(&c, i, lm)).max(0.0)).collect();
    }
    if sm > 1 && n >= 3 {
        c = (0..n).map(|i| win(&c, i, sm)).collect();
    }
    // the second normalisation amplifies single-precision error of the local-mean difference
    let m = c.iter().copied().fold(0.0, f64::max);
    if m < 1e-3 && c.iter().any(|&x| x != 0.0) {
        return None;
    }
    norm64(&mut c)?;
    Some(c)
}

fn combined_case(t: &mut T) -> R {
    let max = t.cap(60, 8000, 250);
    let n = t.us(0, max);
    let lens: Vec<usize> = (0..3)
        .map(|_| if t.chance(1, 4) { t.us(0, max) } else { n })
        .collect();
    let mut rng = t.bulk();
    let sparse = t.bool();
    let mut mk = |n: usize| -> Vec<f32> {
        (0..n)
            .map(|_| {
                let u = rng.unit() as f32;
                if sparse && rng.next() % 3 != 0 { 0.0 } else { u }
            })
            .collect()
    };
    let (s, e, h) = (mk(lens[0]), mk(lens[1]), mk(lens[2]));
    let dflt = t.chance(1, 3);
    let w = [
        t.pick(&[0.5f32, 1.0, 0.0, -1.0, 3.0]),
        t.pick(&[0.3f32, 1.0, 0.0, -1.0]),
        t.pick(&[0.2f32, 1.0, 0.0, 2.0]),
    ];
    let lm = t.pick(&[16usize, 0, 1, 2, 5, 200]);
    let sm = t.pick(&[5usize, 0, 1, 2, 4, 200]);
    t.describe(|| format!("lens={lens:?} default={dflt} w={w:?} local_mean={lm} smooth={sm}"));
    let (got, want) = if dflt {
        (combined_novelty(&s, &e, &h), combined_ref(&s, &e, &h, [0.5, 0.3, 0.2], 16, 5))
    } else {
        (combined_novelty_with_params(&s, &e, &h, w[0], w[1], w[2], lm, sm), combined_ref(&s, &e, &h, w, lm, sm))
    };
    let len = *lens.iter().min().unwrap();
    ensure!(got.len() == len, "{} values combined from curves of {lens:?}", got.len());
    for &x in &got {
        ensure!(x.is_finite() && (0.0..=1.0 + 1e-6).contains(&x), "combined value {x} outside [0,1]");
    }
    let Some(want) = want else { return Err(Stop::Discard) };
    for i in 0..len {
        ensure!(
            (got[i] as f64 - want[i]).abs() < 1e-3,
            "combined novelty at {i} is {} but the definition gives {}",
            got[i],
            want[i]
        );
    }
    if want.iter().any(|&x| x > 0.0) {
        t.nontrivial();
    }
    Ok(())
}

fn novelty_malformed(t: &mut T) -> R {
    let kind = t.us(0, 3);
    let mut s: Spec = match kind {
        0 => vec![],
        1 => vec![vec![1.0; t.us(0, 5)]],
        2 => vec![vec![]; t.us(2, 6)],
        _ => spec_in(t, 10, 20),
    };
    let sr = if t.chance(1, 4) { 0 } else { 44100 };
    if kind == 3 {
        let i = t.us(0, s.len() - 1);
        if t.bool() {
            s[i].push(1.0);
        } else {
            s[i].pop();
        }
    }
    t.nontrivial();
    t.describe(|| format!("kind={kind} sr={sr} lens={:?}", s.iter().map(|f| f.len()).collect::<Vec<_>>()));
    let outs: Vec<(&str, Result<Vec<f32>, AnalysisError>)> = vec![
        ("spectral", spectral_flux_novelty(&s)),
        ("superflux", superflux_novelty(&s, 4)),
        ("superflux band", superflux_novelty_band(&s, 4, 0, 99)),
        ("energy", energy_flux_novelty(&s)),
        ("energy band", energy_flux_novelty_band(&s, 0, 99)),
        ("hfc", hfc_novelty(&s, sr)),
        ("hfc band", hfc_novelty_band(&s, 0, 99)),
        ("mel", mel_superflux_novelty(&s, sr, 10, 30.0, 8000.0, 1)),
    ];
    for (n, r) in outs {
        let short = s.len() < 2;
        match r {
            Ok(v) => ensure!(short && v.is_empty(), "{n}: malformed spectrogram accepted, {} values", v.len()),
            Err(AnalysisError::InvalidInput(_)) => {
                ensure!(!short || (sr == 0 && n == "hfc" && !s.is_empty()), "{n}: a short spectrogram was rejected")
            }
            Err(e) => return fail(format!("{n}: wrong error kind {e}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tempograms

fn novelty_curve(t: &mut T, max: usize) -> Vec<f32> {
    let max = t.cap(max, 20000, 400);
    let n = t.us(1, max);
    let mut rng = t.bulk();
    match t.us(0, 3) {
        0 => (0..n).map(|_| rng.unit() as f32).collect(),
        1 => {
            let p = t.us(2, 40);
            let ph = t.us(0, p - 1);
            let noise = t.pick(&[0.0f64, 0.1]);
            (0..n)
                .map(|i| (if i % p == ph { 1.0 } else { 0.0 } + noise * rng.unit()) as f32)
                .collect()
        }
        2 => {
            let p = 2.0 + 40.0 * rng.unit();
            (0..n)
                .map(|i| (0.5 + 0.5 * (i as f64 * std::f64::consts::TAU / p).cos()) as f32)
                .collect()
        }
        _ => (0..n).map(|_| (rng.next() % 2) as f32).collect(),
    }
}
struct TP {
    sr: u32,
    hop: u32,
    lo: f32,
    hi: f32,
    res: f32,
}
fn tempo_params(t: &mut T) -> TP {
    let sr = t.pick(&[44100u32, 22050, 8000, 48000, 100]);
    let hop = t.pick(&[512u32, 256, 1024, 441, 64]);
    let lo = t.pick(&[40.0f32, 60.0, 30.5, 100.0, 39.7]);
    let hi = lo + t.pick(&[200.0f32, 20.0, 1.0, 80.0, 119.3]);
    let res = t.pick(&[0.5f32, 1.0, 0.25, 3.0, 0.3]);
    TP { sr, hop, lo, hi, res }
}

fn check_best(what: &str, tg: &[(f32, f32)], r: Option<(f32, f32, f32)>) -> R {
    let Some((bpm, conf, s)) = r else {
        ensure!(tg.is_empty(), "{what}: no best tempo from {} entries", tg.len());
        return Ok(());
    };
    ensure!(!tg.is_empty(), "{what}: a best tempo from nothing");
    ensure!(bpm == tg[0].0 && s == tg[0].1, "{what}: best is ({bpm}, {s}) but the strongest entry is {:?}", tg[0]);
    let want = if tg.len() == 1 {
        0.5
    } else if tg[0].1 > 1e-10 {
        ((tg[0].1 - tg[1].1).max(0.0) / tg[0].1).clamp(0.0, 1.0)
    } else {
        0.0
    };
    ensure!((conf - want).abs() < 1e-5, "{what}: confidence {conf}, expected {want}");
    Ok(())
}

fn autocorr_tempogram_case(t: &mut T) -> R {
    let nov = novelty_curve(t, 300);
    let p = tempo_params(t);
    t.describe(|| format!("n={} sr={} hop={} bpm=[{},{}]/{}", nov.len(), p.sr, p.hop, p.lo, p.hi, p.res));
    let tg = ok(autocorrelation_tempogram(&nov, p.sr, p.hop, p.lo, p.hi, p.res), "autocorrelation tempogram")?;
    let fr = p.sr as f64 / p.hop as f64;
    let steps = (p.hi as f64 - p.lo as f64) / p.res as f64;
    let full = (steps + 1e-3).floor() as usize + 1;
    // on a dyadic grid every step is exact, so the upper end belongs to it
    let dyadic = [p.lo, p.hi, p.res].iter().all(|x| (x * 64.0).fract() == 0.0);
    let sure = if dyadic { full } else { (steps - 1e-3).floor() as usize + 1 };
    ensure!(
        tg.len() == full || tg.len() == sure,
        "{} tempos tested between {} and {} by {}",
        tg.len(), p.lo, p.hi, p.res
    );
    let mut seen = vec![false; full];
    for w in tg.windows(2) {
        ensure!(w[0].1 >= w[1].1, "strengths are not in descending order");
    }
    let corr = |lag: usize| -> f64 {
        if lag >= nov.len() {
            return 0.0;
        }
        (0..nov.len() - lag).map(|i| nov[i] as f64 * nov[i + lag] as f64).sum::<f64>() / (nov.len() - lag) as f64
    };
    for &(b, s) in &tg {
        ensure!(b >= p.lo && b <= p.hi, "tempo {b} outside [{}, {}]", p.lo, p.hi);
        let k = ((b as f64 - p.lo as f64) / p.res as f64).round() as usize;
        ensure!(
            k < full && !seen[k] && (p.lo as f64 + k as f64 * p.res as f64 - b as f64).abs() < 5e-3,
            "tempo {b} is not a fresh point of the requested grid"
        );
        seen[k] = true;
        let x = fr * 60.0 / b as f64;
        let l = x.floor() as usize;
        let mut want = vec![corr(l)];
        if x - x.floor() < 1e-4 * (1.0 + x * 1e-2) && l > 0 {
            want.push(corr(l - 1));
        }
        if x.ceil() - x < 1e-4 * (1.0 + x * 1e-2) {
            want.push(corr(l + 1));
        }
        ensure!(
            want.iter().any(|w| close(s as f64, *w, 2e-5, 1e-6)),
            "strength at {b} BPM (lag {x}) is {s}, the mean lagged product is {want:?}"
        );
        if s > 0.0 {
            t.nontrivial();
        }
    }
    check_best("autocorrelation", &tg, find_best_bpm_autocorr(&tg).map(|r| (r.bpm, r.confidence, r.strength)))
}

fn fft_tempogram_case(t: &mut T) -> R {
    let nov = novelty_curve(t, 300);
    let p = tempo_params(t);
    t.describe(|| format!("n={} sr={} hop={} bpm=[{},{}]", nov.len(), p.sr, p.hop, p.lo, p.hi));
    let tg = ok(fft_tempogram(&nov, p.sr, p.hop, p.lo, p.hi), "FFT tempogram")?;
    let n = nov.len();
    let mean = nov.iter().map(|&x| x as f64).sum::<f64>() / n as f64;
    let x: Vec<f64> = nov
        .iter()
        .enumerate()
        .map(|(i, &v)| {
            let w = if n > 1 { 0.5 - 0.5 * (std::f64::consts::TAU * i as f64 / (n - 1) as f64).cos() } else { 1.0 };
            (v as f64 - mean) * w
        })
        .collect();
    let size = n.next_power_of_two();
    let res = p.sr as f64 / p.hop as f64 / size as f64 * 60.0;
    for w in tg.windows(2) {
        ensure!(w[0].1 >= w[1].1, "powers are not in descending order");
    }
    let energy: f64 = x.iter().map(|v| v * v).sum::<f64>();
    let tot: f64 = nov.iter().map(|&v| (v as f64).powi(2)).sum::<f64>();
    let mut used = 0;
    for k in 0..=size / 2 {
        let b = k as f64 * res;
        let edge = (b - p.lo as f64).abs() < 1e-4 * b || (b - p.hi as f64).abs() < 1e-4 * b;
        let inside = b >= p.lo as f64 && b <= p.hi as f64;
        let got: Vec<_> = tg.iter().filter(|e| (e.0 as f64 - b).abs() < 0.25 * res).collect();
        if edge {
            used += got.len();
            continue;
        }
        ensure!(got.len() == inside as usize, "frequency bin {k} ({b} BPM) appears {} times", got.len());
        if !inside {
            continue;
        }
        used += 1;
        let (mut re, mut im) = (0.0, 0.0);
        for (i, v) in x.iter().enumerate() {
            let (s, c) = (std::f64::consts::TAU * ((i * k) % size) as f64 / size as f64).sin_cos();
            re += v * c;
            im -= v * s;
        }
        let want = re * re + im * im;
        let tol = 1e-4 * want + 1e-5 * (want * energy).sqrt() + 1e-6 * energy + 1e-9 * tot * n as f64;
        ensure!((got[0].1 as f64 - want).abs() <= tol, "power at {b} BPM is {}, the transform gives {want}", got[0].1);
        if want > 1e-3 * energy && energy > 0.0 {
            t.nontrivial();
        }
    }
    ensure!(used == tg.len(), "{} entries that are not frequency bins", tg.len() - used.min(tg.len()));
    check_best("fft", &tg, find_best_bpm_fft(&tg).map(|r| (r.bpm, r.confidence, r.power)))
}

fn tempogram_invalid(t: &mut T) -> R {
    let nov = if t.chance(1, 4) { vec![] } else { vec![0.5f32; t.us(1, 50)] };
    let sr = t.pick(&[44100u32, 0]);
    let hop = t.pick(&[512u32, 0]);
    let lo = t.pick(&[40.0f32, 0.0, -3.0, 240.0, 300.0]);
    let hi = t.pick(&[240.0f32, f32::INFINITY, 20.0]);
    let res = t.pick(&[0.5f32, 0.0, -1.0, 1e-6, 1e-9]);
    t.nontrivial();
    t.describe(|| format!("n={} sr={sr} hop={hop} bpm=[{lo},{hi}]/{res}", nov.len()));
    let base = nov.is_empty() || sr == 0 || hop == 0 || lo <= 0.0 || hi <= lo;
    let bad = base || res < 1e-5 || hi.is_infinite();
    match autocorrelation_tempogram(&nov, sr, hop, lo, hi, res) {
        Err(AnalysisError::InvalidInput(_)) => ensure!(bad, "valid parameters rejected"),
        Err(e) => return fail(format!("wrong error kind: {e}")),
        Ok(_) => ensure!(!bad, "invalid parameters accepted"),
    }
    match fft_tempogram(&nov, sr, hop, lo, hi) {
        Err(AnalysisError::InvalidInput(_)) => ensure!(base, "valid parameters rejected"),
        Err(e) => return fail(format!("wrong error kind: {e}")),
        Ok(_) => ensure!(!base, "invalid parameters accepted"),
    }
    let onsets: Vec<usize> = if nov.is_empty() { vec![] } else { (0..20).map(|i| i * 20000).collect() };
    if hi.is_finite() {
        let bad2 = onsets.is_empty() || sr == 0 || lo <= 0.0 || lo >= hi;
        match estimate_bpm_from_comb_filter(&onsets, sr, hop as usize, lo, hi, res) {
            Err(AnalysisError::InvalidInput(_)) => ensure!(bad2 || res < 1e-5, "valid parameters rejected"),
            Err(e) => return fail(format!("wrong error kind: {e}")),
            Ok(_) => ensure!(!(bad2 || res < 1e-5), "invalid parameters accepted"),
        }
        match estimate_bpm_from_autocorrelation(&onsets, sr, hop as usize, lo, hi) {
            Err(AnalysisError::InvalidInput(_)) => ensure!(bad2 || hop == 0, "valid parameters rejected"),
            Err(e) => return fail(format!("wrong error kind: {e}")),
            Ok(_) => ensure!(!(bad2 || hop == 0), "invalid parameters accepted"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- tempogram estimator

#[derive(Clone)]
pub struct Cand {
    pub bpm: f32,
    pub score: f32,
    pub fft: f32,
    pub ac: f32,
}
struct Variant {
    full: bool,
    w: f32,
    fft: Vec<(f32, f32)>,
    ac: Vec<(f32, f32)>,
}
fn top(v: &[(f32, f32)]) -> f32 {
    v.first().map(|x| x.1).unwrap_or(1.0).max(1e-12)
}
/// (value of the closest entry, undecidable in single precision)
fn near(tg: &[(f32, f32)], bpm: f32, tol: f32) -> (f32, bool) {
    let mut bd = f32::INFINITY;
    let mut bv = 0.0;
    let mut fuzzy = false;
    for &(b, v) in tg {
        let d = (b - bpm).abs();
        if d != tol && (d - tol).abs() < 2e-4 {
            fuzzy = true;
        }
        if d <= tol && d < bd {
            if bd.is_finite() && bd - d < 2e-4 {
                fuzzy = true;
            }
            bd = d;
            bv = v;
        } else if d > bd && d - bd < 2e-4 {
            fuzzy = true;
        }
    }
    (bv, fuzzy)
}
fn cfg_default() -> TempogramBandFusionConfig {
    TempogramBandFusionConfig {
        enabled: false,
        low_max_hz: 200.0,
        mid_max_hz: 2000.0,
        high_max_hz: 8000.0,
        w_full: 0.4,
        w_low: 0.25,
        w_mid: 0.2,
        w_high: 0.15,
        seed_only: true,
        support_threshold: 0.25,
        consensus_bonus: 0.08,
        enable_mel: false,
        mel_n_mels: 40,
        mel_fmin_hz: 30.0,
        mel_fmax_hz: 8000.0,
        mel_max_filter_bins: 2,
        w_mel: 0.15,
        novelty_w_spectral: 0.3,
        novelty_w_energy: 0.35,
        novelty_w_hfc: 0.35,
        novelty_local_mean_window: 16,
        novelty_smooth_window: 5,
        debug_track_id: None,
        debug_gt_bpm: None,
        debug_top_n: 5,
        superflux_max_filter_bins: 4,
    }
}
fn band_cfg(t: &mut T) -> TempogramBandFusionConfig {
    let mut c = cfg_default();
    c.enabled = t.bool();
    c.enable_mel = t.bool();
    c.seed_only = t.bool();
    c.low_max_hz = t.pick(&[200.0f32, 0.0, 700.0, 3000.0]);
    c.mid_max_hz = t.pick(&[2000.0f32, 150.0, 900.0]);
    c.high_max_hz = t.pick(&[8000.0f32, 0.0, 1000.0, 1e6]);
    c.w_full = t.pick(&[0.4f32, 1.0, 0.0]);
    c.w_low = t.pick(&[0.25f32, 0.0, 1.0, -1.0]);
    c.w_mid = t.pick(&[0.2f32, 0.0, 2.0]);
    c.w_high = t.pick(&[0.15f32, 0.0, 1.0, f32::NAN]);
    c.w_mel = t.pick(&[0.15f32, 0.0, 1.0]);
    c.support_threshold = t.pick(&[0.25f32, 0.6, 0.0, 2.0]);
    c.consensus_bonus = t.pick(&[0.08f32, 0.0, 0.5, -1.0]);
    c.mel_n_mels = t.pick(&[40usize, 10]);
    c.mel_max_filter_bins = t.pick(&[2usize, 1]);
    c.superflux_max_filter_bins = t.pick(&[4usize, 1]);
    c.novelty_local_mean_window = t.pick(&[16usize, 0, 6]);
    c.novelty_smooth_window = t.pick(&[5usize, 1, 3]);
    c.novelty_w_spectral = t.pick(&[0.3f32, 1.0, 0.0]);
    c
}

/// The candidate scoring as documented, on top of the novelty and tempogram functions (C22, C23).
/// None: some comparison could not be decided in single precision.
fn candidates_ref(
    s: &Spec,
    p: &TP,
    cfg: Option<&TempogramBandFusionConfig>,
) -> Result<Option<(Vec<Cand>, f32, f32)>, AnalysisError> {
    let nb = s[0].len();
    let k = cfg.map_or(4, |c| c.superflux_max_filter_bins);
    let comb = |a: &[f32], b: &[f32], c: &[f32]| match cfg {
        Some(g) => combined_novelty_with_params(
            a, b, c, g.novelty_w_spectral, g.novelty_w_energy, g.novelty_w_hfc,
            g.novelty_local_mean_window, g.novelty_smooth_window,
        ),
        None => combined_novelty(a, b, c),
    };
    let mk = |full: bool, w: f32, nov: &[f32]| -> Result<Variant, AnalysisError> {
        Ok(Variant {
            full,
            w,
            fft: fft_tempogram(nov, p.sr, p.hop, p.lo, p.hi)?,
            ac: autocorrelation_tempogram(nov, p.sr, p.hop, p.lo, p.hi, p.res)?,
        })
    };
    let nov = comb(&superflux_novelty(s, k)?, &energy_flux_novelty(s)?, &hfc_novelty(s, p.sr)?);
    let mut vs = vec![mk(true, cfg.map_or(1.0, |c| c.w_full), &nov)?];
    if let Some(c) = cfg.filter(|c| c.enabled) {
        let res = p.sr as f32 / ((nb - 1) * 2).max(2) as f32;
        let bin = |hz: f32| if hz <= 0.0 { 0 } else { ((hz / res).round() as usize).min(nb - 1) };
        let b0 = 1.min(nb - 1);
        let bl = bin(c.low_max_hz).max(b0);
        let bm = bin(c.mid_max_hz).max(bl + 1);
        let bh = if c.high_max_hz > 0.0 { bin(c.high_max_hz).max(bm + 1) } else { nb }.min(nb);
        for (a, b, w) in [(b0, bl, c.w_low), (bl, bm, c.w_mid), (bm, bh, c.w_high)] {
            if !(w > 0.0) || b <= a + 1 {
                continue;
            }
            let nov = comb(
                &superflux_novelty_band(s, k, a, b)?,
                &energy_flux_novelty_band(s, a, b)?,
                &hfc_novelty_band(s, a, b)?,
            );
            if !nov.is_empty() {
                vs.push(mk(false, w, &nov)?);
            }
        }
    }
    if let Some(c) = cfg.filter(|c| c.enable_mel) {
        let nov = mel_superflux_novelty(s, p.sr, c.mel_n_mels, c.mel_fmin_hz, c.mel_fmax_hz, c.mel_max_filter_bins)?;
        vs.push(mk(false, c.w_mel, &nov)?);
    }
    let seed_only = cfg.map_or(true, |c| c.seed_only);
    let mut pool = vec![];
    for v in &vs {
        for b in v.fft.iter().take(8).chain(v.ac.iter().take(8)) {
            for f in [1.0f32, 0.5, 2.0, 1.0 / 3.0, 3.0, 2.0 / 3.0, 1.5] {
                let x = b.0 * f;
                if x >= p.lo && x <= p.hi {
                    pool.push(x);
                } else if (x - p.lo).abs() < 1e-4 || (x - p.hi).abs() < 1e-4 {
                    return Ok(None);
                }
            }
        }
        // the eighth strongest entry must be well defined
        for l in [&v.fft, &v.ac] {
            if l.len() > 8 && l[7].1 == l[8].1 && l[7].1 != 0.0 {
                return Ok(None);
            }
        }
    }
    pool.sort_by(f32::total_cmp);
    pool.dedup();
    let uniq = pool;
    let wsum = vs
        .iter()
        .filter(|v| v.full || !seed_only)
        .map(|v| v.w.max(0.0))
        .sum::<f32>()
        .max(1e-6);
    let mut out = vec![];
    for bpm in uniq {
        let (mut f, mut a) = (0f32, 0f32);
        let mut sup = 0;
        for v in &vs {
            let (x, fx) = near(&v.fft, bpm, 0.75);
            let (y, fy) = near(&v.ac, bpm, p.res.max(0.5));
            if fx || fy {
                return Ok(None);
            }
            let (x, y) = ((x / top(&v.fft)).clamp(0.0, 1.0), (y / top(&v.ac)).clamp(0.0, 1.0));
            if (v.full || !seed_only) && v.w > 0.0 {
                f += v.w * x;
                a += v.w * y;
            }
            if !v.full {
                if let Some(c) = cfg {
                    let m = x.max(y);
                    let th = c.support_threshold.clamp(0.0, 1.0);
                    if m != th && (m - th).abs() < 1e-5 {
                        return Ok(None);
                    }
                    sup += (m >= th) as u32;
                }
            }
        }
        let (f, a) = ((f / wsum).clamp(0.0, 1.0), (a / wsum).clamp(0.0, 1.0));
        let mut score = 0.55 * a + 0.45 * f;
        if let Some(c) = cfg {
            if c.consensus_bonus > 0.0 && (c.enabled || c.enable_mel) && sup >= 2 {
                score *= 1.0 + c.consensus_bonus * (sup as f32 - 1.0);
            }
        }
        score *= if bpm > 180.0 { 0.8 } else if bpm < 60.0 { 0.9 } else { 1.0 };
        out.push(Cand { bpm, score, fft: f, ac: a });
    }
    let b = |v: &[(f32, f32)]| v.first().map_or(0.0, |x| x.0);
    Ok(Some((out, b(&vs[0].fft), b(&vs[0].ac))))
}

fn pulse_spec(t: &mut T, sr: u32, hop: u32, max_frames: usize) -> Spec {
    let nb = t.pick(&[17usize, 33, 9, 65, 3]);
    let mf = t.cap(max_frames, 6000, 150);
    let nf = t.us(8, mf);
    if t.chance(1, 5) {
        return spectrogram_sized(t, nf, nb);
    }
    let bpm = t.f(45.0, 235.0) as f64;
    let per = 60.0 * sr as f64 / hop as f64 / bpm;
    let ph = t.f(0.0, 1.0) as f64;
    let accent = t.us(1, 4);
    let sub = t.pick(&[0.0f32, 0.4, 0.9]);
    let noise = t.pick(&[0.01f32, 0.1, 0.5]);
    let bass = t.bool();
    let mut rng = t.bulk();
    let mut s = vec![vec![0f32; nb]; nf];
    for f in s.iter_mut() {
        for v in f.iter_mut() {
            *v = noise * rng.unit() as f32;
        }
    }
    let mut hit = |pos: f64, a: f32, low: bool, s: &mut Spec| {
        let i = pos.round() as usize;
        for d in 0..3 {
            if i + d < s.len() {
                let hi = if low { nb / 3 + 1 } else { nb };
                for v in s[i + d][..hi].iter_mut() {
                    *v += a * 0.5f32.powi(d as i32) * (0.8 + 0.2 * rng.unit() as f32);
                }
            }
        }
    };
    let mut k = 0;
    loop {
        let pos = (k as f64 + ph) * per;
        if pos >= nf as f64 || k > 4000 {
            break;
        }
        hit(pos, if k % accent == 0 { 2.0 } else { 1.2 }, bass && k % 2 == 0, &mut s);
        if sub > 0.0 {
            hit(pos + per / 2.0, sub, false, &mut s);
        }
        k += 1;
    }
    s
}

fn est_params(t: &mut T) -> TP {
    let sr = t.pick(&[44100u32, 22050, 8000, 48000]);
    let hop = t.pick(&[512u32, 256, 1024, 128]);
    let lo = t.pick(&[40.0f32, 60.0, 80.0, 30.0, 110.0]);
    let hi = t.pick(&[240.0f32, 180.0, 130.0, 300.0]);
    let res = t.pick(&[1.0f32, 0.5, 2.0]);
    TP { sr, hop, lo, hi, res }
}

/// `got`: all candidates the estimator kept. `r`: every related tempo with its documented score.
fn verify_estimate(t: &mut T, p: &TP, est: &BpmEstimate, got: &[TempogramCandidateDebug], r: &(Vec<Cand>, f32, f32)) -> R {
    let (want, fp, ap) = r;
    for (i, c) in got.iter().enumerate() {
        let rel: Vec<_> = want.iter().filter(|w| (w.bpm - c.bpm).abs() < 1e-3).collect();
        ensure!(!rel.is_empty(), "candidate {} BPM is not related to any tempogram peak", c.bpm);
        ensure!(
            rel.iter().any(|w| (w.score - c.score).abs() < 1e-4 && (w.fft - c.fft_norm).abs() < 1e-4 && (w.ac - c.autocorr_norm).abs() < 1e-4),
            "candidate {} BPM scored {}/{}/{}, expected {}/{}/{}", c.bpm, c.score, c.fft_norm, c.autocorr_norm, rel[0].score, rel[0].fft, rel[0].ac
        );
        for d in &got[..i] {
            ensure!((c.bpm - d.bpm).abs() > 0.75 - 1e-3, "candidates {} and {} BPM are the same tempo", c.bpm, d.bpm);
        }
    }
    for w in want {
        ensure!(
            got.iter().any(|c| (c.bpm - w.bpm).abs() < 0.75 + 1e-3 && c.score >= w.score - 1e-4),
            "{} BPM scores {} yet neither it nor a better tempo within 0.75 BPM is a candidate", w.bpm, w.score
        );
    }
    if want.len() > got.len() {
        t.label("near-duplicates");
    }
    let Some(best) = got.first() else { return fail("an estimate without candidates".to_string()) };
    // which candidates may be selected
    let mut allowed: Vec<(f32, f32)> = vec![];
    let mut keep = true;
    if best.bpm > 180.0 && best.bpm / 2.0 >= p.lo {
        let h = best.bpm / 2.0;
        let fuzzy = got.iter().any(|x| ((x.bpm - h).abs() - 0.75).abs() < 1e-3);
        let hs: Vec<_> = got.iter().filter(|x| (x.bpm - h).abs() < 0.75 + 1e-3).collect();
        if !hs.is_empty() {
            keep = fuzzy;
            let take = if fuzzy { hs.len() } else { 1 };
            for x in &hs[..take] {
                let (ra, rf) = ((best.autocorr_norm + 1e-6) / (x.autocorr_norm + 1e-6), (best.fft_norm + 1e-6) / (x.fft_norm + 1e-6));
                if ra > 2.0 * 0.995 && rf > 2.0 * 0.995 {
                    keep = true;
                }
                if !(ra > 2.0 * 1.005 && rf > 2.0 * 1.005) {
                    t.label("folded");
                    allowed.push((x.bpm, x.score));
                }
            }
        }
    }
    if keep {
        allowed.push((best.bpm, best.score));
    }
    let Some(a) = allowed.iter().find(|a| (a.0 - est.bpm).abs() < 1e-3) else {
        return fail(format!("{} BPM was selected; the scores allow {:?}", est.bpm, allowed));
    };
    let second = got.get(1).map_or(0.0, |c| c.score);
    if a.1 > 1e-3 {
        let conf = ((a.1 - second).max(0.0) / a.1).clamp(0.0, 1.0);
        ensure!((conf - est.confidence).abs() < 3e-4 / a.1, "confidence {}, the score gap gives {conf}", est.confidence);
    }
    let agr = |x: f32| (x > 0.0 && (x - est.bpm).abs() < 2.0) as u32;
    let fuzzy = [fp, ap].iter().any(|x| ((*x - est.bpm).abs() - 2.0).abs() < 1e-3);
    ensure!(fuzzy || est.method_agreement == agr(*fp) + agr(*ap), "method agreement {} (primary picks {fp}, {ap}, selected {})", est.method_agreement, est.bpm);
    for c in got {
        let d = (c.bpm - est.bpm).abs();
        if (d - 0.75).abs() > 1e-3 {
            ensure!(c.selected == (d < 0.75), "candidate {} BPM marked selected={} for {}", c.bpm, c.selected, est.bpm);
        }
    }
    Ok(())
}

fn estimator_common(p: &TP, est: &BpmEstimate, c: &[TempogramCandidateDebug]) -> R {
    ensure!(est.bpm >= p.lo && est.bpm <= p.hi, "{} BPM is outside [{}, {}]", est.bpm, p.lo, p.hi);
    ensure!((0.0..=1.0).contains(&est.confidence), "confidence {}", est.confidence);
    for w in c.windows(2) {
        ensure!(w[0].score >= w[1].score, "candidates are not ordered by score");
    }
    for x in c {
        ensure!(x.bpm >= p.lo && x.bpm <= p.hi, "candidate {} BPM outside [{}, {}]", x.bpm, p.lo, p.hi);
        ensure!((0.0..=1.0).contains(&x.fft_norm) && (0.0..=1.0).contains(&x.autocorr_norm), "candidate support outside [0,1]");
    }
    Ok(())
}

fn estimator_case(t: &mut T) -> R {
    let p = est_params(t);
    let s = pulse_spec(t, p.sr, p.hop, 500);
    let top_n = t.pick(&[1000usize, 0, 1, 5]);
    let cfg = if t.bool() { Some(band_cfg(t)) } else { None };
    t.describe(|| format!("sr={} hop={} bpm=[{},{}]/{} frames={} bins={} top_n={top_n} cfg={cfg:?}", p.sr, p.hop, p.lo, p.hi, p.res, s.len(), s[0].len()));
    let run = |n: usize| match &cfg {
        None => estimate_bpm_tempogram_with_candidates(&s, p.sr, p.hop, p.lo, p.hi, p.res, n),
        Some(c) => estimate_bpm_tempogram_with_candidates_band_fusion(&s, p.sr, p.hop, p.lo, p.hi, p.res, n, c.clone()),
    };
    let plain = match &cfg {
        None => estimate_bpm_tempogram(&s, p.sr, p.hop, p.lo, p.hi, p.res),
        Some(c) => estimate_bpm_tempogram_band_fusion(&s, p.sr, p.hop, p.lo, p.hi, p.res, c.clone()),
    };
    let (est, c) = match (run(1000), candidates_ref(&s, &p, cfg.as_ref())) {
        (Ok(x), Ok(w)) => {
            let (est, all) = x;
            estimator_common(&p, &est, &all)?;
            if let Some(w) = w {
                verify_estimate(t, &p, &est, &all, &w)?;
                if all.len() >= 2 {
                    t.nontrivial();
                }
            }
            let (e, c) = ok(run(top_n), "the same estimate with another number of candidates")?;
            ensure!(e.bpm == est.bpm && e.confidence == est.confidence, "asking for {top_n} candidates changed the estimate");
            let same = c.len() == top_n.min(all.len())
                && c.iter().zip(&all).all(|(a, b)| a.bpm == b.bpm && a.score == b.score && a.fft_norm == b.fft_norm && a.autocorr_norm == b.autocorr_norm && a.selected == b.selected);
            ensure!(same, "asking for {top_n} candidates does not give the best {top_n}");
            (est, c)
        }
        (Err(AnalysisError::ProcessingError(_)), Ok(Some(w))) if w.0.is_empty() => return Ok(()),
        (Err(_), Err(_)) => return Ok(()),
        (Err(e), Ok(_)) => return fail(format!("unexpected error {e}")),
        (Ok(_), Err(e)) => return fail(format!("succeeded where a stage fails: {e}")),
    };
    let plain = ok(plain, "plain estimate")?;
    ensure!(
        plain.bpm == est.bpm && plain.confidence == est.confidence && plain.method_agreement == est.method_agreement,
        "asking for {} candidates changed the estimate", c.len()
    );
    Ok(())
}

fn multi_analysis_case(t: &mut T) -> R {
    let p = est_params(t);
    let s = pulse_spec(t, p.sr, 512, 300);
    t.describe(|| format!("sr={} bpm=[{},{}]/{} frames={}", p.sr, p.lo, p.hi, p.res, s.len()));
    let rs: Vec<_> = [256u32, 512, 1024]
        .iter()
        .filter_map(|&h| estimate_bpm_tempogram(&s, p.sr, h, p.lo, p.hi, p.res).ok())
        .collect();
    let got = multi_resolution_analysis(&s, p.sr, p.hop, p.lo, p.hi, p.res);
    if rs.is_empty() {
        ensure!(matches!(got, Err(AnalysisError::ProcessingError(_))), "no resolution succeeded yet {got:?}");
        return Ok(());
    }
    let g = ok(got, "multi-resolution")?;
    t.nontrivial();
    let n = rs.len() as f32;
    if rs.len() == 1 {
        ensure!(g.bpm == rs[0].bpm && g.confidence == rs[0].confidence, "single resolution not returned unchanged");
    } else if rs.iter().all(|r| (r.bpm - rs[0].bpm).abs() < 2.0) {
        t.label("agree");
        let b = rs.iter().map(|r| r.bpm).sum::<f32>() / n;
        let c = (rs.iter().map(|r| r.confidence).sum::<f32>() / n * 1.2).min(1.0);
        ensure!((g.bpm - b).abs() < 1e-3 && (g.confidence - c).abs() < 1e-5 && g.method_agreement == rs.len() as u32, "agreeing resolutions {rs:?} gave {g:?}");
    } else {
        let m = rs.iter().map(|r| r.confidence).fold(0.0, f32::max);
        ensure!(
            rs.iter().any(|r| r.bpm == g.bpm && r.confidence >= m - 1e-6) && (g.confidence - 0.9 * m).abs() < 1e-5 && g.method_agreement == 1,
            "disagreeing resolutions {rs:?} gave {g:?}"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- multi-resolution fusion

pub struct MR {
    pub lo: f32,
    pub hi: f32,
    pub res: f32,
    pub top_k: usize,
    pub w: [f32; 3], // 512, 256, 1024
    pub dt: f32,
    pub margin: f32,
    pub prior: bool,
}
type C3 = [Vec<(f32, f32)>; 3];
fn sup(c: &[(f32, f32)], bpm: f32, tol: f32) -> f32 {
    let mut bd = f32::INFINITY;
    let mut bs = 0.0;
    for &(b, s) in c {
        let d = (b - bpm).abs();
        if d <= tol && d < bd {
            bd = d;
            bs = s;
        }
    }
    bs
}
fn contrast(nov: &[f32], sr: u32, bpm: f32) -> f32 {
    let per = 60.0 * sr as f32 / (bpm * 512.0);
    let p = per.round() as usize;
    if nov.len() < 16 || per < 3.0 || !(3..=512).contains(&p) {
        return 0.0;
    }
    let mean = (nov.iter().sum::<f32>().max(1e-6) / nov.len() as f32).max(1e-6);
    let wmax = |c: usize| nov[c.saturating_sub(2)..(c + 3).min(nov.len())].iter().copied().fold(0.0, f32::max);
    let mut best = f32::NEG_INFINITY;
    for ph in 0..p {
        let beats: Vec<usize> = (ph..nov.len()).step_by(p).collect();
        let avg = |offs: &[usize]| {
            let xs: Vec<f32> = beats
                .iter()
                .flat_map(|&i| offs.iter().map(move |o| i + o))
                .filter(|&j| j < nov.len())
                .map(wmax)
                .collect();
            if xs.is_empty() { 0.0 } else { xs.iter().sum::<f32>() / xs.len() as f32 }
        };
        let half = if p >= 6 { avg(&[p / 2]) } else { 0.0 };
        let third = if p >= 9 { avg(&[p / 3, 2 * p / 3]) } else { 0.0 };
        best = best.max(((avg(&[0]) - 0.6 * half - 0.4 * third) / mean).clamp(-10.0, 10.0));
    }
    best
}
/// tempo, confidence, agreement for candidate lists (256, 512, 1024)
fn fuse_ref(c: &C3, m: &MR, sr: u32, nov: Option<&[f32]>) -> Option<(f32, f32, u32)> {
    let tol = 2f32.max(m.res);
    let [c256, c512, c1024] = c;
    let mut hyps: Vec<(f32, f32)> = vec![];
    for &(t, _) in c512.iter().take(m.top_k.max(1)) {
        let s = |l: &Vec<(f32, f32)>, f: f32| sup(l, t * f, tol);
        let (t5, t2, t1) = (s(c512, 1.0), s(c256, 1.0), s(c1024, 1.0));
        let (d5, d2, d1) = (s(c512, 2.0), s(c256, 2.0), s(c1024, 2.0));
        let (h5, h2, h1) = (s(c512, 0.5), s(c256, 0.5), s(c1024, 0.5));
        let [w5, w2, w1] = m.w;
        let ht = w5 * t5 + w2 * t2 + w1 * t1;
        let mut hd = w5 * (m.dt * t5 + (1.0 - m.dt) * d5) + w2 * d2 + w1 * d1;
        let mut hh = w5 * (m.dt * t5 + (1.0 - m.dt) * h5) + w2 * h2 + w1 * h1;
        if t1 > 1.02 * h1 {
            hh *= 0.9;
        }
        if t1 > 1.02 * d1 {
            hd *= 0.9;
        }
        let rd = (d2 + 1e-6) / (t2 + 1e-6);
        let rh = (h1 + 1e-6) / (t1 + 1e-6);
        for (r, h) in [(rd, &mut hd), (rh, &mut hh)] {
            if r < 1.1 {
                *h *= 0.75;
            }
            if r < 1.0 {
                *h *= 0.75;
            }
        }
        let mut l: Vec<(f32, f32)> = vec![(t, ht), (2.0 * t, hd), (0.5 * t, hh)];
        l.retain(|x| x.0 >= m.lo && x.0 <= m.hi);
        for x in &mut l {
            x.1 *= if x.0 > 210.0 { 0.8 } else if x.0 > 180.0 { 0.9 } else if x.0 < 60.0 { 0.92 } else { 1.0 };
        }
        l.sort_by(|a, b| b.1.total_cmp(&a.1));
        if l.is_empty() {
            continue;
        }
        let mg = l[0].1 - l.get(1).map_or(0.0, |x| x.1);
        let mut ch = l[0];
        if (ch.0 - t).abs() > 1e-3 && mg < m.margin {
            ch = (t, ht);
        }
        if mg < m.margin && m.prior && mg < 0.05 && (70.0..=180.0).contains(&ch.0) {
            ch.1 += 0.05;
        }
        hyps.push(ch);
    }
    if hyps.is_empty() {
        return None;
    }
    hyps.sort_by(|a, b| b.1.total_cmp(&a.1));
    let mut u: Vec<(f32, f32)> = vec![];
    for h in hyps {
        if u.len() < 8 && u.iter().all(|x| (x.0 - h.0).abs() >= 0.75) {
            u.push(h);
        }
    }
    let tot = |b: f32| {
        let v = [sup(c256, b, tol), sup(c512, b, tol), sup(c1024, b, tol)];
        (v.iter().sum::<f32>(), v.iter().filter(|x| **x > 0.0).count() as u32)
    };
    let mut best = u[0];
    if best.0 >= 170.0 {
        let h = best.0 * 0.5;
        let ((sb, _), (sh, ah)) = (tot(best.0), tot(h));
        if (70.0..=120.0).contains(&h) && h >= m.lo && ah == 3 && sb > 0.0 && sh / sb >= 0.45 {
            best = (h, sh);
        }
    }
    if best.0 <= 80.0 {
        let d = best.0 * 2.0;
        let ((sb, _), (sd, ad)) = (tot(best.0), tot(d));
        if (70.0..=180.0).contains(&d) && d <= m.hi && ad >= 2 && sd > 0.0 && sb > 0.0 && sd / sb >= 0.55 {
            best = (d, sd);
        }
    }
    if let Some(nov) = nov.filter(|n| !n.is_empty()) {
        if (70.0..=180.0).contains(&best.0) {
            let mut fam: Vec<(f32, f32, f32)> = vec![];
            for f in [1.0f32, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75] {
                let b = best.0 * f;
                if b < m.lo || b > m.hi || !(70.0..=180.0).contains(&b) {
                    continue;
                }
                let (s, a) = tot(b);
                if a >= 2 && s > 0.0 {
                    fam.push((b, s, contrast(nov, sr, b)));
                }
            }
            if fam.len() >= 2 {
                let ms = fam.iter().map(|f| f.1).fold(1e-6, f32::max);
                if fam.iter().any(|f| (f.0 - best.0).abs() > 0.75 && f.1 / ms >= 0.45) {
                    let mut ch = fam[0];
                    let mut cs = f32::NEG_INFINITY;
                    for f in fam {
                        let s = f.2 + 0.35 * (f.1 / ms).clamp(0.0, 1.0);
                        if s > cs {
                            cs = s;
                            ch = f;
                        }
                    }
                    if (ch.0 - best.0).abs() > 0.75 && ch.2 >= contrast(nov, sr, best.0) + 0.4 {
                        best = (ch.0, ch.1);
                    }
                }
            }
        }
    }
    let second = u.get(1).map_or(0.0, |x| x.1);
    let conf = if best.1 > 1e-6 { ((best.1 - second).max(0.0) / best.1).clamp(0.0, 1.0) } else { 0.0 };
    Some((best.0, conf, tot(best.0).1))
}

fn multi_samples_case(t: &mut T) -> R {
    let mut r = match t.us(0, 3) {
        0 => ambiguous(t, 7.0),
        1 => {
            let (lo, hi) = t.pick(&[(60.0, 90.0), (165.0, 215.0), (90.0, 165.0)]);
            rhythmic(t, lo, hi, 7.0)
        }
        _ => recipe(t, 8.0),
    };
    r.sr = t.pick(&[8000u32, 11025, 22050]);
    r.secs = r.secs.min(12.0);
    let x = render(&r);
    let frame = t.pick(&[1024usize, 512, 2048]);
    let mut m = MR {
        lo: t.pick(&[40.0f32, 60.0, 90.0, 85.0]),
        hi: t.pick(&[240.0f32, 180.0, 150.0, 300.0]),
        res: t.pick(&[1.0f32, 0.5, 3.0]),
        top_k: t.pick(&[25usize, 1, 5, 0, 60]),
        w: [t.pick(&[0.45f32, 1.0]), t.pick(&[0.35f32, 0.0]), t.pick(&[0.2f32, 1.0])],
        dt: t.pick(&[0.7f32, 0.0, 1.0]),
        margin: t.pick(&[0.08f32, 0.0, 0.3]),
        prior: t.bool(),
    };
    let cfg = match t.us(0, 2) {
        0 => None,
        1 => Some({
            let mut c = cfg_default();
            c.consensus_bonus = 0.0;
            c
        }),
        _ => Some(band_cfg(t)),
    };
    if t.bool() {
        // put an edge of the tempo range next to the tempo found without it, or next to a relative
        let wide = multi_resolution::multi_resolution_tempogram_from_samples(
            &x, r.sr, frame, 40.0, 240.0, m.res, m.top_k, m.w[0], m.w[1], m.w[2], 0.85, m.dt, m.margin, m.prior, cfg.clone(),
        );
        if let Ok((w, _)) = wide {
            let k = t.pick(&[1.0f32, 0.5, 2.0, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75]);
            let edge = w.bpm * k + t.f(-3.0, 3.0);
            if t.bool() {
                (m.lo, m.hi) = (edge.clamp(35.0, 180.0), 240.0);
            } else {
                (m.lo, m.hi) = (40.0, edge.clamp(60.0, 300.0));
            }
        }
    }
    t.describe(|| format!("{r:?} frame={frame} bpm=[{},{}]/{} top_k={} w={:?} dt={} margin={} prior={} cfg={cfg:?}", m.lo, m.hi, m.res, m.top_k, m.w, m.dt, m.margin, m.prior));
    if check_fusion(t, &x, r.sr, frame, &m, &cfg)? {
        Ok(())
    } else {
        Err(Stop::Discard)
    }
}

/// Accented pulse trains whose relatives lie right at an edge of the tempo range: the octave and
/// family rules must not step over it.
fn range_edges_case(t: &mut T) -> R {
    let bpm = t.pick(&[0, 0, 1, 2]);
    let bpm = match bpm {
        0 => t.f(171.0, 238.0),
        1 => t.f(62.0, 82.0),
        _ => t.f(82.0, 171.0),
    } as f64;
    let sr = t.pick(&[8000u32, 11025, 22050]);
    let offset_s = t.f(0.0, 0.3) as f64;
    let decay_s = t.f(0.005, 0.03) as f64;
    let tone = t.pick(&[700.0, 1000.0, 300.0]);
    let k = t.pick(&[0.5, 0.5, 2.0, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75]);
    let r = Recipe {
        sr,
        secs: t.f(5.0, 9.0) as f64,
        lead_s: 0.0,
        tail_s: 0.0,
        gap: None,
        layers: vec![
            Layer::Clicks { bpm, offset_s, decay_s, tone_hz: tone, amp: 0.4, jitter_s: 0.0, accent: 0 },
            Layer::Clicks { bpm: bpm * k, offset_s, decay_s, tone_hz: tone, amp: t.f(0.02, 0.55) as f64, jitter_s: 0.0, accent: 0 },
        ],
        seed: 1,
        hot: false,
    };
    let x = render(&r);
    let frame = t.pick(&[1024usize, 512]);
    let mut m = MR { lo: 40.0, hi: 240.0, res: t.pick(&[1.0f32, 0.5]), top_k: t.pick(&[25usize, 60]), w: [0.45, 0.35, 0.2], dt: 0.7, margin: 0.08, prior: t.bool() };
    let cfg = if t.bool() { None } else { Some(cfg_default()) };
    t.describe(|| format!("{r:?} frame={frame} {}/{} prior={} cfg={}", m.res, m.top_k, m.prior, cfg.is_some()));
    let wide = multi_resolution::multi_resolution_tempogram_from_samples(
        &x, sr, frame, m.lo, m.hi, m.res, m.top_k, m.w[0], m.w[1], m.w[2], 0.85, m.dt, m.margin, m.prior, cfg.clone(),
    );
    let Ok((w, _)) = wide else { return check_fusion(t, &x, sr, frame, &m, &cfg).map(|_| ()) };
    for k in [0.5f32, 2.0, 1.5, 2.0 / 3.0, 4.0 / 3.0, 0.75] {
        let e = w.bpm.max(bpm as f32) * k + t.f(-2.5, 2.5);
        if (50.0..=150.0).contains(&e) && k < 1.0 {
            (m.lo, m.hi) = (e, 240.0);
        } else if (90.0..=230.0).contains(&e) && k > 1.0 {
            (m.lo, m.hi) = (40.0, e);
        } else {
            continue;
        }
        check_fusion(t, &x, sr, frame, &m, &cfg)?;
    }
    Ok(())
}

/// Whether the fusion could be compared with the reference.
fn check_fusion(t: &mut T, x: &[f32], sr: u32, frame: usize, m: &MR, cfg: &Option<TempogramBandFusionConfig>) -> Result<bool, Stop> {
    let got = multi_resolution::multi_resolution_tempogram_from_samples(
        x, sr, frame, m.lo, m.hi, m.res, m.top_k, m.w[0], m.w[1], m.w[2], 0.85, m.dt, m.margin, m.prior, cfg.clone(),
    );
    if x.len() < frame {
        ensure!(matches!(got, Err(AnalysisError::InvalidInput(_))), "audio shorter than a frame gave {got:?}");
        return Ok(true);
    }
    let aux = (m.top_k.max(1) * 4).clamp(25, 200);
    let mut c: C3 = Default::default();
    let mut nov = vec![];
    let mut full512 = vec![];
    for (i, hop) in [256u32, 512, 1024].into_iter().enumerate() {
        let s = match stratum_dsp::features::chroma::extractor::compute_stft(x, frame, hop as usize) {
            Ok(s) => s,
            Err(_) => {
                ensure!(got.is_err(), "an STFT stage fails but a tempo came back");
                return Ok(true);
            }
        };
        let k = if i == 1 { m.top_k.max(1) } else { aux };
        let e = match cfg.clone().filter(|c| c.enabled || c.enable_mel || c.consensus_bonus > 0.0) {
            Some(g) => estimate_bpm_tempogram_with_candidates_band_fusion(&s, sr, hop, m.lo, m.hi, m.res, k, g),
            None => estimate_bpm_tempogram_with_candidates(&s, sr, hop, m.lo, m.hi, m.res, k),
        };
        match e {
            Ok((_, l)) => c[i] = l.iter().map(|q| (q.bpm, q.score)).collect(),
            Err(_) => {
                ensure!(got.is_err(), "the estimator fails at hop {hop} but a tempo came back");
                return Ok(true);
            }
        }
        if i == 1 {
            full512 = c[1].clone();
            if let Some(g) = &cfg {
                nov = combined_novelty_with_params(
                    &ok(superflux_novelty(&s, g.superflux_max_filter_bins), "")?,
                    &ok(energy_flux_novelty(&s), "")?,
                    &ok(hfc_novelty(&s, sr), "")?,
                    g.novelty_w_spectral, g.novelty_w_energy, g.novelty_w_hfc,
                    g.novelty_local_mean_window, g.novelty_smooth_window,
                );
            }
        }
    }
    // decide the reference under small perturbations: different answers mean single precision cannot tell
    let mut rng = t.bulk();
    let nv = cfg.as_ref().map(|_| nov.as_slice());
    let exact = fuse_ref(&c, m, sr, nv);
    let mut fuzzy = false;
    for _ in 0..4 {
        let mut j = c.clone();
        for l in j.iter_mut() {
            for q in l.iter_mut() {
                q.1 *= 1.0 + 2e-5 * (rng.unit() as f32 - 0.5);
            }
        }
        let a = fuse_ref(&j, m, sr, nv);
        if a.map(|x| x.0.to_bits()) != exact.map(|x| x.0.to_bits()) {
            fuzzy = true;
        }
    }
    let (g, gc) = match (got, exact) {
        (Ok(g), Some(_)) => g,
        (Err(_), None) => return Ok(true),
        (g, e) => {
            fail(format!("fusion gave {:?}, the rules give {e:?}", g.map(|x| x.0)))?;
            return Ok(true);
        }
    };
    ensure!(g.bpm >= m.lo && g.bpm <= m.hi, "{} BPM is outside [{}, {}]", g.bpm, m.lo, m.hi);
    ensure!((0.0..=1.0).contains(&g.confidence), "confidence {}", g.confidence);
    ensure!(gc.len() == full512.len(), "{} candidates returned, {} expected", gc.len(), full512.len());
    for (a, b) in gc.iter().zip(&full512) {
        ensure!(a.bpm == b.0 && a.score == b.1, "candidate list differs from the base resolution's");
        let d = (a.bpm - g.bpm).abs();
        if (d - 0.75).abs() > 1e-3 {
            ensure!(a.selected == (d < 0.75), "candidate {} marked selected={} for {}", a.bpm, a.selected, g.bpm);
        }
    }
    if fuzzy {
        return Ok(false);
    }
    let e = exact.unwrap();
    t.nontrivial();
    ensure!(
        (g.bpm - e.0).abs() < 1e-2 && (g.confidence - e.1).abs() < 2e-3 && g.method_agreement == e.2,
        "fusion gave {g:?}, the rules give {e:?}"
    );
    Ok(true)
}

// ---------------------------------------------------------------- onset-based estimator

fn onset_list(t: &mut T, sr: u32, max: usize) -> Vec<usize> {
    let max = t.cap(max, 500, 800);
    let n = t.us(2, max);
    let mut rng = t.bulk();
    let mut v: Vec<usize> = match t.us(0, 3) {
        0 | 1 => {
            let per = 60.0 * sr as f64 / t.f(45.0, 230.0) as f64;
            let start = t.us(0, sr as usize);
            let jit = t.pick(&[0.0f64, 0.01, 0.05]);
            let drop = t.chance(1, 3);
            let sub = t.chance(1, 3);
            let mut v = vec![];
            for k in 0..n {
                if drop && rng.next() % 5 == 0 {
                    continue;
                }
                let p = start as f64 + k as f64 * per + jit * per * (rng.unit() - 0.5);
                v.push(p.max(0.0) as usize);
                if sub {
                    v.push((p + per / 2.0).max(0.0) as usize);
                }
            }
            v
        }
        2 => (0..n).map(|_| rng.next() as usize % (10 * sr as usize * (1 + n / 50))).collect(),
        _ => (0..n).map(|_| rng.next() as usize % 2000).collect(),
    };
    if t.bool() {
        v.sort();
    }
    if v.is_empty() {
        v.push(0);
    }
    v
}

fn legacy_autocorr_case(t: &mut T) -> R {
    let sr = t.pick(&[44100u32, 22050, 8000]);
    let hop = t.pick(&[512usize, 256, 1024, 128]);
    let lo = t.pick(&[40.0f32, 60.0, 90.0]);
    let hi = t.pick(&[240.0f32, 180.0, 100.0]);
    let on = onset_list(t, sr, 40);
    t.describe(|| format!("sr={sr} hop={hop} bpm=[{lo},{hi}] onsets={on:?}"));
    let r = estimate_bpm_from_autocorrelation(&on, sr, hop, lo, hi);
    let n = on.iter().max().unwrap() / hop + 1;
    if on.len() < 2 {
        ensure!(ok(r, "autocorr")?.is_empty(), "a tempo from one onset");
        return Ok(());
    }
    if n < 2 {
        ensure!(matches!(r, Err(AnalysisError::ProcessingError(_))), "onsets within one frame gave {r:?}");
        return Ok(());
    }
    let got = ok(r, "autocorr")?;
    let mut sig = vec![0u32; n];
    for o in &on {
        sig[o / hop] = 1;
    }
    let acf: Vec<u32> = (0..n).map(|l| (0..n - l).map(|i| sig[i] * sig[i + l]).sum()).collect();
    let a = 60.0 * sr as f64 / (hi as f64 * hop as f64);
    let b = 60.0 * sr as f64 / (lo as f64 * hop as f64);
    if (a - a.round()).abs() < 1e-3 || (b - b.round()).abs() < 1e-3 {
        return Err(Stop::Discard);
    }
    let (la, lb) = (a.ceil() as usize, b.floor() as usize);
    for w in got.windows(2) {
        ensure!(w[0].confidence >= w[1].confidence, "candidates not ordered by confidence");
    }
    let mut want: Vec<(f64, f64)> = vec![];
    if la < lb && lb < n {
        let m = *acf[la..=lb].iter().max().unwrap() as f64;
        for l in la + 1..lb {
            let v = acf[l] as i64;
            let nb = acf[l - 1].max(acf[l + 1]) as i64;
            let d = (v - nb) as f64;
            if v > nb && (d - 0.1 * m).abs() < 1e-2 {
                return Err(Stop::Discard);
            }
            if v > nb && d >= 0.1 * m {
                want.push((60.0 * sr as f64 / (l as f64 * hop as f64), (v as f64 / acf[0].max(*acf.iter().max().unwrap()) as f64).min(1.0)));
            }
        }
    }
    ensure!(got.len() == want.len(), "{} candidates {got:?}, the autocorrelation has {} prominent peaks {want:?}", got.len(), want.len());
    for (bpm, c) in &want {
        ensure!(
            got.iter().any(|g| (g.bpm as f64 - bpm).abs() < 1e-4 * bpm && (g.confidence as f64 - c).abs() < 1e-3),
            "peak at {bpm} BPM with confidence {c} is missing from {got:?}"
        );
    }
    if !want.is_empty() {
        t.nontrivial();
    }
    Ok(())
}

fn legacy_comb_case(t: &mut T) -> R {
    let sr = t.pick(&[44100u32, 22050, 8000]);
    let lo = t.pick(&[40.0f32, 60.0, 90.0]);
    let hi = lo + t.pick(&[120.0f32, 20.0, 1.0]);
    let res = t.pick(&[1.0f32, 0.5, 2.0, 4.0]);
    let on = onset_list(t, sr, 25);
    t.describe(|| format!("sr={sr} bpm=[{lo},{hi}]/{res} onsets={on:?}"));
    let got = ok(estimate_bpm_from_comb_filter(&on, sr, 512, lo, hi, res), "comb")?;
    if on.len() < 2 {
        ensure!(got.is_empty(), "a tempo from one onset");
        return Ok(());
    }
    let mut s = on.clone();
    s.sort();
    let mut want: Vec<(f32, f64, f64)> = vec![];
    let mut bpm = lo;
    while bpm <= hi {
        let per = 60.0 * sr as f64 / bpm as f64;
        let tol = per * (0.1 * 120.0 / bpm as f64).clamp(0.05, 0.15);
        let q = *s.last().unwrap() as f64 / per;
        if (q - q.round()).abs() < 1e-4 + 1e-6 * q && q > 0.5 {
            return Err(Stop::Discard);
        }
        let nb = q.ceil() as usize + 1;
        let (mut a, mut b) = (0, 0);
        for k in 0..nb {
            let e = k as f64 * per;
            let d = s.iter().map(|&o| (o as f64 - e).abs()).fold(f64::INFINITY, f64::min);
            // the search may settle for an onset up to one sample further away
            let fuzz = 0.05 + 4e-7 * (e + d);
            a += (d + 1.0 + fuzz <= tol) as usize;
            b += (d <= tol + fuzz) as usize;
        }
        want.push((bpm, a as f64 / nb as f64, b as f64 / nb as f64));
        bpm += res;
    }
    let ml = want.iter().map(|w| w.1).fold(0.0, f64::max);
    let mh = want.iter().map(|w| w.2).fold(0.0, f64::max);
    for w in got.windows(2) {
        ensure!(w[0].confidence >= w[1].confidence, "candidates not ordered by confidence");
    }
    let mut used = 0;
    for (b, l, h) in &want {
        let (cl, ch) = if mh == 0.0 { (0.0, 0.0) } else { (l / mh, if ml > 0.0 { (h / ml).min(1.0) } else { 1.0 }) };
        let g: Vec<_> = got.iter().filter(|g| (g.bpm - b).abs() < 1e-3).collect();
        used += g.len();
        ensure!(g.len() <= 1, "{b} BPM appears twice");
        match g.first() {
            Some(g) => ensure!(
                g.confidence as f64 >= cl - 1e-5 && g.confidence as f64 <= ch + 1e-5 && g.confidence >= 0.1,
                "{b} BPM has confidence {}, {cl}..{ch} of the expected beats carry an onset", g.confidence
            ),
            None => ensure!(cl < 0.1 + 1e-5, "{b} BPM is missing although {cl} of its beats (relative) carry an onset"),
        }
        if cl == ch && cl > 0.1 {
            t.nontrivial();
        }
    }
    ensure!(used == got.len(), "tempos outside the grid in {got:?}");
    Ok(())
}

fn coarse_fine_case(t: &mut T) -> R {
    let sr = t.pick(&[44100u32, 8000]);
    let lo = t.pick(&[40.0f32, 60.0]);
    let hi = t.pick(&[240.0f32, 180.0]);
    let rng = t.pick(&[5.0f32, 1.0, 20.0]);
    let on = onset_list(t, sr, 20);
    t.describe(|| format!("sr={sr} [{lo},{hi}] r={rng} onsets={on:?}"));
    let c = ok(estimate_bpm_from_comb_filter(&on, sr, 512, lo, hi, 2.0), "coarse")?;
    let got = ok(coarse_to_fine_search(&on, sr, 512, lo, hi, rng), "coarse to fine")?;
    if c.is_empty() {
        ensure!(got.is_empty(), "a tempo from nothing");
        return Ok(());
    }
    t.nontrivial();
    let best = c[0].bpm;
    let f = ok(estimate_bpm_from_comb_filter(&on, sr, 512, (best - rng).max(lo), (best + rng).min(hi), 0.5), "fine")?;
    let want = if f.is_empty() { &c } else { &f };
    ensure!(
        got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a.confidence == b.confidence),
        "refinement around {best} BPM gave {got:?}, expected {want:?}"
    );
    for g in &got {
        ensure!(g.bpm >= lo && g.bpm <= hi && (f.is_empty() || (g.bpm - best).abs() <= rng), "{} BPM outside the refinement range", g.bpm);
    }
    Ok(())
}

fn cand_list(t: &mut T, many: bool) -> Vec<BpmCandidate> {
    let n = if many { t.us(0, 60) } else { t.us(0, 14) };
    let base = t.f(50.0, 120.0);
    let coarse = t.bool();
    let mut v: Vec<BpmCandidate> = (0..n)
        .map(|_| {
            let b = match t.us(0, 4) {
                0 => base,
                1 => base * 2.0,
                2 => base + t.f(-6.0, 6.0),
                3 => base * t.pick(&[0.5f32, 1.5, 3.0, 0.75]),
                _ => t.f(20.0, 300.0),
            };
            BpmCandidate {
                bpm: if coarse { (b * 2.0).round() / 2.0 } else { b },
                confidence: if coarse { t.us(1, 10) as f32 / 10.0 } else { t.f(0.0, 1.0) },
            }
        })
        .collect();
    v.sort_by(|a, b| b.confidence.total_cmp(&a.confidence));
    v
}

fn in_range(b: f32) -> bool {
    (60.0..=180.0).contains(&b)
}
fn merge_ref(a: &[BpmCandidate], c: &[BpmCandidate], cents: f32) -> Vec<BpmEstimate> {
    let tol = (cents / 1200.0).exp2() - 1.0;
    let mut a = a.to_vec();
    for x in a.iter_mut() {
        for y in c.iter().take(3) {
            if (x.bpm / y.bpm / 2.0 - 1.0).abs() < tol && (in_range(y.bpm) || x.bpm > 200.0 || x.bpm < 30.0) {
                x.bpm = y.bpm;
                break;
            }
        }
    }
    for x in a.iter_mut() {
        for y in c.iter().take(3) {
            if (y.bpm / x.bpm / 2.0 - 1.0).abs() < tol && in_range(y.bpm) {
                x.bpm = y.bpm;
                break;
            }
        }
    }
    let disagree = match (a.first(), c.first()) {
        (Some(x), Some(y)) => {
            let d = (x.bpm - y.bpm).abs();
            d > 10.0 && d < 50.0
        }
        _ => false,
    };
    let mut al: Vec<BpmCandidate> = a.iter().take(10).cloned().collect();
    for x in &a {
        if in_range(x.bpm) && al.iter().all(|y| (x.bpm - y.bpm).abs() >= 1.0) {
            al.push(x.clone());
        }
    }
    let cl: Vec<BpmCandidate> = c.iter().take(10).cloned().collect();
    let mut g: Vec<(f32, f32, u32, f32)> = vec![];
    for x in al.iter().chain(&cl) {
        match g.iter_mut().find(|q| (x.bpm - q.0).abs() <= 2.0) {
            Some(q) => {
                q.0 = (q.0 * q.2 as f32 + x.bpm) / (q.2 + 1) as f32;
                q.1 += x.confidence;
                q.2 += 1;
                q.3 = q.3.max(x.confidence);
            }
            None => g.push((x.bpm, x.confidence, 1, x.confidence)),
        }
    }
    let mut out: Vec<BpmEstimate> = g
        .into_iter()
        .map(|(bpm, sum, n, mx)| {
            let mut cf = if n >= 2 { ((sum / n as f32 + mx) / 2.0 * 1.2).min(1.0) } else { sum.min(1.0) };
            if disagree && n == 1 {
                cf *= 0.7;
            }
            BpmEstimate { bpm, confidence: cf, method_agreement: n }
        })
        .collect();
    for e in out.iter_mut() {
        let dir = |l: &[BpmCandidate]| l.iter().take(5).any(|x| (x.bpm - e.bpm).abs() < 2.5);
        let har = |l: &[BpmCandidate]| {
            l.iter().take(5).any(|x| {
                let r = (x.bpm / e.bpm).max(e.bpm / x.bpm);
                (r - 2.0).abs() < 0.1 || (r - 1.5).abs() < 0.1
            })
        };
        let (ad, cd, ah, ch) = (dir(&al), dir(&cl), har(&al), har(&cl));
        if ad && cd {
            e.confidence *= 1.5;
        } else if (ad && ch) || (cd && ah) {
            e.confidence *= 1.3;
        }
        if cd && in_range(e.bpm) {
            e.confidence *= 1.4;
        }
    }
    if !out.iter().take(5).any(|e| in_range(e.bpm)) {
        if let Some(e) = out.iter_mut().find(|e| in_range(e.bpm)) {
            e.confidence *= 2.0;
        }
    }
    out
}
/// Less when x has to come before y
fn merge_order(x: &BpmEstimate, y: &BpmEstimate) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let eff = |e: &BpmEstimate| if in_range(e.bpm) { e.confidence } else { e.confidence * 0.5 };
    let (a, b) = (eff(x), eff(y));
    if (a - b).abs() < 0.5 {
        match (in_range(x.bpm), in_range(y.bpm)) {
            (true, false) => return Less,
            (false, true) => return Greater,
            _ => {}
        }
    }
    b.partial_cmp(&a).unwrap_or(Equal).then(y.method_agreement.cmp(&x.method_agreement))
}

fn merge_case(t: &mut T) -> R {
    let many = t.chance(1, 3);
    let a = cand_list(t, many);
    let c = cand_list(t, many);
    let cents = t.pick(&[50.0f32, 0.0, 200.0]);
    t.describe(|| format!("cents={cents} autocorr={a:?} comb={c:?}"));
    let got = ok(merge_bpm_candidates(a.clone(), c.clone(), cents), "merge")?;
    let want = merge_ref(&a, &c, cents);
    ensure!(got.len() == want.len(), "{} merged estimates, expected {}", got.len(), want.len());
    let mut left = want.clone();
    for g in &got {
        let Some(i) = left.iter().position(|w| {
            (w.bpm - g.bpm).abs() < 1e-3 && close(w.confidence as f64, g.confidence as f64, 1e-4, 1e-6) && w.method_agreement == g.method_agreement
        }) else {
            return fail(format!("estimate {g:?} does not follow from the candidates; expected one of {left:?}"));
        };
        left.swap_remove(i);
    }
    for w in got.windows(2) {
        ensure!(merge_order(&w[1], &w[0]) != std::cmp::Ordering::Less, "{:?} is ranked below {:?}", w[1], w[0]);
    }
    if !a.is_empty() && !c.is_empty() {
        t.nontrivial();
    }
    if got.len() > 20 {
        t.label("long");
    }
    Ok(())
}

fn legacy_estimate_case(t: &mut T) -> R {
    let sr = t.pick(&[44100u32, 22050, 8000]);
    let hop = t.pick(&[512usize, 256]);
    let lo = t.pick(&[40.0f32, 60.0]);
    let hi = t.pick(&[240.0f32, 180.0]);
    let res = t.pick(&[1.0f32, 0.5]);
    let on = onset_list(t, sr, 30);
    let g = LegacyBpmGuardrails {
        preferred_min: t.pick(&[75.0f32, 100.0, 150.0]),
        preferred_max: t.pick(&[150.0f32, 120.0, 90.0]),
        soft_min: t.pick(&[60.0f32, 110.0, 200.0]),
        soft_max: t.pick(&[180.0f32, 130.0, 100.0]),
        mul_preferred: t.pick(&[1.3f32, 1.0, f32::NAN]),
        mul_soft: t.pick(&[1.0f32, 0.5, -2.0]),
        mul_extreme: t.pick(&[0.7f32, 0.0, f32::INFINITY]),
    };
    let use_g = t.bool();
    t.describe(|| format!("sr={sr} hop={hop} [{lo},{hi}]/{res} guard={} {g:?} onsets={on:?}", use_g));
    let got = if use_g {
        estimate_bpm_with_guardrails(&on, sr, hop, lo, hi, res, g)
    } else {
        estimate_bpm(&on, sr, hop, lo, hi, res)
    };
    let a = estimate_bpm_from_autocorrelation(&on, sr, hop, lo, hi);
    let c = estimate_bpm_from_comb_filter(&on, sr, hop, lo, hi, res);
    let (Ok(a), Ok(c)) = (a, c) else {
        ensure!(got.is_err(), "a stage fails but the estimator does not");
        return Ok(());
    };
    let got = ok(got, "estimate")?;
    let (mut pm, mut px) = (60.0f32, 180.0f32);
    if use_g {
        pm = g.preferred_min.min(g.preferred_max);
        px = g.preferred_min.max(g.preferred_max);
    }
    let pref = a.iter().find(|x| x.bpm >= pm && x.bpm <= px).map(|x| x.bpm);
    let mut m = ok(merge_bpm_candidates(a, c, 50.0), "merge")?;
    if use_g {
        let sm = g.soft_min.min(g.soft_max).min(pm);
        let sx = g.soft_min.max(g.soft_max).max(px);
        let clean = |x: f32| if x.is_finite() { x.max(0.0) } else { 0.0 };
        for e in m.iter_mut() {
            e.confidence *= clean(if e.bpm >= pm && e.bpm <= px {
                g.mul_preferred
            } else if e.bpm >= sm && e.bpm <= sx {
                g.mul_soft
            } else {
                g.mul_extreme
            });
        }
    }
    let Some(got) = got else {
        ensure!(m.is_empty(), "no tempo from {m:?}");
        return Ok(());
    };
    ensure!(!m.is_empty(), "a tempo from nothing");
    t.nontrivial();
    ensure!(got.bpm >= lo - 1e-3 && got.bpm <= hi + 1e-3, "{} BPM outside [{lo}, {hi}]", got.bpm);
    let same = |e: &BpmEstimate| e.bpm == got.bpm && (e.confidence - got.confidence).abs() <= 1e-5 && e.method_agreement == got.method_agreement;
    let top = m.iter().map(|e| e.confidence).fold(0.0, f32::max);
    let near: Vec<&BpmEstimate> = pref.map_or(vec![], |p| m.iter().filter(|e| (e.bpm - p).abs() < 2.0).collect());
    if !near.is_empty() {
        // several groups can lie within 2 BPM of the preferred pick: the best ranked of them
        ensure!(near.iter().any(|e| same(e)), "{got:?} chosen; the strongest preferred periodicity is {pref:?} and the merged estimates near it are {near:?}");
        if near.len() == 1 || use_g {
            let mx = near.iter().map(|e| e.confidence).fold(0.0, f32::max);
            ensure!(!use_g || got.confidence >= mx - 1e-5, "{got:?} is not the strongest estimate near {pref:?}");
        } else {
            ensure!(same(near[0]), "{got:?} is not the best-ranked estimate near {pref:?}");
        }
        t.label("preferred");
    } else if use_g {
        ensure!(m.iter().any(|e| same(e)) && got.confidence >= top - 1e-5, "{got:?} is not the most confident of {m:?}");
    } else {
        ensure!(same(&m[0]), "{got:?} is not the top-ranked estimate {:?}", m[0]);
    }
    Ok(())
}

fn peaks_case(t: &mut T) -> R {
    let n = t.cap(40, 3000, 300);
    let n = t.us(0, n);
    let mut rng = t.bulk();
    let lv = t.pick(&[3u64, 6, 1 << 20]);
    let neg = t.bool();
    let x: Vec<f32> = (0..n)
        .map(|_| (rng.next() % lv) as f32 / (lv as f32 - 1.0) * 2.0 - if neg { 0.7 } else { 0.0 })
        .collect();
    let th = t.pick(&[0.3f32, 0.0, 0.9, 1.0, 1.5, -0.5]);
    let md = t.pick(&[0usize, 1, 2, 3, 6, 1 << 32, usize::MAX]);
    t.describe(|| format!("threshold={th} min_distance={md} signal={}", fmtv(&x)));
    let got = find_peaks(&x, th, md);
    let mx = x.iter().copied().fold(0.0, f32::max);
    let abs = if th > 0.0 && th < 1.0 && mx > 0.0 { mx * th } else { th };
    let is = |i: usize| {
        n >= 3 && mx >= 1e-10 && x[i] >= abs && (i == 0 || x[i] > x[i - 1]) && (i + 1 == n || x[i] > x[i + 1])
    };
    for (k, &(i, v)) in got.iter().enumerate() {
        ensure!(i < n && x[i] == v && is(i), "({i}, {v}) is not a peak above the threshold");
        ensure!(k == 0 || got[k - 1].1 >= v, "peaks are not ordered by height");
        for &(j, _) in &got[..k] {
            ensure!(i != j && i.abs_diff(j) >= md, "peaks {i} and {j} are closer than {md}");
        }
    }
    let mut any = false;
    for i in 0..n {
        if is(i) && !got.iter().any(|g| g.0 == i) {
            ensure!(
                got.iter().any(|g| g.0.abs_diff(i) < md && g.1 >= x[i]),
                "peak {i} is missing without a higher or equal one within {md}"
            );
            any = true;
        }
    }
    if got.len() > 1 || any {
        t.nontrivial();
    }
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    let p = |name, quick, thorough, f| Part { name, quick, thorough, f, serial: false };
    v.push(Property {
        id: "C22",
        rule: "the curve has a rise larger than single-precision error, so it was compared value by value with the reference",
        assumptions: &["curves whose largest rise is below rounding error of the frame energies are only checked for length and range"],
        parts: vec![
            p("curves", 40000, 600000, novelty_case as fn(&mut T) -> R),
            p("mel", 10000, 200000, mel_case),
            p("combined", 30000, 400000, combined_case),
            p("malformed", 4000, 40000, novelty_malformed),
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C23",
        rule: "a periodicity with non-zero strength was compared with the reference (tempograms) or several candidates competed (estimator)",
        assumptions: &["tempos on the edge of the range, lags within rounding of an integer and near-equal scores accept either outcome"],
        parts: vec![
            p("autocorrelation", 4000, 80000, autocorr_tempogram_case as fn(&mut T) -> R),
            p("fft", 4000, 80000, fft_tempogram_case),
            p("estimator", 2500, 40000, estimator_case),
            p("invalid", 4000, 40000, tempogram_invalid),
        ],
        hang_is_violation: true,
    });
    v.push(Property {
        id: "C24",
        rule: "at least one tempo was proposed and compared with the reference",
        assumptions: &["equally ranked estimates may come in any order"],
        parts: vec![
            p("autocorrelation", 10000, 200000, legacy_autocorr_case as fn(&mut T) -> R),
            p("comb", 3000, 60000, legacy_comb_case),
            p("coarse-to-fine", 2000, 30000, coarse_fine_case),
            p("merge", 30000, 500000, merge_case),
            p("estimate", 3000, 60000, legacy_estimate_case),
            p("peaks", 30000, 500000, peaks_case),
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C29",
        rule: "the fusion rules give one tempo under single-precision perturbation, so the result was compared with the reference",
        assumptions: &["fusions whose outcome changes under a 1e-5 perturbation of the scores are only checked for range and bookkeeping"],
        parts: vec![
            p("agreement", 1000, 15000, multi_analysis_case as fn(&mut T) -> R),
            p("fusion", 400, 8000, multi_samples_case),
            p("range-edges", 250, 6000, range_edges_case),
        ],
        hang_is_violation: false,
    });
}
