//! Spectrogram, HPSS, onset detectors, consensus voting.
use crate::engine::*;
use crate::gen::*;
use std::f64::consts::PI;
use stratum_dsp::features::chroma::extractor::compute_stft;
use stratum_dsp::features::onset::consensus::{vote_onsets, OnsetConsensus};
use stratum_dsp::features::onset::energy_flux::detect_energy_flux_onsets;
use stratum_dsp::features::onset::hfc::detect_hfc_onsets;
use stratum_dsp::features::onset::hpss::{detect_hpss_onsets, hpss_decompose};
use stratum_dsp::features::onset::spectral_flux::detect_spectral_flux_onsets;
use stratum_dsp::features::onset::threshold::{adaptive_threshold_median_mad, percentile_threshold};
use stratum_dsp::AnalysisError;

// ---------------------------------------------------------------- C13 STFT

fn stft_case(t: &mut T) -> R {
    let n = if t.chance(1, 150) { t.pick(&[1024usize, 2048, 4096, 8192, 3000]) } else if t.chance(1, 3) { t.pick(&[2usize, 3, 4, 8, 16, 32, 64, 128, 256, 512]) } else { t.us(2, 200) };
    let hop = if t.chance(1, 3) { t.us(1, 2 * n) } else { t.us(1, n) };
    let maxlen = n * 4 + 40;
    let maxlen = t.cap(maxlen, maxlen + 60000, 200);
    let len = match t.weighted(&[4, 1, 1]) {
        0 => t.us(0, maxlen),
        1 => n + hop * t.us(0, 3),
        _ => (n + hop * t.us(0, 3)).saturating_sub(1),
    };
    let mut rng = t.bulk();
    let kind = t.us(0, 3);
    let amp = t.pick(&[1.0f64, 0.01, 30.0]);
    let k = t.us(1, n.max(2) - 1) as f64;
    let x: Vec<f32> = (0..len)
        .map(|i| {
            (amp * match kind {
                0 => rng.unit() * 2.0 - 1.0,
                1 => (2.0 * PI * k * i as f64 / n as f64 / 2.0).sin(),
                2 => if i == len / 2 { 1.0 } else { 0.0 },
                _ => 1.0,
            }) as f32
        })
        .collect();
    t.describe(|| format!("frame {} hop {} len {} kind {} amp {}", n, hop, len, kind, amp));
    let s = match compute_stft(&x, n, hop) {
        Ok(s) => s,
        Err(e) => return fail(format!("spectrogram of a valid signal failed: {}", e)),
    };
    let nf = if len < n { 0 } else { (len - n) / hop + 1 };
    ensure!(s.len() == nf, "expected {} frames, got {}", nf, s.len());
    if nf == 0 {
        t.label("too short");
        return Ok(());
    }
    t.nontrivial();
    let win: Vec<f64> = (0..n).map(|i| 0.5 * (1.0 - (2.0 * PI * i as f64 / (n - 1) as f64).cos())).collect();
    let pick_frames: Vec<usize> = if nf <= 3 { (0..nf).collect() } else { vec![0, t.us(1, nf - 2), nf - 1] };
    for f in pick_frames {
        ensure!(s[f].len() == n / 2 + 1, "frame {} has {} bins, expected {}", f, s[f].len(), n / 2 + 1);
        let fr: Vec<f64> = (0..n).map(|i| x[f * hop + i] as f64 * win[i]).collect();
        let e: f64 = x[f * hop..f * hop + n].iter().map(|v| v.abs() as f64).sum::<f64>();
        let bins: Vec<usize> = if n <= 64 { (0..=n / 2).collect() } else { (0..24).map(|i| if i < 4 { i } else { rng.next() as usize % (n / 2 + 1) }).collect() };
        for b in bins {
            let (mut re, mut im) = (0.0, 0.0);
            for (i, v) in fr.iter().enumerate() {
                let a = 2.0 * PI * ((b * i) % n) as f64 / n as f64;
                re += v * a.cos();
                im -= v * a.sin();
            }
            let m = (re * re + im * im).sqrt();
            ensure!(
                close(s[f][b] as f64, m, 1e-4, 1e-5 * e + 1e-6 * amp),
                "frame {} bin {}: magnitude {} but the windowed transform gives {}", f, b, s[f][b], m
            );
        }
    }
    Ok(())
}

fn stft_invalid(t: &mut T) -> R {
    let len = t.us(0, 50);
    let x = vec![0.5f32; len];
    let (n, hop) = match t.us(0, 2) {
        0 => (t.us(0, 20), 0),
        1 => (0, t.us(0, 5)),
        _ => (1, t.us(0, 5)),
    };
    t.describe(|| format!("frame {} hop {} len {}", n, hop, len));
    t.nontrivial();
    match compute_stft(&x, n, hop) {
        Err(AnalysisError::InvalidInput(_)) => Ok(()),
        r => fail(format!("degenerate frame {} / hop {} not rejected: {:?}", n, hop, r.map(|v| v.len()))),
    }
}

// ---------------------------------------------------------------- C14 HPSS

fn med(mut v: Vec<f64>) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = v.len();
    if n % 2 == 0 {
        (v[n / 2 - 1] + v[n / 2]) * 0.5
    } else {
        v[n / 2]
    }
}

type Grid = Vec<Vec<f64>>;

/// One split the iteration may legitimately stop at, with the bounds single-precision arithmetic may reach
/// (a loud bin's rounding error can be as large as its quiet neighbours, and the medians pass it on).
struct Split {
    h: Grid,
    p: Grid,
    hb: (Grid, Grid),
    pb: (Grid, Grid),
}

/// All the splits the iteration may stop at: the stopping rule compares an absolute change with 1e-6, and
/// rounding alone moves that change by a few ulps of the largest bin.
fn ref_hpss(s: &[Vec<f32>], margin: usize) -> Option<Vec<Split>> {
    let (nf, nb) = (s.len(), s[0].len());
    let top = s.iter().flatten().fold(0f32, |a, &v| a.max(v)) as f64;
    let o: Grid = s.iter().map(|f| f.iter().map(|&v| v as f64).collect()).collect();
    let mut c = Split { h: o.clone(), p: o.clone(), hb: (o.clone(), o.clone()), pb: (o.clone(), o.clone()) };
    let mut stops = vec![];
    for it in 0..10 {
        let q = Split { h: c.h.clone(), p: c.p.clone(), hb: c.hb.clone(), pb: c.pb.clone() };
        let mut change = 0f64;
        let mut slack = 1e-7 + 5e-7 * top;
        for i in 0..nf {
            let fr = i.saturating_sub(margin)..(i + margin + 1).min(nf);
            for b in 0..nb {
                let bn = b.saturating_sub(margin)..(b + margin + 1).min(nb);
                let along = |g: &Grid| med(fr.clone().map(|k| g[k][b]).collect());
                let across = |g: &Grid| med(bn.clone().map(|k| g[i][k]).collect());
                let (hm, pm) = (along(&q.h), across(&q.p));
                let (hl, hh, pl, ph) = (along(&q.hb.0), along(&q.hb.1), across(&q.pb.0), across(&q.pb.1));
                if hl + pl < 2e-10 && hh + ph > 0.5e-10 {
                    return None;
                }
                let (r, rl, rh) = if hm + pm > 1e-10 { (hm / (hm + pm), hl / (hl + ph), hh / (hh + pl)) } else { (0.5, 0.5, 0.5) };
                let v = o[i][b];
                let e = 3e-7;
                c.h[i][b] = v * r;
                c.p[i][b] = v * (1.0 - r);
                c.hb.0[i][b] = v * (rl - e).max(0.0);
                c.hb.1[i][b] = v * (rh + e);
                c.pb.0[i][b] = v * (1.0 - rh - e).max(0.0);
                c.pb.1[i][b] = v * (1.0 - rl + e);
                slack = slack.max(c.hb.1[i][b] - c.hb.0[i][b]);
                change = change.max((c.h[i][b] - q.h[i][b]).abs()).max((c.p[i][b] - q.p[i][b]).abs());
            }
        }
        if it == 9 || (it > 0 && change < 1e-6 + slack) {
            stops.push(Split { h: c.h.clone(), p: c.p.clone(), hb: c.hb.clone(), pb: c.pb.clone() });
        }
        if it > 0 && change < 1e-6 - slack {
            break;
        }
    }
    Some(stops)
}

fn hpss_case(t: &mut T) -> R {
    let mf = t.cap(14, 250, 300);
    let mb = if mf > 14 { 10 } else { t.cap(14, 250, 300) };
    let s = spectrogram(t, mf, if mb > 14 { mb / mf.min(8) + 14 } else { mb });
    let margin = t.us(0, 8);
    let (nf, nb) = (s.len(), s[0].len());
    t.describe(|| format!("{}x{} margin {} spec {:?}", nf, nb, margin, s.iter().take(3).collect::<Vec<_>>()));
    let (h, p) = match hpss_decompose(&s, margin) {
        Ok(x) => x,
        Err(e) => return fail(format!("decomposition failed: {}", e)),
    };
    ensure!(h.len() == nf && p.len() == nf, "frame count changed");
    let mut any = false;
    for i in 0..nf {
        ensure!(h[i].len() == nb && p[i].len() == nb, "bin count changed");
        for b in 0..nb {
            ensure!(h[i][b] >= 0.0 && p[i][b] >= 0.0, "negative component at {},{}: {} {}", i, b, h[i][b], p[i][b]);
            ensure!(
                close((h[i][b] + p[i][b]) as f64, s[i][b] as f64, 1e-5, 1e-12),
                "components at frame {} bin {} sum to {} instead of {}", i, b, h[i][b] + p[i][b], s[i][b]
            );
            any |= s[i][b] > 0.0;
        }
    }
    if any && nf > 1 && nb > 1 {
        t.nontrivial();
    }
    let Some(stops) = ref_hpss(&s, margin) else {
        t.label("near a numerical switch: split not compared");
        return Ok(());
    };
    if stops.len() > 1 {
        t.label("several stopping points possible");
    }
    let mut first = None;
    for c in &stops {
        let bad = (0..nf).flat_map(|i| (0..nb).map(move |b| (i, b))).find(|&(i, b)| {
            let tol = 1e-3 * s[i][b] as f64 + 1e-12;
            let within = |v: f32, lo: f64, hi: f64| v as f64 >= lo - tol && v as f64 <= hi + tol;
            !(within(h[i][b], c.hb.0[i][b], c.hb.1[i][b]) && within(p[i][b], c.pb.0[i][b], c.pb.1[i][b]))
        });
        match bad {
            None => return Ok(()),
            Some((i, b)) => first = first.or(Some((i, b, c.h[i][b], c.p[i][b]))),
        }
    }
    let (i, b, rh, rp) = first.unwrap();
    fail(format!("split at frame {} bin {}: harmonic {} percussive {} but median filtering gives {} / {}", i, b, h[i][b], p[i][b], rh, rp))
}

/// A steady tone must go to the harmonic side and an isolated broadband frame to the percussive side.
fn hpss_separation(t: &mut T) -> R {
    let margin = t.us(2, 10);
    let nf = 4 * margin + 1 + t.us(0, 10);
    let nb = 4 * margin + 1 + t.us(0, 10);
    let tone = t.us(0, nb - 1);
    let click = t.us(0, nf - 1);
    let (a, c) = (t.f(0.2, 5.0), t.f(0.2, 5.0));
    let mut s = vec![vec![0f32; nb]; nf];
    for f in s.iter_mut() {
        f[tone] = a;
    }
    for b in 0..nb {
        if b != tone {
            s[click][b] = c;
        }
    }
    t.describe(|| format!("{}x{} margin {} tone at bin {} ({}), click at frame {} ({})", nf, nb, margin, tone, a, click, c));
    t.nontrivial();
    let (h, p) = match hpss_decompose(&s, margin) {
        Ok(x) => x,
        Err(e) => return fail(format!("decomposition failed: {}", e)),
    };
    for i in 0..nf {
        if i != click {
            ensure!(h[i][tone] >= 0.99 * a, "steady tone leaked: harmonic {} of {} at frame {}", h[i][tone], a, i);
        }
    }
    for b in 0..nb {
        if b != tone {
            ensure!(p[click][b] >= 0.99 * c, "click leaked: percussive {} of {} at bin {}", p[click][b], c, b);
        }
    }
    Ok(())
}

fn hpss_invalid(t: &mut T) -> R {
    let s: Vec<Vec<f32>> = match t.us(0, 2) {
        0 => vec![],
        1 => vec![vec![]; t.us(1, 4)],
        _ => {
            let nb = t.us(1, 5);
            let nf = t.us(2, 6);
            let bad = t.us(1, nf - 1);
            let delta = t.us(1, 3);
            let longer = t.bool();
            (0..nf)
                .map(|i| vec![1.0; if i == bad { if longer { nb + delta } else { nb.saturating_sub(delta) } } else { nb }])
                .collect()
        }
    };
    t.describe(|| format!("frame lengths {:?}", s.iter().map(|f| f.len()).collect::<Vec<_>>()));
    t.nontrivial();
    match hpss_decompose(&s, t.us(0, 4)) {
        Err(AnalysisError::InvalidInput(_)) => Ok(()),
        r => fail(format!("malformed spectrogram not rejected: {:?}", r.map(|x| x.0.len()))),
    }
}

// ---------------------------------------------------------------- C15 onset detectors

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tri {
    Yes,
    No,
    Maybe,
}
fn and(a: Tri, b: Tri) -> Tri {
    if a == Tri::No || b == Tri::No {
        Tri::No
    } else if a == Tri::Yes && b == Tri::Yes {
        Tri::Yes
    } else {
        Tri::Maybe
    }
}
fn gt(a: f64, b: f64, tol: f64) -> Tri {
    if tol == 0.0 {
        return if a > b { Tri::Yes } else { Tri::No };
    }
    if a - b > tol {
        Tri::Yes
    } else if a - b < -tol {
        Tri::No
    } else {
        Tri::Maybe
    }
}
fn ge(a: f64, b: f64, tol: f64) -> Tri {
    if tol == 0.0 {
        return if a >= b { Tri::Yes } else { Tri::No };
    }
    gt(a, b, tol)
}

/// For each rise value: is it an onset? (strict rise over the previous, not below the next, above the threshold)
fn ref_peaks(flux: &[f64], thr: f64, tol: f64, at_thr: Option<usize>) -> Vec<Tri> {
    let n = flux.len();
    (0..n)
        .map(|i| {
            if n < 2 {
                return Tri::No;
            }
            let mut r = if at_thr == Some(i) { Tri::No } else { gt(flux[i], thr, tol) };
            if i > 0 {
                r = and(r, gt(flux[i], flux[i - 1], tol));
            }
            if i + 1 < n {
                r = and(r, ge(flux[i], flux[i + 1], tol));
            }
            r
        })
        .collect()
}

fn check_onsets(got: &[usize], want: &[Tri], scale: usize, what: &str) -> R {
    for w in got.windows(2) {
        ensure!(w[0] < w[1], "{}: onsets not strictly increasing: {:?}", what, got);
    }
    for &g in got {
        ensure!(g % scale == 0 && g / scale >= 1 && g / scale <= want.len(), "{}: onset at {} is not a frame boundary of the signal", what, g);
    }
    for (i, w) in want.iter().enumerate() {
        let has = got.binary_search(&((i + 1) * scale)).is_ok();
        match w {
            Tri::Yes => ensure!(has, "{}: missing onset at frame {} (got {:?})", what, i + 1, got),
            Tri::No => ensure!(!has, "{}: spurious onset at frame {} (got {:?})", what, i + 1, got),
            Tri::Maybe => {}
        }
    }
    Ok(())
}

fn percentile_idx(t: &mut T, n: usize) -> (f32, Option<usize>) {
    let p = match t.weighted(&[3, 2, 1]) {
        0 => t.us(0, 16) as f32 / 16.0,
        1 => t.f(0.0, 1.0),
        _ => t.pick(&[0.8, 0.9, 0.5, 0.0, 1.0]),
    };
    if n == 0 {
        return (p, Some(0));
    }
    let e = n as f64 * p as f64;
    let (a, b) = ((e - 1e-4).max(0.0).floor(), (e + 1e-4).floor());
    let exact = (p * 16.0).fract() == 0.0;
    let idx = if a == b || exact { Some((e.floor() as usize).min(n - 1)) } else { None };
    (p, idx)
}

fn energy_case(t: &mut T) -> R {
    let exactish = t.bool();
    let frame = if exactish && t.bool() { 1 << t.us(0, 6) } else { t.us(1, 120) };
    let hop = if t.bool() { t.us(1, frame) } else if exactish { frame + t.us(0, 20) } else { t.us(1, 150) };
    let k = t.cap(14, 600, 300);
    let k = t.us(1, k);
    let mut rng = t.bulk();
    let mut x: Vec<f32> = vec![];
    let scale = t.pick(&[1.0f32, 0.1, 1e-3]);
    for _ in 0..k {
        let len = if exactish { hop * t.us(1, 3) } else { t.us(1, 200) };
        let a = t.us(0, 8) as f32 / 8.0 * scale;
        let noisy = !exactish && t.bool();
        for i in 0..len {
            x.push(if noisy { a * (rng.unit() * 2.0 - 1.0) as f32 } else if i % 2 == 0 { a } else { -a });
        }
    }
    let db = match t.weighted(&[3, 2, 1]) {
        0 => -20.0,
        1 => t.f(-60.0, 0.0),
        _ => t.f(0.0, 6.0),
    };
    t.describe(|| format!("frame {} hop {} threshold {} dB {} samples {}", frame, hop, db, x.len(), fmtv(&x)));
    let got = match detect_energy_flux_onsets(&x, frame, hop, db) {
        Ok(v) => v,
        Err(e) => return fail(format!("energy onset detection failed: {}", e)),
    };
    let nf = if x.len() < frame { 0 } else { (x.len() - frame) / hop + 1 };
    if nf < 2 {
        ensure!(got.is_empty(), "onsets in a signal with fewer than two frames: {:?}", got);
        return Ok(());
    }
    let e: Vec<f64> = (0..nf)
        .map(|i| (x[i * hop..i * hop + frame].iter().map(|&v| v as f64 * v as f64).sum::<f64>() / frame as f64).sqrt())
        .collect();
    let flux: Vec<f64> = e.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect();
    let mx = flux.iter().cloned().fold(0.0, f64::max);
    let emax = e.iter().cloned().fold(0.0, f64::max);
    let tol = 4e-5 * emax + 1e-12;
    if mx <= 2.0 * tol + 2e-10 {
        if mx == 0.0 && emax == 0.0 {
            ensure!(got.is_empty(), "onsets in constant silence: {:?}", got);
        }
        t.label("no rise");
        return Ok(());
    }
    let thr = mx * 10f64.powf(db as f64 / 20.0);
    let mut want = ref_peaks(&flux, thr, tol, None);
    // every frame lies in one stretch of constant dyadic level: the levels are exact, so equal rises are too
    let exact = exactish && scale == 1.0 && frame.is_power_of_two() && hop >= frame;
    if exact {
        let peaks = ref_peaks(&flux, 0.0, 0.0, None);
        for (i, w) in want.iter_mut().enumerate() {
            *w = and(gt(flux[i], thr, tol), peaks[i]);
        }
        t.label("exact");
    }
    // flux exactly zero is never a peak
    for (i, w) in want.iter_mut().enumerate() {
        if flux[i] == 0.0 {
            *w = if e[i + 1] <= e[i] - tol { Tri::No } else { *w };
        }
    }
    if want.contains(&Tri::Yes) {
        t.nontrivial();
    }
    // hop 1: positions half a hop apart are always kept
    check_onsets(&got, &want, hop, "energy rise")
}

fn spec_for_onsets(t: &mut T) -> (Vec<Vec<f32>>, bool) {
    let mf = t.cap(40, 3000, 300);
    let nf = t.us(1, mf);
    let mb = if mf > 40 { 12 } else { t.cap(12, 1025, 300) };
    let nb = t.us(1, mb);
    if t.bool() {
        // small integers: every reference quantity is exact in single precision
        let mut rng = t.bulk();
        let lv = t.us(1, 6) as u64;
        let sparse = t.us(0, 3) as u64;
        let s = (0..nf)
            .map(|_| {
                let quiet = sparse > 0 && rng.next() % (sparse + 1) != 0;
                (0..nb).map(|_| if quiet { 0.0 } else { (rng.next() % (lv + 1)) as f32 }).collect()
            })
            .collect();
        (s, true)
    } else {
        (spectrogram_sized(t, nf, nb), false)
    }
}

fn pct_threshold(flux: &[f64], idx: usize) -> (f64, Option<usize>) {
    let mut o: Vec<usize> = (0..flux.len()).collect();
    o.sort_by(|&a, &b| flux[a].partial_cmp(&flux[b]).unwrap());
    (flux[o[idx]], Some(o[idx]))
}

fn spectral_detector_case(t: &mut T) -> R {
    let (s, exact) = spec_for_onsets(t);
    let which = t.us(0, 2);
    let (p, idx) = percentile_idx(t, s.len() - 1);
    let sr = t.pick(&[44100u32, 8000, 1]);
    t.describe(|| format!("detector {} percentile {} {}x{} exact {} spec {:?}", ["spectral flux", "high-frequency content", "percussive energy"][which], p, s.len(), s[0].len(), exact, s.iter().take(4).collect::<Vec<_>>()));
    let r = match which {
        0 => detect_spectral_flux_onsets(&s, p),
        1 => detect_hfc_onsets(&s, sr, p),
        _ => detect_hpss_onsets(&s, p),
    };
    let got = match r {
        Ok(v) => v,
        Err(e) => return fail(format!("onset detection failed: {}", e)),
    };
    if s.len() < 2 {
        ensure!(got.is_empty(), "onsets from a single frame: {:?}", got);
        return Ok(());
    }
    let val = |f: &Vec<f32>| -> f64 {
        f.iter().enumerate().map(|(k, &m)| (if which == 1 { k as f64 } else { 1.0 }) * m as f64 * m as f64).sum()
    };
    let (flux, tol): (Vec<f64>, f64) = if which == 0 {
        let nrm: Vec<Vec<f64>> = s
            .iter()
            .map(|f| {
                let m = f.iter().cloned().fold(0.0f32, f32::max) as f64;
                f.iter().map(|&v| if m > 1e-10 { v as f64 / m } else { 0.0 }).collect()
            })
            .collect();
        (
            nrm.windows(2)
                .map(|w| w[0].iter().zip(&w[1]).map(|(a, b)| (b - a).max(0.0)).map(|x| x * x).sum::<f64>().sqrt())
                .collect(),
            2e-5,
        )
    } else {
        let e: Vec<f64> = s.iter().map(val).collect();
        let em = e.iter().cloned().fold(0.0, f64::max);
        (e.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect(), if exact { 0.0 } else { 2e-5 * em + 1e-30 })
    };
    let Some(idx) = idx else { return Err(Stop::Discard) };
    let (thr, at) = pct_threshold(&flux, idx);
    let alone = flux.iter().filter(|f| (**f - thr).abs() <= tol).count() == 1;
    let want = ref_peaks(&flux, thr, tol, if tol > 0.0 && alone { at } else { None });
    let yes = want.iter().filter(|w| **w == Tri::Yes).count();
    if yes > 0 {
        t.nontrivial();
    }
    if tol == 0.0 {
        t.label("exact comparison");
    }
    check_onsets(&got, &want, 1, "spectral detector")
}

/// nothing to look at, nothing found
fn detector_empty(t: &mut T) -> R {
    let e: Vec<Vec<f32>> = vec![];
    let one = vec![vec![t.f(0.0, 1.0); t.us(1, 4)]];
    let s = if t.bool() { &e } else { &one };
    let p = t.f(0.0, 1.0);
    let n = t.us(0, 20);
    let f = n + t.us(1, 20);
    t.describe(|| format!("{} frames, percentile {p}; {n} samples in frames of {f}", s.len()));
    t.nontrivial();
    let x = vec![0.5f32; n];
    for (name, r) in [
        ("energy", detect_energy_flux_onsets(&x, f, 4, -20.0)),
        ("spectral", detect_spectral_flux_onsets(s, p)),
        ("high-frequency", detect_hfc_onsets(s, 44100, p)),
        ("percussive", detect_hpss_onsets(s, p)),
    ] {
        ensure!(matches!(&r, Ok(v) if v.is_empty()), "{name} detector on too little material: {r:?}");
    }
    Ok(())
}

fn detector_invalid(t: &mut T) -> R {
    let which = t.us(0, 2);
    let mode = t.us(0, 2);
    let nf = t.us(2, 6);
    let nb = t.us(1, 5);
    let mut s = vec![vec![1.0f32; nb]; nf];
    let mut p = 0.8;
    let mut sr = 44100;
    match mode {
        0 => p = t.pick(&[1.5f32, -0.1, f32::NAN, 1.0001, f32::INFINITY]),
        1 if which != 2 => {
            let i = t.us(0, nf - 1);
            if t.bool() {
                s[i].push(1.0)
            } else {
                s[i].pop();
            }
        }
        _ if which == 1 => sr = 0,
        _ => {
            // energy detector argument checks
            let x = vec![0.1f32; t.us(1, 50)];
            let (f, h) = if t.bool() { (0, t.us(0, 3)) } else { (t.us(0, 60), 0) };
            t.describe(|| format!("energy detector frame {} hop {}", f, h));
            t.nontrivial();
            return match detect_energy_flux_onsets(&x, f, h, -20.0) {
                Err(AnalysisError::InvalidInput(_)) => Ok(()),
                r => fail(format!("frame {} hop {} not rejected: {:?}", f, h, r)),
            };
        }
    }
    t.describe(|| format!("detector {} percentile {} sr {} frames {:?}", which, p, sr, s.iter().map(|f| f.len()).collect::<Vec<_>>()));
    t.nontrivial();
    let r = match which {
        0 => detect_spectral_flux_onsets(&s, p),
        1 => detect_hfc_onsets(&s, sr, p),
        _ => detect_hpss_onsets(&s, p),
    };
    match r {
        Err(AnalysisError::InvalidInput(_)) => Ok(()),
        r => fail(format!("malformed input not rejected: {:?}", r)),
    }
}

fn threshold_case(t: &mut T) -> R {
    let n = t.cap(20, 3000, 200);
    let n = t.us(0, n);
    let ints = t.bool();
    let v: Vec<f32> = (0..n).map(|_| if ints { t.us(0, 9) as f32 } else { t.f(-2.0, 10.0) }).collect();
    let k = t.pick(&[2.5f32, 0.0, 1.0, 3.0, -0.5]);
    let (p, idx) = percentile_idx(t, n);
    let p = if t.chance(1, 8) { t.pick(&[1.5f32, -0.2]) } else { p };
    t.describe(|| format!("k {} p {} values {:?}", k, p, v));
    let m = adaptive_threshold_median_mad(&v, k);
    let q = percentile_threshold(&v, p);
    if n == 0 || k < 0.0 {
        ensure!(m.is_err(), "invalid median/MAD request accepted: {:?}", m);
    } else {
        let vd: Vec<f64> = v.iter().map(|&x| x as f64).collect();
        let md = med(vd.clone());
        let mad = med(vd.iter().map(|x| (x - md).abs()).collect());
        let want = md + k as f64 * mad;
        let got = m.map_err(|e| Stop::Fail(format!("{}", e)))?;
        ensure!(close(got as f64, want, 1e-5, 1e-5), "median+MAD threshold {} expected {}", got, want);
        t.nontrivial();
    }
    if n == 0 || !(0.0..=1.0).contains(&p) {
        ensure!(q.is_err(), "invalid percentile request accepted: {:?}", q);
    } else if let Some(i) = idx {
        let mut o = v.clone();
        o.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let got = q.map_err(|e| Stop::Fail(format!("{}", e)))?;
        ensure!(got == o[i], "percentile threshold {} expected {}", got, o[i]);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16 consensus

fn consensus_case(t: &mut T) -> R {
    let sr = t.pick(&[1000u32, 44100, 8000, 48000]);
    let tol_ms = if t.bool() { t.u32(1, 80) } else { 50 };
    let tol_exact = tol_ms as f64 * sr as f64 / 1000.0;
    let tol = tol_exact.floor() as usize;
    // a tolerance that single precision may round below the integer: boundary undecided
    let near_int = (tol_ms as f32 / 1000.0 * sr as f32) as usize != tol;
    let base = match t.weighted(&[5, 1, 1]) {
        0 => 0usize,
        1 => (1usize << 31) - t.us(0, 5000),
        _ => (1usize << 32) - t.us(0, 5000),
    };
    // few large groups, so that chains of onsets form
    let ngroup = t.cap(6, 800, 500);
    let ngroup = t.us(0, ngroup);
    let mut lists: [Vec<usize>; 4] = Default::default();
    let mut pos = base;
    for _ in 0..ngroup {
        let chain = if t.chance(1, 200) { t.us(6, 200) } else { t.us(1, 6) };
        for _ in 0..chain {
            let m = t.us(0, 3);
            lists[m].push(pos);
            let step = match t.weighted(&[4, 2, 2, 2]) {
                0 => t.us(0, tol.max(1)),
                1 => tol,
                2 => tol + 1,
                _ => 0,
            };
            pos += step;
        }
        pos += match t.weighted(&[3, 1, 1]) {
            0 => tol * 3 + t.us(0, 10000),
            1 => tol + 1,
            _ => tol,
        };
    }
    if t.chance(1, 4) {
        // order of the input lists must not matter
        for l in lists.iter_mut() {
            l.reverse();
        }
    }
    let weights: [f32; 4] = match t.weighted(&[3, 3, 1]) {
        0 => [0.25; 4],
        1 => [t.us(0, 8) as f32 / 8.0, t.us(0, 8) as f32 / 8.0, t.us(0, 8) as f32 / 8.0, t.us(0, 8) as f32 / 8.0],
        _ => [0.0; 4],
    };
    t.describe(|| format!("sr {} tolerance {} ms ({} samples) weights {:?} lists {:?}", sr, tol_ms, tol, weights, lists));
    if near_int {
        return Err(Stop::Discard);
    }
    let got = match vote_onsets(
        OnsetConsensus { energy_flux: lists[0].clone(), spectral_flux: lists[1].clone(), hfc: lists[2].clone(), hpss: lists[3].clone() },
        weights, tol_ms, sr,
    ) {
        Ok(v) => v,
        Err(e) => return fail(format!("voting failed: {}", e)),
    };
    let mut all: Vec<(usize, usize)> = vec![];
    for (m, l) in lists.iter().enumerate() {
        all.extend(l.iter().map(|&s| (s, m)));
    }
    all.sort();
    let mut clusters: Vec<Vec<(usize, usize)>> = vec![];
    for o in all {
        match clusters.last_mut() {
            Some(c) if o.0 - c.last().unwrap().0 <= tol => c.push(o),
            _ => clusters.push(vec![o]),
        }
    }
    let wsum: f64 = weights.iter().map(|&w| w as f64).sum();
    let mut want: Vec<(usize, f64, u32)> = clusters
        .iter()
        .map(|c| {
            let center = (c.iter().map(|o| o.0 as u128).sum::<u128>() / c.len() as u128) as usize;
            let mut seen = [false; 4];
            c.iter().for_each(|o| seen[o.1] = true);
            let w: f64 = (0..4).filter(|&m| seen[m]).map(|m| weights[m] as f64).sum();
            (center, if wsum > 0.0 { (w / wsum).min(1.0) } else { 0.0 }, seen.iter().filter(|x| **x).count() as u32)
        })
        .collect();
    if clusters.iter().any(|c| c.len() > 1) && clusters.len() > 1 {
        t.nontrivial();
    }
    ensure!(got.len() == want.len(), "{} onsets reported, expected {} clusters: {:?}", got.len(), want.len(), got);
    for w in got.windows(2) {
        ensure!(w[0].confidence >= w[1].confidence, "not sorted by confidence: {:?}", got);
    }
    let mut g: Vec<_> = got.iter().collect();
    g.sort_by_key(|c| c.time_samples);
    want.sort_by_key(|w| w.0);
    for (a, b) in g.iter().zip(&want) {
        ensure!(a.time_samples == b.0, "onset at {} expected at {}", a.time_samples, b.0);
        ensure!(close(a.confidence as f64, b.1, 1e-5, 1e-5), "onset at {}: confidence {} expected {}", b.0, a.confidence, b.1);
        ensure!(a.voted_by == b.2, "onset at {}: {} methods reported, {} voted", b.0, a.voted_by, b.2);
        ensure!(close(a.time_seconds as f64, b.0 as f64 / sr as f64, 1e-5, 1e-6), "onset at sample {}: time {} s", b.0, a.time_seconds);
    }
    Ok(())
}

fn consensus_invalid(t: &mut T) -> R {
    let mode = t.us(0, 2);
    let mut w = [0.25f32; 4];
    let (mut tol, mut sr) = (50, 44100);
    match mode {
        0 => sr = 0,
        1 => tol = 0,
        _ => w[t.us(0, 3)] = -t.f(0.01, 1.0),
    }
    let l = if t.bool() { vec![100usize, 200] } else { vec![] };
    t.describe(|| format!("sr {} tol {} weights {:?} onsets {:?}", sr, tol, w, l));
    t.nontrivial();
    match vote_onsets(OnsetConsensus { energy_flux: l.clone(), spectral_flux: l, hfc: vec![], hpss: vec![] }, w, tol, sr) {
        Err(AnalysisError::InvalidInput(_)) => Ok(()),
        r => fail(format!("invalid parameters accepted: {:?}", r.map(|v| v.len()))),
    }
}

pub fn props(v: &mut Vec<Property>) {
    v.push(Property {
        id: "C13",
        rule: "the signal is at least one frame long, so at least one spectrum was compared bin by bin with a direct windowed transform (or the degenerate parameters had to be rejected)",
        assumptions: &["single-precision error of the FFT is bounded by 1e-5 of the frame's absolute sum plus 1e-4 of the magnitude"],
        parts: vec![
            Part { name: "naive-dft", quick: 20000, thorough: 300000, f: stft_case, serial: false },
            Part { name: "degenerate", quick: 2000, thorough: 20000, f: stft_invalid, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C14",
        rule: "more than one frame and bin and some energy; separation cases have one steady tone and one click",
        assumptions: &["cases in which the reference sits on a numerical switch (total 1e-10, change 1e-6) only check the sum and sign"],
        parts: vec![
            Part { name: "reference", quick: 20000, thorough: 300000, f: hpss_case, serial: false },
            Part { name: "separation", quick: 1500, thorough: 20000, f: hpss_separation, serial: false },
            Part { name: "malformed", quick: 3000, thorough: 30000, f: hpss_invalid, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C15",
        rule: "the reference detector marks at least one frame as an unambiguous onset",
        assumptions: &["comparisons of the reference within single-precision error of equality count as either"],
        parts: vec![
            Part { name: "energy", quick: 60000, thorough: 1000000, f: energy_case, serial: false },
            Part { name: "spectral", quick: 60000, thorough: 1000000, f: spectral_detector_case, serial: false },
            Part { name: "malformed", quick: 5000, thorough: 50000, f: detector_invalid, serial: false },
            Part { name: "too-short", quick: 2000, thorough: 20000, f: detector_empty, serial: false },
            Part { name: "thresholds", quick: 20000, thorough: 200000, f: threshold_case, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C16",
        rule: "at least two clusters, one of them with several onsets",
        assumptions: &[],
        parts: vec![
            Part { name: "model", quick: 100000, thorough: 2000000, f: consensus_case, serial: false },
            Part { name: "invalid", quick: 3000, thorough: 30000, f: consensus_invalid, serial: false },
        ],
        hang_is_violation: false,
    });
}
