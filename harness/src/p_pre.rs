//! Preprocessing: loudness normalisation, silence trimming, stereo downmix.
use crate::engine::*;
use crate::gen::*;
use stratum_dsp::preprocessing::channel_mixer::{stereo_to_mono, ChannelMixMode};
use stratum_dsp::preprocessing::normalization::{normalize, NormalizationConfig, NormalizationMethod};
use stratum_dsp::preprocessing::silence::{detect_and_trim, SilenceDetector};
use stratum_dsp::AnalysisError;

/// Samples made of a few segments, each with its own level and texture.
pub fn segments(t: &mut T, levels: &[f32], max_len: usize) -> (Vec<f32>, String) {
    let k = t.us(1, 7);
    let mut rng = t.bulk();
    let mut v: Vec<f32> = vec![];
    let mut d = String::new();
    for _ in 0..k {
        let len = t.us(0, max_len);
        let a = t.pick(levels);
        let tex = t.us(0, 4);
        let w = t.f(0.05, 1.5);
        for i in 0..len {
            v.push(match tex {
                0 => a,
                1 => if i % 2 == 0 { a } else { -a },
                2 => a * (rng.unit() * 2.0 - 1.0) as f32,
                3 => a * ((i as f32) * 0.37).sin(),
                _ => a * ((i as f32) * w).sin(),
            });
        }
        d += &format!("[{} samples tex{} amp {}]", len, tex, a);
    }
    (v, d)
}

fn peak(v: &[f32]) -> f64 {
    v.iter().fold(0.0f64, |a, &x| a.max(x.abs() as f64))
}
fn rms(v: &[f32]) -> f64 {
    if v.is_empty() {
        return 0.0;
    }
    (v.iter().map(|&x| x as f64 * x as f64).sum::<f64>() / v.len() as f64).sqrt()
}
fn db(x: f64) -> f64 {
    20.0 * x.log10()
}

/// Reference gated loudness; None if some block sits on the gate.
fn ref_lufs(v: &[f32], sr: f64) -> Option<f64> {
    let w0 = 2.0 * std::f64::consts::PI * 1681.9745 / sr;
    let (c, s) = (w0.cos(), w0.sin());
    let alpha = s / 2.0 * (1.0f64 / 0.707).sqrt();
    let a0 = 1.0 + alpha;
    let (b0, b1, b2) = ((1.0 + c) / 2.0 / a0, -(1.0 + c) / a0, (1.0 + c) / 2.0 / a0);
    let (a1, a2) = (-2.0 * c / a0, (1.0 - alpha) / a0);
    let bs = (sr * 400.0 / 1000.0) as usize;
    let mut x = [0f64; 2];
    let mut y = [0f64; 2];
    let f: Vec<f64> = v
        .iter()
        .map(|&q| {
            let q = q as f64;
            let o = b0 * q + b1 * x[0] + b2 * x[1] - a1 * y[0] - a2 * y[1];
            x = [q, x[0]];
            y = [o, y[0]];
            o
        })
        .collect();
    let gate = 10f64.powf((-70.0 + 0.691) / 10.0);
    let mut g = vec![];
    for b in f.chunks(bs) {
        let e = b.iter().map(|x| x * x).sum::<f64>() / b.len() as f64;
        if (e / gate - 1.0).abs() < 0.02 {
            return None;
        }
        if e > gate {
            g.push(e);
        }
    }
    if g.is_empty() {
        return Some(f64::NEG_INFINITY);
    }
    Some(-0.691 + 10.0 * (g.iter().sum::<f64>() / g.len() as f64).log10())
}

fn norm_case(t: &mut T) -> R {
    let method = t.us(0, 2);
    let headroom = match t.weighted(&[4, 2, 1]) {
        0 => t.pick(&[1.0f32, 0.0, 0.1, 3.0, 6.0, 12.0]),
        1 => t.f(0.0, 20.0),
        _ => if method == 2 { 0.5 } else { -t.f(0.0, 6.0) },
    };
    let target = if t.bool() { t.f(-40.0, 0.0) } else { -14.0 };
    let sr = t.pick(&[8000.0f32, 44100.0, 48000.0, 1000.0, 22050.0]);
    // with sr=1000 the K-weighting corner is above Nyquist: only levels, no loudness claim
    let sr = if method == 2 && sr < 8000.0 { 8000.0 } else { sr };
    let base = t.pick(&[1.0f32, 0.25, 0.01, 1e-4, 30.0, 1e-6]);
    let lv = [base, base * 0.5, 0.0, base * 0.03, base * 1e-3, base * 0.9];
    let maxlen = if method == 2 { t.cap(9000, 200000, 120) } else { t.cap(1500, 60000, 60) };
    let (v, d) = segments(t, &lv, maxlen);
    t.describe(|| format!("method {} headroom {} target {} sr {} signal {}", method, headroom, target, sr, d));
    let m = [NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness][method];
    let cfg = NormalizationConfig { target_loudness_lufs: target, max_headroom_db: headroom, method: m };
    let mut out = v.clone();
    let r = normalize(&mut out, cfg.clone(), sr);
    if v.is_empty() {
        t.label("empty");
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "empty buffer not rejected as invalid input: {:?}", r.map(|_| ()));
        return Ok(());
    }
    let md = match r {
        Ok(m) => m,
        Err(e) => return fail(format!("normalisation of finite samples failed: {}", e)),
    };
    ensure!(out.len() == v.len(), "length changed");
    let (p, rm) = (peak(&v), rms(&v));
    let silent = if method == 1 { rm <= 1e-10 } else { p <= 1e-10 };
    let near_silent = if method == 1 { rm < 2e-10 } else { p < 2e-10 };
    if silent || near_silent {
        t.label("silent");
        if silent {
            ensure!(out == v, "silent buffer was modified");
            ensure!(md.gain_db == 0.0, "silent buffer: reported gain {}", md.gain_db);
        }
        return Ok(());
    }
    t.nontrivial();
    // one common positive gain
    let po = peak(&out);
    let g = po / p;
    ensure!(g.is_finite() && g > 0.0, "no positive finite gain: in peak {} out peak {}", p, po);
    for i in 0..v.len() {
        let want = v[i] as f64 * g;
        ensure!(close(out[i] as f64, want, 2e-5, 1e-30), "sample {} not scaled by the common gain {}: {} -> {}", i, g, v[i], out[i]);
    }
    ensure!(close(db(g), md.gain_db as f64, 0.0, 0.01), "reported gain {} dB, applied {} dB", md.gain_db, db(g));
    ensure!(close(db(p), md.peak_db as f64, 0.0, 0.01), "reported peak {} dB, input peak {} dB", md.peak_db, db(p));
    ensure!(rm < 1e-9 || close(db(rm), md.rms_db as f64, 0.0, 0.1), "reported rms {} dB, input rms {} dB", md.rms_db, db(rm));
    let hr = 10f64.powf(-headroom as f64 / 20.0);
    match method {
        0 => {
            let want = hr.min(1.0);
            ensure!(close(po, want, 1e-4, 0.0), "peak mode: output peak {} wanted {}", po, want);
            ensure!(md.measured_lufs.is_none(), "peak mode reports a loudness");
            t.label("peak");
        }
        1 => {
            let want = 10f64.powf((target as f64 + 3.0 - headroom as f64) / 20.0);
            ensure!(po <= 1.0 + 1e-4, "rms mode: output peak {} above full scale", po);
            let free = want / rm * p;
            if free > 1.0 * 1.02 {
                t.label("rms-limited");
                ensure!(close(po, 1.0, 1e-4, 0.0), "rms mode limited: output peak {} wanted 1", po);
            } else if free < 0.98 {
                t.label("rms-free");
                ensure!(close(db(rms(&out)), db(want), 0.0, 0.1), "rms mode: output rms {} dB wanted {} dB", db(rms(&out)), db(want));
            }
            ensure!(md.measured_lufs.is_none(), "rms mode reports a loudness");
        }
        _ => {
            let Some(l) = ref_lufs(&v, sr as f64) else {
                t.label("on-gate");
                return Ok(());
            };
            if l == f64::NEG_INFINITY {
                t.label("below-gate");
                ensure!(close(po, hr.min(1.0), 1e-4, 0.0), "below gate: output peak {} wanted {}", po, hr);
                return Ok(());
            }
            let ml = match md.measured_lufs {
                Some(x) => x as f64,
                None => return fail("loudness mode reports no loudness"),
            };
            // the filter's rounding noise is far below the signal unless the filter removes nearly all of it
            let tol = if l > db(p) - 40.0 { 0.02 } else { 0.1 };
            ensure!(close(ml, l, 0.0, tol), "measured loudness {} LUFS, reference {}", ml, l);
            ensure!(po <= hr * (1.0 + 1e-4), "loudness mode: output peak {} above ceiling {}", po, hr);
            let free = p * 10f64.powf((target as f64 - l) / 20.0);
            if free > hr * 1.03 {
                t.label("lufs-limited");
                ensure!(close(po, hr, 1e-4, 0.0), "loudness mode limited: output peak {} wanted {}", po, hr);
            } else if free < hr * 0.97 {
                t.label("lufs-free");
                ensure!(close(db(g), target as f64 - l, 0.0, tol + 0.01), "loudness mode: gain {} dB wanted {}", db(g), target as f64 - l);
            }
        }
    }
    // idempotence: a second pass changes (almost) nothing (gated loudness may regate blocks)
    if method != 2 {
        let mut again = out.clone();
        if let Ok(m2) = normalize(&mut again, cfg, sr) {
            ensure!((m2.gain_db as f64).abs() < 0.05, "second pass applied {} dB", m2.gain_db);
        }
    }
    Ok(())
}

fn norm_err(t: &mut T) -> R {
    let method = t.us(0, 2);
    let m = [NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness][method];
    let sr = t.pick(&[0.0f32, -1.0, 1.0, 2.0, 44100.0]);
    let n = t.us(0, 3);
    let mut v = vec![0.5f32; n];
    let v0 = v.clone();
    t.describe(|| format!("method {} sr {} n {}", method, sr, n));
    let r = normalize(&mut v, NormalizationConfig { target_loudness_lufs: -14.0, max_headroom_db: 1.0, method: m }, sr);
    if n == 0 || (method == 2 && sr * 0.4 < 1.0) {
        t.nontrivial();
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "invalid input accepted");
        ensure!(v == v0, "rejected buffer was modified");
    } else {
        ensure!(r.is_ok(), "valid input rejected: {:?}", r.err());
    }
    Ok(())
}

/// documented trimming rule, frame by frame
fn trim_case(t: &mut T) -> R {
    let sr = t.pick(&[1000u32, 100, 8000, 44100, 50, 7]);
    let fs = match t.weighted(&[3, 3, 1]) {
        0 => t.us(2, 64),
        1 => t.pick(&[2usize, 3, 4, 5, 16, 100, 256, 2048]),
        _ => 1,
    };
    let min_ms = t.pick(&[500u32, 0, 1, 50, 100, 1000]);
    let thr_db = t.pick(&[-40.0f32, -20.0, -60.0, -6.0, -40.0]);
    let thr = 10f64.powf(thr_db as f64 / 20.0);
    let q = thr as f32;
    let lv = [0.0f32, q * 0.5, q * 0.97, q * 1.04, q * 3.0, (q * 30.0).min(1.0), q * 0.01];
    // keep the number of frames moderate but long enough to exceed the minimum duration
    let maxlen = (fs * 12 + sr as usize / 2).min(6000);
    let maxlen = t.cap(maxlen, maxlen.max(150000), 400);
    let (v, d) = segments(t, &lv, maxlen);
    t.describe(|| format!("sr {} frame {} min_ms {} thr {} dB signal {}", sr, fs, min_ms, thr_db, d));
    let det = SilenceDetector { threshold_db: thr_db, min_duration_ms: min_ms, frame_size: fs };
    let (tr, map) = match detect_and_trim(&v, sr, det) {
        Ok(x) => x,
        Err(e) => return fail(format!("valid parameters rejected: {}", e)),
    };
    if v.is_empty() {
        ensure!(tr.is_empty() && map.is_empty(), "empty input must give empty output");
        return Ok(());
    }
    // structural invariants
    let mut prev = 0;
    for (i, &(a, b)) in map.iter().enumerate() {
        ensure!(a < b && b <= v.len(), "silence region {} = ({},{}) out of bounds (len {})", i, a, b, v.len());
        ensure!(i == 0 || a >= prev, "silence regions overlap or are unsorted: {:?}", map);
        prev = b;
    }
    // reference
    let hop = (fs / 2).max(1);
    let nf = if v.len() >= fs { (v.len() - fs) / hop + 1 } else { 1 };
    let mut sil = vec![];
    let mut any_sil = false;
    let mut any_loud = false;
    for i in 0..nf {
        let s = i * hop;
        let e = (s + fs).min(v.len());
        let r = rms(&v[s..e]);
        if (r / thr - 1.0).abs() < 2e-3 {
            t.label("on-threshold");
            return Ok(());
        }
        sil.push(r <= thr);
        any_sil |= r <= thr;
        any_loud |= r > thr;
    }
    let exact = min_ms as f64 / 1000.0 * sr as f64;
    let mf = (exact + 1e-9) as usize;
    if (exact - exact.round()).abs() > 1e-9 && (exact - exact.round()).abs() < 1e-3 {
        return Ok(());
    }
    let mff = mf.div_ceil(hop);
    let mut want: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < nf {
        if !sil[i] {
            i += 1;
            continue;
        }
        let st = i;
        while i < nf && sil[i] {
            i += 1;
        }
        if i - st >= mff || st == 0 {
            want.push((st * hop, if i < nf { i * hop } else { v.len() }));
        }
    }
    ensure!(map == want, "silence map {:?}, documented rule gives {:?}", map, want);
    let a = match want.first() {
        Some(&(0, e)) => e,
        _ => 0,
    };
    let b = match want.last() {
        Some(&(s, e)) if e == v.len() => s,
        _ => v.len(),
    };
    let exp: &[f32] = if a < b { &v[a..b] } else { &[] };
    ensure!(tr == exp, "trimmed to {} samples, documented rule keeps [{}, {})", tr.len(), a, b);
    if any_sil && any_loud {
        t.nontrivial();
        t.label("mixed");
    }
    if any_sil && !any_loud {
        t.label("all-silent");
        ensure!(tr.is_empty(), "all-silent input kept {} samples", tr.len());
    }
    if !any_sil {
        t.label("all-loud");
        ensure!(tr == v, "no silence but input was shortened");
    }
    if b < v.len() && a < b {
        t.label("tail-trimmed");
    }
    if want.len() > 2 {
        t.label("interior-region");
    }
    Ok(())
}

fn trim_err(t: &mut T) -> R {
    let sr = t.pick(&[0u32, 44100]);
    let fs = t.pick(&[0usize, 1, 2, 4096]);
    let n = t.us(0, 5);
    t.describe(|| format!("sr {} fs {} n {}", sr, fs, n));
    let r = detect_and_trim(&vec![0.3; n], sr, SilenceDetector { threshold_db: -40.0, min_duration_ms: 500, frame_size: fs });
    if n == 0 {
        ensure!(matches!(&r, Ok((a, b)) if a.is_empty() && b.is_empty()), "empty input");
    } else if sr == 0 || fs == 0 {
        t.nontrivial();
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "invalid parameters accepted");
    } else {
        ensure!(r.is_ok(), "valid parameters rejected");
    }
    Ok(())
}

fn mix_case(t: &mut T) -> R {
    let max = t.cap(40, 200000, 1500);
    let n = t.us(0, max);
    let coarse = t.bool();
    let mut rng = t.bulk();
    let mut gv = |t: &mut T| if max > 40 { (rng.unit() * 2.0 - 1.0) as f32 } else if coarse { t.coarse(-1.0, 1.0, 8) } else { t.f(-1.0, 1.0) };
    let l: Vec<f32> = (0..n).map(|_| gv(t)).collect();
    let n2 = if t.chance(1, 8) { t.us(0, max) } else { n };
    let mut r: Vec<f32> = (0..n2).map(|_| gv(t)).collect();
    if t.chance(1, 6) && n2 == n {
        r = l.iter().map(|x| -x).collect();
    } else if t.chance(1, 4) && n2 == n {
        // nearly equal magnitudes
        let mut rng = t.bulk();
        let w = t.pick(&[1u64, 8, 64, 1 << 16]);
        r = l
            .iter()
            .map(|x| {
                let d = (rng.next() % (2 * w + 1)) as i64 - w as i64;
                let y = f32::from_bits((x.to_bits() as i64 + d).max(0) as u32);
                let y = if y.is_finite() && y.abs() <= 1.0 { y } else { *x };
                if rng.next() % 2 == 0 { -y } else { y }
            })
            .collect();
    }
    let mode = t.us(0, 3);
    let m = [ChannelMixMode::Mono, ChannelMixMode::MidSide, ChannelMixMode::Dominant, ChannelMixMode::Center][mode];
    t.describe(|| format!("mode {:?} L {} R {}", m, fmtv(&l), fmtv(&r)));
    let res = stereo_to_mono(&l, &r, m);
    if n != n2 {
        t.label("mismatch");
        t.nontrivial();
        ensure!(matches!(res, Err(AnalysisError::InvalidInput(_))), "length mismatch accepted");
        return Ok(());
    }
    let out = match res {
        Ok(o) => o,
        Err(e) => return fail(format!("rejected: {}", e)),
    };
    ensure!(out.len() == n, "output length {} for {} frames", out.len(), n);
    for i in 0..n {
        let (a, b, o) = (l[i] as f64, r[i] as f64, out[i] as f64);
        if mode == 2 {
            let want_l = a.abs() >= b.abs();
            let want_r = b.abs() >= a.abs();
            ensure!((want_l && o == a) || (want_r && o == b), "frame {}: dominant of ({}, {}) gave {}", i, a, b, o);
        } else {
            ensure!(close(o, (a + b) / 2.0, 1e-6, 1e-7), "frame {}: average of ({}, {}) gave {}", i, a, b, o);
        }
    }
    if n > 0 {
        t.nontrivial();
        t.label(["mono", "midside", "dominant", "center"][mode]);
    }
    // identical channels pass through; swapping channels changes nothing but exact ties
    let same = stereo_to_mono(&l, &l, m).map_err(|e| Stop::Fail(e.to_string()))?;
    for i in 0..n {
        ensure!(close(same[i] as f64, l[i] as f64, 1e-6, 0.0), "identical channels altered at {}", i);
    }
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    v.push(Property {
        id: "C10",
        rule: "A buffer is a sequence of generated segments (level x texture x length) with a generated method, target and headroom; non-trivial = not silent and not rejected, so a gain is applied and every level claim is evaluated",
        assumptions: &["reported levels compared within 0.1 dB, gains within 0.01 dB", "blocks within 2% of the loudness gate are not judged"],
        parts: vec![
            Part { name: "gain", quick: 8000, thorough: 200000, f: norm_case, serial: false },
            Part { name: "reject", quick: 400, thorough: 4000, f: norm_err, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C11",
        rule: "A buffer is a sequence of generated segments with levels around the silence threshold; non-trivial = contains both windows below and windows above the threshold (or, for the reject part, an invalid parameter)",
        assumptions: &["windows whose RMS is within 0.2% of the threshold are not judged"],
        parts: vec![
            Part { name: "rule", quick: 60000, thorough: 1500000, f: trim_case, serial: false },
            Part { name: "reject", quick: 300, thorough: 2000, f: trim_err, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C12",
        rule: "Two generated channels (fine or coarse-valued, sometimes opposite polarity or unequal length) and a mixing mode; non-trivial = at least one frame, or unequal lengths",
        assumptions: &[],
        parts: vec![Part { name: "mix", quick: 60000, thorough: 1500000, f: mix_case, serial: false }],
        hang_is_violation: false,
    });
}
