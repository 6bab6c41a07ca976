//! Beat tracking: alignment, grid assembly, Bayesian tempo updates, tempo segments, metre.
use crate::engine::*;
use crate::gen::*;
use stratum_dsp::features::beat_tracking::bayesian::BayesianBeatTracker;
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::beat_tracking::hmm::HmmBeatTracker;
use stratum_dsp::features::beat_tracking::tempo_variation::*;
use stratum_dsp::features::beat_tracking::time_signature::*;
use stratum_dsp::AnalysisError;

fn ok<X>(r: Result<X, AnalysisError>, what: &str) -> Result<X, Stop> {
    r.or_else(|e| fail(format!("{what}: unexpected error {e}")))
}

/// onset times in seconds (sorted) and the tempo behind them
fn onsets(t: &mut T, max_secs: f32) -> (Vec<f32>, f32) {
    let bpm = t.pick(&[120.0f32, 60.0, 90.0, 174.0, 240.0, 0.0]);
    let bpm = if bpm == 0.0 { t.f(40.0, 290.0) } else { bpm };
    let max_secs = if t.cap(60, 480, 200) > 60 { 480.0 } else { max_secs };
    let dur = t.f(0.1, max_secs) as f64;
    let start = if t.bool() { 0.0 } else { t.f(0.0, 5.0) as f64 };
    let per = 60.0 / bpm as f64;
    let jit = t.pick(&[0.0f64, 0.005, 0.02, 0.06]);
    let drop = t.pick(&[0u64, 0, 10, 30]);
    let extra = t.pick(&[0u64, 0, 20, 60]);
    let change = t.chance(1, 3);
    let ratio = t.pick(&[1.1f64, 0.8, 1.5, 1.03]);
    let gap = t.chance(1, 4);
    let mut rng = t.bulk();
    let mut v = vec![];
    let mut p = start;
    while p < start + dur && v.len() < if max_secs > 100.0 { 3000 } else { 400 } {
        let k = if change && p > start + dur / 2.0 { per / ratio } else { per };
        let in_gap = gap && p > start + dur * 0.4 && p < start + dur * 0.6;
        if !in_gap && rng.next() % 100 >= drop {
            v.push((p + jit * (rng.unit() - 0.5)).max(0.0) as f32);
        }
        if rng.next() % 100 < extra {
            v.push((p + k * rng.unit()) as f32);
        }
        p += k;
    }
    if v.is_empty() {
        v.push(start as f32);
    }
    v.sort_by(f32::total_cmp);
    (v, bpm)
}

const REACH: f64 = 0.053_649_2; // 25 ms * sqrt(2 ln 10)

fn nearest(on: &[f32], x: f64) -> f64 {
    on.iter().map(|&o| (o as f64 - x).abs()).fold(f64::INFINITY, f64::min)
}

fn hmm_case(t: &mut T) -> R {
    let (on, true_bpm) = onsets(t, 40.0);
    let bpm = match t.us(0, 3) {
        0 => t.f(30.0, 300.0),
        1 => (true_bpm * t.pick(&[0.5f32, 1.01, 0.97, 1.2])).min(300.0),
        _ => true_bpm,
    };
    t.describe(|| format!("bpm={bpm} onsets={}", fmtv(&on)));
    let got = ok(HmmBeatTracker::new(bpm, on.clone(), 44100).track_beats(), "beat tracking")?;
    let (s, e) = (on[0] as f64, *on.last().unwrap() as f64);
    let step = 60.0 / bpm as f64;
    let mut k = 0;
    let mut i = 0;
    while s + k as f64 * step <= e + 0.1 {
        let x = s + k as f64 * step;
        let d = nearest(&on, x);
        let fuzz = 1e-5 * (1.0 + x);
        let here = got.get(i).filter(|b| (b.time_seconds as f64 - x).abs() < 2e-5 * (1.0 + x));
        if (d - REACH).abs() < fuzz + 1e-4 {
            i += here.is_some() as usize;
        } else if d < REACH {
            let Some(b) = here else {
                return fail(format!("no beat at {x} although an onset lies {d} s from it (got {:?})", got.get(i)));
            };
            i += 1;
            let em = (-d * d / (2.0 * 0.025 * 0.025)).exp();
            let want = (0.7 * em + 0.3 * (1.0 - d / 0.05).max(0.0)).min(1.0);
            ensure!((b.confidence as f64 - want).abs() < 3e-3, "beat at {x}: confidence {}, alignment of {d} s gives {want}", b.confidence);
            ensure!((0.0..=1.0).contains(&b.confidence), "confidence {}", b.confidence);
        } else {
            ensure!(here.is_none(), "beat at {x} although the nearest onset is {d} s away");
        }
        k += 1;
    }
    ensure!(i == got.len(), "beat at {} is not on the tempo grid between the first and last onset", got[i].time_seconds);
    if got.len() >= 3 {
        t.nontrivial();
    }
    Ok(())
}

fn grid_case(t: &mut T) -> R {
    let (mut on, true_bpm) = onsets(t, 60.0);
    let bpm = match t.us(0, 4) {
        0 => t.f(30.0, 300.0),
        1 => (true_bpm * t.pick(&[1.01f32, 0.5, 0.97])).min(300.0),
        _ => true_bpm,
    };
    let conf = t.f(0.0, 1.0);
    let sorted = on.clone();
    if t.chance(1, 3) {
        on.reverse();
    }
    t.describe(|| format!("bpm={bpm} onsets={}", fmtv(&on)));
    let r = generate_beat_grid(bpm, conf, &on, 44100);
    // reference assembly from the separately checked stages
    let mut beats = ok(HmmBeatTracker::new(bpm, sorted.clone(), 44100).track_beats(), "hmm")?;
    if beats.is_empty() {
        ensure!(matches!(r, Err(AnalysisError::ProcessingError(_))), "no beats but {r:?}");
        return Ok(());
    }
    let (g, stab) = ok(r, "beat grid")?;
    let times: Vec<f32> = beats.iter().map(|b| b.time_seconds).collect();
    let segs = ok(detect_tempo_variations(&times, bpm), "segments")?;
    if has_tempo_variation(&segs) {
        let mut tr = BayesianBeatTracker::new(bpm, conf);
        let mut out = vec![];
        for s in &segs {
            if !s.is_variable {
                out.extend(beats.iter().filter(|b| b.time_seconds >= s.start_time && b.time_seconds <= s.end_time).cloned());
                continue;
            }
            let so: Vec<f32> = sorted.iter().copied().filter(|o| *o >= s.start_time && *o <= s.end_time).collect();
            if so.is_empty() {
                continue;
            }
            let (b, _) = ok(tr.update_with_onsets(&so, 44100), "bayesian")?;
            out.extend(HmmBeatTracker::new(b, so, 44100).track_beats().unwrap_or_default());
        }
        out.sort_by(|a, b| a.time_seconds.total_cmp(&b.time_seconds));
        out.dedup_by(|a, b| a.time_seconds == b.time_seconds);
        if !out.is_empty() {
            beats = out;
            t.label("tempo-variation");
        }
    }
    let times: Vec<f32> = beats.iter().map(|b| b.time_seconds).collect();
    ensure!(
        g.beats.len() == times.len() && g.beats.iter().zip(&times).all(|(a, b)| (a - b).abs() < 1e-4),
        "beats {} differ from the tracked ones {}", fmtv(&g.beats), fmtv(&times)
    );
    for w in g.beats.windows(2) {
        ensure!(w[0] < w[1], "beats {} and {} are not strictly increasing", w[0], w[1]);
    }
    for &b in &g.beats {
        ensure!(nearest(&sorted, b as f64) < REACH + 1e-3, "beat {b} has no onset within 54 ms");
        ensure!(b >= sorted[0] - 1e-4 && b <= *sorted.last().unwrap() + 0.055, "beat {b} outside the onset range");
    }
    ensure!(g.bars == g.downbeats, "bars {:?} differ from downbeats {:?}", g.bars, g.downbeats);
    // downbeats
    let (sig, _) = ok(detect_time_signature(&times, bpm), "metre")?;
    let bar = sig.beats_per_bar() as f64 * 60.0 / bpm as f64;
    let mut want = vec![g.beats[0]];
    for &b in &g.beats[1..] {
        let d = (b as f64 - (*want.last().unwrap() as f64 + bar)).abs() - 0.1 * bar;
        if d.abs() < 1e-5 * (10.0 + b as f64) {
            return Err(Stop::Discard);
        }
        if d < 0.0 {
            want.push(b);
        }
    }
    ensure!(g.downbeats == want, "downbeats {} but {} beats to the bar give {}", fmtv(&g.downbeats), sig.beats_per_bar(), fmtv(&want));
    // stability
    let iv: Vec<f64> = times.windows(2).map(|w| w[1] as f64 - w[0] as f64).filter(|x| *x > 0.0).collect();
    let e = if iv.is_empty() {
        0.0
    } else {
        let m = iv.iter().sum::<f64>() / iv.len() as f64;
        let sd = (iv.iter().map(|x| (x - m).powi(2)).sum::<f64>() / iv.len() as f64).sqrt();
        1.0 / (1.0 + sd / m)
    };
    ensure!((stab as f64 - e).abs() < 1e-3 && (0.0..=1.0).contains(&stab), "stability {stab}, the intervals give {e}");
    if g.beats.len() >= 8 {
        t.nontrivial();
    }
    Ok(())
}

fn grid_invalid(t: &mut T) -> R {
    let (mut on, _) = onsets(t, 10.0);
    let bpm = t.pick(&[120.0f32, 0.0, -5.0, 300.5, f32::NAN, f32::INFINITY, 300.0]);
    let kind = t.us(0, 3);
    match kind {
        0 => on.clear(),
        1 => {
            let i = t.us(0, on.len() - 1);
            on[i] = t.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]);
        }
        _ => {}
    }
    t.nontrivial();
    t.describe(|| format!("bpm={bpm} kind={kind} onsets={}", fmtv(&on)));
    let bad_bpm = !(bpm > 0.0 && bpm <= 300.0);
    let r = generate_beat_grid(bpm, 0.5, &on, 44100);
    if bad_bpm || kind < 2 {
        ensure!(r.is_err(), "invalid input accepted");
    }
    if kind == 0 || (bad_bpm && !bpm.is_nan()) {
        let h = HmmBeatTracker::new(bpm, on.clone(), 44100).track_beats();
        ensure!(matches!(h, Err(AnalysisError::InvalidInput(_))), "tracker accepted invalid input: {h:?}");
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "grid accepted invalid input: {r:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- Bayesian tracker (stateful)

fn like(on: &[f32], bpm: f64) -> f64 {
    let iv = 60.0 / bpm;
    let s = on[0] as f64;
    let l: f64 = on
        .iter()
        .map(|&o| {
            let k = ((o as f64 - s) / iv).round();
            let d = o as f64 - s - k * iv;
            -d * d / (2.0 * 0.05 * 0.05)
        })
        .sum::<f64>();
    (l / on.len() as f64).exp()
}

fn bayes_case(t: &mut T) -> R {
    let start = match t.us(0, 5) {
        0 => t.pick(&[0.0f32, -3.0, 301.0, 184.0, 186.0, 300.0, 52.0, 57.0]),
        1 => t.us(130, 370) as f32 * 0.5,
        _ => t.f(50.0, 190.0),
    };
    let c0 = t.pick(&[0.5f32, 0.0, 1.0, 3.0, -1.0]);
    let mut tr = BayesianBeatTracker::new(start, c0);
    let mut hist = vec![start];
    let mut cur = start;
    let mut conf = c0.clamp(0.0, 1.0);
    let ops = if t.chance(1, 25) { t.us(30, 150) } else { t.us(1, 8) };
    let mut desc = format!("start={start} conf={c0}");
    let mut moved = 0;
    for _ in 0..ops {
        let empty = t.chance(1, 10);
        let mut on = if empty { vec![] } else { onsets(t, 12.0).0 };
        on.truncate(if ops > 8 { 12 } else { 40 });
        let before = tr.clone();
        let r = tr.update_with_onsets(&on, 44100);
        desc.push_str(&format!("; update {}", fmtv(&on)));
        if on.is_empty() || cur <= 1e-10 || cur > 300.0 {
            ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "update with {} onsets at {cur} BPM gave {r:?}", on.len());
            ensure!(
                before.current_bpm.to_bits() == tr.current_bpm.to_bits() && before.current_confidence == tr.current_confidence && before.history == tr.history,
                "a rejected update changed the tracker"
            );
            continue;
        }
        let (b, c) = ok(r, "update")?;
        let lo = (cur as f64 - 5.0).max(60.0);
        let hi = (cur as f64 + 5.0).min(180.0);
        let n = if hi < lo { 0 } else { ((hi - lo) / 0.5 + 1e-4).floor() as usize + 1 };
        let cands: Vec<f64> = (0..n).map(|k| lo + 0.5 * k as f64).collect();
        let best = cands.iter().map(|&x| like(&on, x)).fold(0.0, f64::max);
        let span = (*on.last().unwrap() - on[0]) as f64;
        let tol = 2e-4 + 1e-4 * span;
        if best > 1e-12 {
            let Some(k) = cands.iter().find(|x| (**x - b as f64).abs() < 1e-3) else {
                return fail(format!("tempo moved from {cur} to {b}, not one of {n} candidates around it"));
            };
            let l = like(&on, *k);
            ensure!(l >= best * (1.0 - tol) - 1e-9, "tempo {b} has likelihood {l}, the best candidate has {best}");
            let ch = (b - cur).abs() as f64;
            // whole and half BPM are exact, so the steps of the penalty are too
            let exact = (cur * 2.0).fract() == 0.0 && (b * 2.0).fract() == 0.0;
            let pens: Vec<f64> = (if exact { [0.0, 0.0] } else { [1e-4, -1e-4] })
                .iter()
                .map(|e| if ch + e < 1.0 { 1.0 } else if ch + e < 3.0 { 0.8 } else { 0.5 })
                .collect();
            ensure!(
                pens.iter().any(|p| (c as f64 - (l * p).min(1.0)).abs() < tol),
                "confidence {c} after moving {ch} BPM with likelihood {l}"
            );
            moved += 1;
        } else if n == 0 {
            ensure!(b == cur && c == 0.0, "no candidate near {cur} BPM, yet {b} with confidence {c}");
        }
        ensure!((b - cur).abs() <= 5.0 + 1e-3 || (b - 60.0).abs() < 1e-3, "tempo jumped from {cur} to {b}");
        ensure!((0.0..=1.0).contains(&c), "confidence {c}");
        hist.push(b);
        cur = b;
        conf = c;
        ensure!(tr.get_bpm() == b && tr.get_confidence() == c, "the tracker's state differs from what it returned");
    }
    ensure!(tr.get_history() == hist.as_slice(), "history {:?}, expected {hist:?}", tr.get_history());
    ensure!(tr.get_bpm() == cur && tr.get_confidence() == conf, "final state differs from the last update");
    t.describe(|| desc);
    if moved >= 2 {
        t.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- tempo segments and metre

fn beat_times(t: &mut T, max_secs: f32) -> Vec<f32> {
    let (mut v, _) = onsets(t, max_secs);
    match t.us(0, 5) {
        0 => v.truncate(t.us(0, 9)),
        1 => {
            let d = v.clone();
            v.extend(d.iter().take(3));
            v.sort_by(f32::total_cmp);
        }
        _ => {}
    }
    v
}
fn stats(b: &[f32]) -> Option<(f64, f64)> {
    let iv: Vec<f64> = b.windows(2).map(|w| w[1] as f64 - w[0] as f64).filter(|x| *x > 0.0).collect();
    if iv.is_empty() {
        return None;
    }
    let m = iv.iter().sum::<f64>() / iv.len() as f64;
    let sd = (iv.iter().map(|x| (x - m).powi(2)).sum::<f64>() / iv.len() as f64).sqrt();
    Some((m, sd / m))
}

fn variation_case(t: &mut T) -> R {
    let b = beat_times(t, 70.0);
    let bpm = t.pick(&[120.0f32, 90.0, 0.0, -1.0]);
    t.describe(|| format!("nominal={bpm} beats={}", fmtv(&b)));
    let r = detect_tempo_variations(&b, bpm);
    if b.len() >= 4 && bpm <= 0.0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "nominal tempo {bpm} gave {r:?}");
        return Ok(());
    }
    let got = ok(r, "tempo segments")?;
    ensure!(has_tempo_variation(&got) == got.iter().any(|s| s.is_variable), "variation flag is wrong");
    let (first, last) = (b.first().copied().unwrap_or(0.0), b.last().copied().unwrap_or(0.0));
    let dur = last as f64 - first as f64;
    if (dur - 2.0).abs() < 1e-4 {
        return Err(Stop::Discard);
    }
    let single = |c: f32| -> R {
        ensure!(
            got.len() == 1 && got[0].start_time == first && got[0].end_time == last && got[0].bpm == bpm && got[0].confidence == c && !got[0].is_variable,
            "expected one steady segment at the nominal tempo, got {got:?}"
        );
        Ok(())
    };
    if b.len() < 4 {
        return single(0.5);
    }
    if dur < 2.0 {
        return single(0.8);
    }
    let len = (dur / 4.0).clamp(4.0, 8.0);
    let mut want = vec![];
    let mut s = first as f64;
    let fz = 1e-5 * (10.0 + last as f64);
    while s < last as f64 {
        if last as f64 - s < fz {
            return Err(Stop::Discard);
        }
        let e = (s + len).min(last as f64);
        if b.iter().any(|&x| {
            let (p, q) = ((x as f64 - s).abs(), (x as f64 - e).abs());
            // a beat on a boundary is decidable only where the boundary is exact
            let dyadic = |v: f64| (v * 1024.0).fract() == 0.0;
            let s_exact = s == first as f64 || (dyadic(s) && dyadic(len));
            let e_exact = e == last as f64 && s + len > last as f64 + fz || (dyadic(e) && dyadic(len) && s_exact);
            (p < fz && !(p == 0.0 && s_exact)) || (q < fz && !(q == 0.0 && e_exact))
        }) {
            return Err(Stop::Discard);
        }
        let seg: Vec<f32> = b.iter().copied().filter(|&x| x as f64 >= s && x as f64 <= e).collect();
        if seg.len() >= 3 {
            if let Some((m, cv)) = stats(&seg) {
                want.push((s, e, 60.0 / m, (1.0 - (cv / 0.3).min(1.0)).max(0.0), cv));
            }
        }
        s += len / 2.0;
    }
    if want.is_empty() {
        return single(0.8);
    }
    ensure!(got.len() == want.len(), "{} segments, expected {}: {got:?} vs {want:?}", got.len(), want.len());
    for (g, w) in got.iter().zip(&want) {
        ensure!(
            (g.start_time as f64 - w.0).abs() < 1e-3 && (g.end_time as f64 - w.1).abs() < 1e-3,
            "segment [{}, {}], expected [{}, {}]", g.start_time, g.end_time, w.0, w.1
        );
        ensure!((g.bpm as f64 - w.2).abs() < 1e-3 * w.2, "segment tempo {}, its beats give {}", g.bpm, w.2);
        ensure!((g.confidence as f64 - w.3).abs() < 3e-3, "segment confidence {}, expected {}", g.confidence, w.3);
        if (w.4 - 0.15).abs() > 1e-3 {
            ensure!(g.is_variable == (w.4 > 0.15), "segment with interval variation {} marked variable={}", w.4, g.is_variable);
        }
    }
    if want.len() >= 2 {
        t.nontrivial();
    }
    if want.iter().any(|w| w.4 > 0.151) {
        t.label("variable");
    }
    Ok(())
}

fn metre_case(t: &mut T) -> R {
    let b = if t.bool() {
        beat_times(t, 40.0)
    } else {
        // a repeating pattern of unequal intervals
        let n = t.pick(&[3usize, 4, 6, 5, 2]);
        let pat: Vec<f64> = (0..n).map(|_| 0.3 + 0.4 * t.f(0.0, 1.0) as f64).collect();
        let len = t.cap(60, 1500, 200);
        let len = t.us(8, len);
        let noise = t.pick(&[0.0f64, 0.02, 0.1]);
        let mut rng = t.bulk();
        let mut p = 0.0;
        (0..len)
            .map(|i| {
                let x = p;
                p += pat[i % n] + noise * (rng.unit() - 0.5);
                x as f32
            })
            .collect()
    };
    let bpm = t.pick(&[120.0f32, 60.0, 0.0]);
    t.describe(|| format!("bpm={bpm} beats={}", fmtv(&b)));
    let r = detect_time_signature(&b, bpm);
    if b.len() < 8 {
        ensure!(matches!(r, Ok((TimeSignature::FourFour, c)) if c == 0.5), "too few beats gave {r:?}");
        return Ok(());
    }
    if bpm <= 0.0 {
        ensure!(matches!(r, Err(AnalysisError::InvalidInput(_))), "tempo 0 gave {r:?}");
        return Ok(());
    }
    let (sig, conf) = ok(r, "metre")?;
    ensure!(
        matches!((sig, sig.beats_per_bar(), sig.name()), (TimeSignature::FourFour, 4, "4/4") | (TimeSignature::ThreeFour, 3, "3/4") | (TimeSignature::SixEight, 6, "6/8")),
        "{sig:?} says {} beats, {}", sig.beats_per_bar(), sig.name()
    );
    let iv: Vec<f64> = b.windows(2).map(|w| w[1] as f64 - w[0] as f64).filter(|x| *x > 0.0).collect();
    let Some((m, cv)) = stats(&b) else {
        ensure!(sig == TimeSignature::FourFour && conf == 0.5, "no intervals gave {sig:?} {conf}");
        return Ok(());
    };
    let score = |lag: usize| {
        if iv.len() <= lag {
            return 0.0;
        }
        let a = (0..iv.len() - lag).map(|i| 1.0 / (1.0 + (iv[i] - iv[i + lag]).abs() / m)).sum::<f64>() / (iv.len() - lag) as f64;
        (0.7 * a + 0.3 / (1.0 + cv)).min(1.0)
    };
    let s = [score(4), score(3), score(6)];
    let best = s.iter().copied().fold(0.0, f64::max);
    let mine = match sig {
        TimeSignature::FourFour => s[0],
        TimeSignature::ThreeFour => s[1],
        TimeSignature::SixEight => s[2],
    };
    ensure!(mine >= best - 1e-4, "{sig:?} scores {mine} but another metre scores {best} ({s:?})");
    ensure!((conf as f64 - best).abs() < 1e-3 && (0.0..=1.0).contains(&conf), "confidence {conf}, score {best}");
    let mut o = s;
    o.sort_by(f64::total_cmp);
    if o[2] - o[1] > 1e-3 {
        t.nontrivial();
    }
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    let p = |name, quick, thorough, f| Part { name, quick, thorough, f, serial: false };
    v.push(Property {
        id: "C25",
        rule: "at least 3 beats (tracking) or 8 beats (grid) were placed and compared with the reference",
        assumptions: &["onsets within 0.1 ms of the acceptance distance may go either way"],
        parts: vec![
            p("tracking", 8000, 150000, hmm_case as fn(&mut T) -> R),
            p("grid", 8000, 150000, grid_case),
            p("invalid", 4000, 40000, grid_invalid),
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C26",
        rule: "at least two updates of the history had usable evidence and were compared with the model",
        assumptions: &["candidates whose likelihoods differ by less than rounding may either be chosen"],
        parts: vec![p("histories", 6000, 120000, bayes_case as fn(&mut T) -> R)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C27",
        rule: "several segments were analysed, or one metre clearly beats the others",
        assumptions: &["beats within rounding of a segment boundary are skipped"],
        parts: vec![
            p("segments", 15000, 300000, variation_case as fn(&mut T) -> R),
            p("metre", 15000, 300000, metre_case),
        ],
        hang_is_violation: false,
    });
}
