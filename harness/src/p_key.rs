//! Key detection, key changes, key notation.
use crate::engine::*;
use crate::gen::*;
use stratum_dsp::analysis::result::*;
use stratum_dsp::features::key::detector::*;
use stratum_dsp::features::key::templates::{KeyTemplates, TemplateSet};
use stratum_dsp::features::key::{compute_key_clarity, detect_key_changes, KeyDetectionResult};
use stratum_dsp::AnalysisError;

pub const KK_MAJ: [f64; 12] = [6.35, 2.23, 3.48, 2.33, 4.38, 4.09, 2.52, 5.19, 2.39, 3.66, 2.29, 2.88];
pub const KK_MIN: [f64; 12] = [6.33, 2.68, 3.52, 5.38, 2.60, 3.53, 2.54, 4.75, 3.98, 2.69, 3.34, 3.17];
pub const TE_MAJ: [f64; 12] = [5.0, 2.0, 3.5, 2.0, 4.5, 4.0, 2.0, 4.5, 2.0, 3.5, 1.5, 4.0];
pub const TE_MIN: [f64; 12] = [5.0, 2.0, 3.5, 5.0, 2.0, 3.5, 2.0, 4.5, 3.5, 2.0, 4.0, 3.5];

fn kidx(k: Key) -> usize {
    match k {
        Key::Major(i) => i as usize,
        Key::Minor(i) => 12 + i as usize,
    }
}
fn of_idx(i: usize) -> Key {
    if i < 12 { Key::Major(i as u32) } else { Key::Minor(i as u32 - 12) }
}
fn rot(k: Key, r: u32) -> Key {
    match k {
        Key::Major(i) => Key::Major((i + r) % 12),
        Key::Minor(i) => Key::Minor((i + r) % 12),
    }
}

pub fn chroma_seq(t: &mut T, max: usize) -> Vec<Vec<f32>> {
    let big = t.cap(max, 8000, 300);
    let n = if big > max { t.us(1, big) } else if max > 60 && t.bool() { t.us(60, max) } else { t.us(1, max.min(60)) };
    let nseg = t.us(1, 4);
    let kinds: Vec<(usize, usize, f64)> = (0..nseg).map(|_| (t.us(0, 5), t.us(0, 23), t.f(0.0, 0.5) as f64)).collect();
    let mut rng = t.bulk();
    let l2 = !t.chance(1, 4);
    (0..n)
        .map(|i| {
            let (kind, key, noise) = kinds[(i * nseg / n).min(nseg - 1)];
            let mut v: Vec<f64> = (0..12)
                .map(|c| {
                    let rel = (c + 12 - key % 12) % 12;
                    match kind {
                        0 => (if key < 12 { KK_MAJ } else { KK_MIN })[rel] / 6.0,
                        1 => if (if key < 12 { [0, 4, 7] } else { [0, 3, 7] }).contains(&rel) { 1.0 } else { 0.0 },
                        2 => rng.unit(),
                        3 => if rel == 0 { 1.0 } else { 0.0 },
                        4 => if (if key < 12 { vec![0, 2, 4, 5, 7, 9, 11] } else { vec![0, 2, 3, 5, 7, 8, 11] }).contains(&rel) { 1.0 } else { 0.1 },
                        _ => if i % 3 == 0 { 0.0 } else { rng.unit().powi(4) },
                    }
                })
                .collect();
            for x in v.iter_mut() {
                *x += noise * rng.unit();
            }
            if l2 {
                let s = v.iter().map(|x| x * x).sum::<f64>().sqrt();
                if s > 1e-9 {
                    v.iter_mut().for_each(|x| *x /= s);
                }
            }
            v.iter().map(|&x| x as f32).collect()
        })
        .collect()
}

fn weights_for(t: &mut T, n: usize) -> Option<Vec<f32>> {
    match t.weighted(&[2, 2, 1]) {
        0 => None,
        1 => {
            let mut r = t.bulk();
            Some((0..n).map(|_| r.unit() as f32).collect())
        }
        _ => {
            let mut r = t.bulk();
            Some((0..n).map(|_| if r.next() % 3 == 0 { -0.5 } else { (r.next() % 3) as f32 }).collect())
        }
    }
}

fn profiles(temperley: bool) -> ([f64; 12], [f64; 12]) {
    if temperley { (TE_MAJ, TE_MIN) } else { (KK_MAJ, KK_MIN) }
}

/// raw template score of each of the 24 keys
fn raw_scores(c: &[Vec<f32>], w: Option<&[f32]>, temperley: bool) -> [f64; 24] {
    let (ma, mi) = profiles(temperley);
    let mut avg = [0f64; 12];
    for (i, v) in c.iter().enumerate() {
        let wt = w.map(|w| w[i] as f64).unwrap_or(1.0);
        if wt > 0.0 {
            for k in 0..12 {
                avg[k] += wt * v[k] as f64;
            }
        }
    }
    let mut out = [0f64; 24];
    for (m, p) in [ma, mi].iter().enumerate() {
        let n = p.iter().map(|x| x * x).sum::<f64>().sqrt();
        for k in 0..12 {
            out[m * 12 + k] = (0..12).map(|s| avg[s] * p[(s + 12 - k) % 12] / n).sum();
        }
    }
    out
}

/// relative lead of the best minor over the best major template score (positive: minor)
pub fn mode_lead(c: &[Vec<f32>], w: Option<&[f32]>, temperley: bool) -> f64 {
    let s = raw_scores(c, w, temperley);
    let (a, b) = (s[..12].iter().cloned().fold(f64::MIN, f64::max), s[12..].iter().cloned().fold(f64::MIN, f64::max));
    if a.max(b) <= 0.0 { 0.0 } else { (b - a) / a.max(b) }
}

fn fifth_pos(k: usize) -> i64 {
    (k as i64 * 7) % 12
}

/// Reference score table; None when the best key of a mode is too close to call.
fn ref_scores(c: &[Vec<f32>], w: Option<&[f32]>, temperley: bool) -> Option<([f64; 24], [usize; 2])> {
    let mut s = raw_scores(c, w, temperley);
    let top = |s: &[f64; 24], m: usize| -> (usize, f64, f64) {
        let mut o: Vec<usize> = (m * 12..m * 12 + 12).collect();
        o.sort_by(|&a, &b| s[b].partial_cmp(&s[a]).unwrap());
        (o[0], s[o[0]], s[o[1]])
    };
    let (a, b) = (top(&s, 0), top(&s, 1));
    if a.1 <= 0.0 && b.1 <= 0.0 {
        return Some(([0.0; 24], [0, 12]));
    }
    if a.1 < 1e-6 || b.1 < 1e-6 {
        return None;
    }
    for i in 0..24 {
        s[i] /= if i < 12 { a.1 } else { b.1 };
    }
    for (_, s1, s2) in [a, b] {
        if s2 > s1 * (1.0 - 2e-4) {
            return None;
        }
    }
    let mut r = s;
    for i in 0..24 {
        let t = if i < 12 { a.0 } else { b.0 };
        let d = (fifth_pos(i % 12) - fifth_pos(t % 12)).abs();
        let d = d.min(12 - d);
        if d <= 2 {
            r[i] += 0.20 * (1.0 - 0.5 * d as f64);
        }
    }
    Some((r, [a.0, b.0]))
}

fn table(r: &KeyDetectionResult) -> Result<[f64; 24], Stop> {
    let mut t = [f64::NAN; 24];
    ensure!(r.all_scores.len() == 24, "{} scores reported", r.all_scores.len());
    for (k, s) in &r.all_scores {
        ensure!(s.is_finite(), "score of {:?} is {}", k, s);
        match k {
            Key::Major(i) | Key::Minor(i) => ensure!(*i < 12, "key index {} out of range", i),
        }
        ensure!(t[kidx(*k)].is_nan(), "{:?} listed twice", k);
        t[kidx(*k)] = *s as f64;
    }
    for w in r.all_scores.windows(2) {
        ensure!(w[0].1 >= w[1].1, "scores not ranked: {:?} before {:?}", w[0], w[1]);
    }
    ensure!((0.0..=1.0).contains(&r.confidence), "confidence {}", r.confidence);
    Ok(t)
}

fn detect_case(t: &mut T) -> R {
    let c = chroma_seq(t, 40);
    let w = weights_for(t, c.len());
    let temperley = t.bool();
    t.describe(|| format!("{} frames weights {:?} temperley {} first {:?}", c.len(), w.as_ref().map(|w| fmtv(w)), temperley, c[0]));
    let tpl = KeyTemplates::new_with_template_set(if temperley { TemplateSet::Temperley } else { TemplateSet::KrumhanslKessler });
    let r = detect_key_weighted(&c, &tpl, w.as_deref()).map_err(|e| Stop::Fail(format!("key detection failed: {}", e)))?;
    let tab = table(&r)?;
    ensure!(r.top_keys.len() == 3 && r.top_keys[..] == r.all_scores[..3], "short list {:?} is not the head of the ranking", r.top_keys);
    ensure!(r.key == r.all_scores[0].0, "reported key {:?} is not the best ranked {:?}", r.key, r.all_scores[0]);
    if w.is_none() {
        let d = detect_key(&c, &tpl).map_err(|e| Stop::Fail(e.to_string()))?;
        ensure!(d.key == r.key && d.all_scores == r.all_scores && d.confidence == r.confidence, "unweighted detection differs from detection without weights");
    }
    let best_other = r.all_scores.iter().filter(|(k, _)| *k != r.key).map(|(_, s)| *s as f64).fold(f64::MIN, f64::max);
    let ks = tab[kidx(r.key)];
    let want_conf = if ks > 0.0 { ((ks - best_other) / ks).clamp(0.0, 1.0) } else { 0.0 };
    ensure!(close(r.confidence as f64, want_conf, 1e-3, 1e-4), "confidence {} expected {}", r.confidence, want_conf);
    let clar = compute_key_clarity(&r.all_scores);
    check_clarity(&r.all_scores, clar)?;
    let Some((want, tops)) = ref_scores(&c, w.as_deref(), temperley) else {
        t.label("ambiguous best key");
        return Ok(());
    };
    t.nontrivial();
    for i in 0..24 {
        ensure!(close(tab[i], want[i], 1e-3, 1e-3), "score of {:?} is {} but the reference gives {}", of_idx(i), tab[i], want[i]);
    }
    ensure!(tops.contains(&kidx(r.key)), "detected {:?}; best major is {:?}, best minor {:?}", r.key, of_idx(tops[0]), of_idx(tops[1]));
    let lead = mode_lead(&c, w.as_deref(), temperley);
    if lead.abs() > 1e-4 {
        t.label(if lead > 0.0 { "minor" } else { "major" });
        ensure!(kidx(r.key) == tops[(lead > 0.0) as usize], "detected {:?} although {:?} matches its template better", r.key, of_idx(tops[(lead > 0.0) as usize]));
    }
    Ok(())
}

fn check_clarity(sc: &[(Key, f32)], clar: f32) -> R {
    let n = sc.len();
    let want = if n < 2 {
        0.0
    } else {
        let v: Vec<f64> = sc.iter().map(|x| x.1 as f64).collect();
        let (mn, mx) = (v.iter().cloned().fold(f64::MAX, f64::min), v.iter().cloned().fold(f64::MIN, f64::max));
        let rg = mx - mn;
        if rg < 1e-6 && rg > 0.0 {
            return Ok(());
        }
        if rg <= 1e-10 { 0.0 } else { ((v[0] - v.iter().sum::<f64>() / n as f64) / rg).clamp(0.0, 1.0) }
    };
    ensure!(close(clar as f64, want, 1e-3, 1e-3), "clarity {} expected {}", clar, want);
    Ok(())
}

fn clarity_case(t: &mut T) -> R {
    let n = t.us(0, 24);
    let lv = t.bool();
    let off = t.pick(&[0.0f32, 5.0, -3.0]);
    let mut v: Vec<(Key, f32)> = (0..n).map(|i| (of_idx(i), off + if lv { t.us(0, 3) as f32 } else { t.f(-1.0, 2.0) })).collect();
    if !t.chance(1, 4) {
        v.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
    }
    t.describe(|| format!("{:?}", v));
    let c = compute_key_clarity(&v);
    ensure!((0.0..=1.0).contains(&c), "clarity {} outside [0,1]", c);
    if n >= 2 {
        t.nontrivial();
    }
    check_clarity(&v, c)
}

/// transposing every frame transposes the answer; scaling weights, repeating frames, reordering frames change nothing
fn equivariance_case(t: &mut T) -> R {
    let c = chroma_seq(t, 30);
    let w = weights_for(t, c.len());
    let r = t.u32(1, 11);
    let temperley = t.bool();
    let scale = t.pick(&[0.5f32, 4.0, 0.125]);
    let heur = t.bool();
    let margin = t.pick(&[0.2f32, 0.05, 0.0]);
    let flip = t.pick(&[0.6f32, 0.9, 0.0]);
    let bonus = t.pick(&[0.2f32, 0.0, 0.8]);
    t.describe(|| format!("{} frames rotated by {} weighted {} temperley {} heuristic {} ({}, {}, {}) first {:?}", c.len(), r, w.is_some(), temperley, heur, margin, flip, bonus, c[0]));
    let tpl = KeyTemplates::new_with_template_set(if temperley { TemplateSet::Temperley } else { TemplateSet::KrumhanslKessler });
    if ref_scores(&c, w.as_deref(), temperley).map(|x| x.0[0] == 0.0 && x.0[12] == 0.0).unwrap_or(true) {
        return Err(Stop::Discard);
    }
    let run = |c: &[Vec<f32>], w: Option<&[f32]>| {
        if heur {
            detect_key_weighted_mode_heuristic(c, &tpl, w, margin, flip, bonus > 0.0, bonus)
        } else {
            detect_key_weighted(c, &tpl, w)
        }
        .map_err(|e| Stop::Fail(e.to_string()))
    };
    let a = run(&c, w.as_deref())?;
    let ta = table(&a)?;
    let rotated: Vec<Vec<f32>> = c.iter().map(|v| (0..12).map(|i| v[(i + 12 - r as usize) % 12]).collect()).collect();
    let b = run(&rotated, w.as_deref())?;
    let tb = table(&b)?;
    t.nontrivial();
    for i in 0..24 {
        let j = kidx(rot(of_idx(i), r));
        ensure!(close(ta[i], tb[j], 1e-3, 1e-3), "score of {:?} is {} but {} for {:?} after transposing by {}", of_idx(i), ta[i], tb[j], of_idx(j), r);
    }
    ensure!(!heur || a.top_keys.iter().any(|k| k.0 == a.key), "key {:?} missing from the short list {:?}", a.key, a.top_keys);
    // the key itself must follow unless the decision is within rounding of another
    let runner = a.all_scores.iter().filter(|(k, _)| *k != a.key).map(|(_, s)| *s as f64).fold(f64::MIN, f64::max);
    let clear = if heur { heur_margin(&c, w.as_deref(), &a, margin, flip) > 1e-3 } else { true };
    let clear = clear && (heur || mode_lead(&c, w.as_deref(), temperley).abs() > 1e-3);
    if clear && (!heur || (ta[kidx(a.key)] - runner).abs() > 1e-3) {
        ensure!(b.key == rot(a.key, r), "key {:?} became {:?} when transposed by {} semitones", a.key, b.key, r);
        t.label("key compared");
    }
    // reversed order
    let rc: Vec<Vec<f32>> = c.iter().rev().cloned().collect();
    let rw: Option<Vec<f32>> = w.as_ref().map(|w| w.iter().rev().cloned().collect());
    let d = table(&run(&rc, rw.as_deref())?)?;
    for i in 0..24 {
        ensure!(close(ta[i], d[i], 1e-3, 1e-3), "order of frames changed the score of {:?}: {} / {}", of_idx(i), ta[i], d[i]);
    }
    if let Some(w) = &w {
        let sw: Vec<f32> = w.iter().map(|x| x * scale).collect();
        let e = run(&c, Some(&sw))?;
        let te = table(&e)?;
        for i in 0..24 {
            ensure!(close(ta[i], te[i], 1e-3, 1e-3), "scaling all weights by {} changed the score of {:?}: {} / {}", scale, of_idx(i), ta[i], te[i]);
        }
    }
    // the same material several times over
    if c.len() <= 60 {
        let m = t.pick(&[2usize, 3, 40]);
        let cm: Vec<Vec<f32>> = (0..m).flat_map(|_| c.iter().cloned()).collect();
        let wm: Option<Vec<f32>> = w.as_ref().map(|w| (0..m).flat_map(|_| w.iter().cloned()).collect());
        let e = run(&cm, wm.as_deref())?;
        let te = table(&e)?;
        for i in 0..24 {
            ensure!(close(ta[i], te[i], 1e-3, 1e-3), "playing the recording {} times changed the score of {:?}: {} / {}", m, of_idx(i), ta[i], te[i]);
        }
    }
    Ok(())
}

/// distance of the mode decision from its thresholds (in relative units)
fn heur_margin(c: &[Vec<f32>], w: Option<&[f32]>, r: &KeyDetectionResult, margin: f32, flip: f32) -> f64 {
    let tab = match table(r) {
        Ok(t) => t,
        Err(_) => return 0.0,
    };
    let best = r.all_scores[0].0;
    let h = ref_heuristic_choice(&tab, best, &avg_chroma(c, w).0, margin as f64, flip as f64);
    h.1
}

fn avg_chroma(c: &[Vec<f32>], w: Option<&[f32]>) -> ([f64; 12], f64) {
    let mut avg = [0f64; 12];
    let mut ws = 0.0;
    for (i, v) in c.iter().enumerate() {
        let wt = w.map(|w| w[i] as f64).unwrap_or(1.0);
        if wt > 0.0 {
            ws += wt;
            for k in 0..12 {
                avg[k] += wt * v[k] as f64;
            }
        }
    }
    let s: f64 = avg.iter().sum();
    if s > 1e-9 {
        avg.iter_mut().for_each(|x| *x /= s);
    }
    (avg, ws)
}

/// chosen key and the distance of the closest comparison from flipping
fn ref_heuristic_choice(tab: &[f64; 24], best: Key, avg: &[f64; 12], margin: f64, flip: f64) -> (Key, f64) {
    let mut dist = f64::MAX;
    let (tonic, maj) = match best {
        Key::Major(i) => (i as usize, true),
        Key::Minor(i) => (i as usize, false),
    };
    let margin = margin.max(0.0);
    let (mut mi, mut ma) = (0.0, 0.0);
    for (lo, hi, wt) in [(3, 4, 2.0), (8, 9, 1.0), (10, 11, 1.0)] {
        let (a, b) = (avg[(tonic + lo) % 12], avg[(tonic + hi) % 12]);
        for (x, y) in [(a, b), (b, a)] {
            // the weight jumps by margin*y at the threshold
            dist = dist.min(if x == y && x == 0.0 { 1.0 } else { (x - y * (1.0 + margin)).abs() / (x + y + 1e-12) });
        }
        if a > b * (1.0 + margin) {
            mi += wt * (a - b);
        } else if b > a * (1.0 + margin) {
            ma += wt * (b - a);
        }
    }
    let tot = mi + ma;
    let m2 = 1.0 + margin * 0.5;
    if tot > 0.0 {
        dist = dist.min((mi - ma * m2).abs() / tot).min((ma - mi * m2).abs() / tot).min(tot * 100.0);
    }
    let minor = tot > 1e-9 && mi > ma * m2;
    let major = tot > 1e-9 && ma > mi * m2;
    let mut key = best;
    if flip > 0.0 {
        let fr = flip.clamp(0.0, 1.0);
        if maj && minor || !maj && major {
            let (sb, sa) = if maj { (tab[tonic], tab[12 + tonic]) } else { (tab[12 + tonic], tab[tonic]) };
            dist = dist.min((sa - sb * fr).abs()).min(sb.abs());
            if sb > 0.0 && sa >= sb * fr {
                key = if maj { Key::Minor(tonic as u32) } else { Key::Major(tonic as u32) };
            }
        }
    }
    (key, dist)
}

fn heuristic_case(t: &mut T) -> R {
    let c = chroma_seq(t, 40);
    let w = weights_for(t, c.len());
    let margin = t.pick(&[0.2f32, 0.05, 0.0, 0.5, -0.3]);
    let flip = t.pick(&[0.6f32, 0.9, 0.99, 0.0, 1.0, 1.5, -1.0]);
    let bonus_on = t.bool();
    let bw = t.pick(&[0.2f32, 0.05, 1.0, 0.0, -1.0]);
    t.describe(|| format!("{} frames weighted {} margin {} flip {} bonus {} {} first {:?}", c.len(), w.is_some(), margin, flip, bonus_on, bw, c[0]));
    let tpl = KeyTemplates::new();
    let base = detect_key_weighted(&c, &tpl, w.as_deref()).map_err(|e| Stop::Fail(e.to_string()))?;
    let r = detect_key_weighted_mode_heuristic(&c, &tpl, w.as_deref(), margin, flip, bonus_on, bw).map_err(|e| Stop::Fail(e.to_string()))?;
    let tab = table(&r)?;
    let (avg, ws) = avg_chroma(&c, w.as_deref());
    let flip_on = flip > 0.0;
    if (!bonus_on && !flip_on) || ws <= 1e-9 {
        ensure!(r.key == base.key && r.all_scores == base.all_scores && r.confidence == base.confidence, "plain detection changed although no heuristic applies");
        return Ok(());
    }
    let mut want = table(&base)?;
    if bonus_on && bw > 0.0 {
        for k in 0..12 {
            want[12 + k] += bw as f64 * (avg[(k + 11) % 12] - avg[(k + 10) % 12]);
        }
    }
    for i in 0..24 {
        ensure!(close(tab[i], want[i], 1e-3, 1e-3), "score of {:?} is {} expected {}", of_idx(i), tab[i], want[i]);
    }
    ensure!(r.top_keys.len() == 3, "short list has {} entries", r.top_keys.len());
    ensure!(r.top_keys.iter().any(|k| k.0 == r.key), "key {:?} missing from the short list {:?}", r.key, r.top_keys);
    ensure!(r.top_keys[..2] == r.all_scores[..2], "short list {:?} does not start with the two best keys", r.top_keys);
    let best = r.all_scores[0].0;
    let (k, dist) = ref_heuristic_choice(&tab, best, &avg, margin as f64, flip as f64);
    let other = r.all_scores.iter().filter(|x| x.0 != r.key).map(|x| x.1 as f64).fold(0.0, f64::max);
    let ks = tab[kidx(r.key)];
    let wc = if ks > 0.0 { ((ks - other) / ks).clamp(0.0, 1.0) } else { 0.0 };
    ensure!(close(r.confidence as f64, wc, 1e-3, 1e-4), "confidence {} expected {}", r.confidence, wc);
    if dist < 1e-3 {
        t.label("mode decision too close to call");
        return Ok(());
    }
    if k != best {
        t.label("mode flipped");
    }
    t.nontrivial();
    ensure!(r.key == k, "key {:?} but the mode test on the scale degrees chooses {:?} (best template {:?})", r.key, k, best);
    Ok(())
}

fn detect_invalid(t: &mut T) -> R {
    let n = t.us(1, 6);
    let mut c = vec![vec![0.3f32; 12]; n];
    let mut w: Option<Vec<f32>> = None;
    match t.us(0, 2) {
        0 => c.clear(),
        1 => {
            let i = t.us(0, n - 1);
            c[i] = vec![0.3; t.pick(&[0usize, 11, 13, 24])];
        }
        _ => w = Some(vec![1.0; t.pick(&[0usize, n + 1, n + 5, n - 1])]),
    }
    t.describe(|| format!("lengths {:?} weights {:?}", c.iter().map(|v| v.len()).collect::<Vec<_>>(), w.as_ref().map(|w| w.len())));
    t.nontrivial();
    let tpl = KeyTemplates::new();
    let r = if t.bool() { detect_key_weighted(&c, &tpl, w.as_deref()) } else { detect_key_weighted_mode_heuristic(&c, &tpl, w.as_deref(), 0.2, 0.6, true, 0.2) };
    match r {
        Err(AnalysisError::InvalidInput(_)) => Ok(()),
        r => fail(format!("malformed chroma accepted: {:?}", r.map(|r| r.key))),
    }
}

fn templates_case(t: &mut T) -> R {
    let temperley = t.bool();
    let tpl = KeyTemplates::new_with_template_set(if temperley { TemplateSet::Temperley } else { TemplateSet::KrumhanslKessler });
    let i = t.u32(0, 23);
    let (ma, mi) = profiles(temperley);
    let p = if i < 12 { ma } else { mi };
    let n = p.iter().map(|x| x * x).sum::<f64>().sqrt();
    t.describe(|| format!("key index {} temperley {}", i, temperley));
    t.nontrivial();
    let got = tpl.get_template(i);
    let alt = if i < 12 { tpl.get_major_template(i) } else { tpl.get_minor_template(i - 12) };
    ensure!(got == alt, "template accessors disagree for key {}", i);
    for s in 0..12 {
        let w = p[(s + 12 - (i % 12) as usize) % 12] / n;
        ensure!(close(got[s] as f64, w, 1e-4, 1e-5), "template {} entry {} is {} expected {}", i, s, got[s], w);
    }
    Ok(())
}

// ------------------------------------------------------------ C20 segment-wise detection

fn seg_w<'a>(w: &'a Option<Vec<f32>>, a: usize, b: usize) -> Option<&'a [f32]> {
    w.as_ref().map(|w| &w[a..b])
}

fn check_combined(r: &KeyDetectionResult, want: &[f64; 24], tol: f64) -> Result<bool, Stop> {
    let tab = table(r)?;
    for i in 0..24 {
        ensure!(close(tab[i], want[i], 1e-3, tol), "combined score of {:?} is {} expected {}", of_idx(i), tab[i], want[i]);
    }
    ensure!(r.key == r.all_scores[0].0, "key {:?} is not the best ranked {:?}", r.key, r.all_scores[0]);
    ensure!(r.top_keys[..] == r.all_scores[..3], "short list {:?} is not the head of the ranking", r.top_keys);
    let (b, s) = (r.all_scores[0].1 as f64, r.all_scores[1].1 as f64);
    let wc = if b > 0.0 { ((b - s) / b).clamp(0.0, 1.0) } else { 0.0 };
    ensure!(close(r.confidence as f64, wc, 1e-3, 1e-4), "confidence {} expected {}", r.confidence, wc);
    Ok(b - s > 1e-3)
}

fn one_plain(c: &[Vec<f32>], tpl: &KeyTemplates, w: Option<&[f32]>) -> Result<KeyDetectionResult, Stop> {
    detect_key_weighted(c, tpl, w).map_err(|e| Stop::Fail(e.to_string()))
}

/// a major and a minor key that lead with the very same score are told apart by the whole track
fn check_tie(t: &mut T, r: &KeyDetectionResult, whole: &KeyDetectionResult) -> R {
    let (a, b) = (r.all_scores[0], r.all_scores[1]);
    if a.1 == b.1 && a.1 > 0.0 && kidx(a.0) / 12 != kidx(b.0) / 12 && r.all_scores[2].1 < a.1 {
        let pos = |k: Key| whole.all_scores.iter().position(|x| x.0 == k);
        t.label("mode tie");
        ensure!(pos(a.0) < pos(b.0), "{:?} and {:?} tie; the whole recording matches {:?} better", a.0, b.0, b.0);
    }
    Ok(())
}

fn multi_scale_case(t: &mut T) -> R {
    let c = chroma_seq(t, 80);
    let w = weights_for(t, c.len());
    let ns = t.us(1, 3);
    let long = if c.len() > 80 { 20 } else { 1 };
    let lens: Vec<usize> = (0..ns).map(|_| t.us(0, 50) * long).collect();
    let hop = t.us(0, 20) * long;
    let minc = t.pick(&[0.0f32, 0.2, 0.4, 0.6, 0.99]);
    let sw: Option<Vec<f32>> = match t.us(0, 2) {
        0 => None,
        1 => Some((0..t.us(0, ns)).map(|_| t.pick(&[1.0f32, 0.5, 2.0, 0.0, -1.0])).collect()),
        _ => Some(vec![1.0; ns + 1]),
    };
    let heur = t.bool();
    let bonus = t.bool();
    t.describe(|| format!("{} frames scales {:?} hop {} min clarity {} scale weights {:?} heuristic {} bonus {} weighted {} first {:?}", c.len(), lens, hop, minc, sw, heur, bonus, w.is_some(), c[0]));
    let tpl = KeyTemplates::new();
    let r = detect_key_multi_scale(&c, &tpl, w.as_deref(), &lens, hop, minc, sw.as_deref(), heur, 0.2, 0.6, bonus, 0.2).map_err(|e| Stop::Fail(e.to_string()))?;
    let one = |a: usize, b: usize| {
        if heur || bonus {
            detect_key_weighted_mode_heuristic(&c[a..b], &tpl, seg_w(&w, a, b), 0.2, if heur { 0.6 } else { 0.0 }, bonus, 0.2)
        } else {
            detect_key_weighted(&c[a..b], &tpl, seg_w(&w, a, b))
        }
        .map_err(|e| Stop::Fail(e.to_string()))
    };
    let mut acc = [0f64; 24];
    let (mut tw, mut used) = (0f64, 0);
    for (si, &l) in lens.iter().enumerate() {
        let s = sw.as_ref().and_then(|v| v.get(si).copied()).unwrap_or(1.0) as f64;
        if l == 0 || l > c.len() || s <= 0.0 {
            continue;
        }
        let mut st = 0;
        while st + l <= c.len() {
            let q = one(st, st + l)?;
            let cl = compute_key_clarity(&q.all_scores);
            if cl >= minc {
                used += 1;
                tw += cl as f64 * s;
                let tb = table(&q)?;
                for i in 0..24 {
                    acc[i] += tb[i] * cl as f64 * s;
                }
            }
            st += hop.max(1);
        }
    }
    if used == 0 || tw <= 1e-12 {
        t.label("fallback to the whole track");
        let g = one(0, c.len())?;
        ensure!(g.key == r.key && g.all_scores == r.all_scores, "fallback gives {:?}, whole-track detection {:?}", r.key, g.key);
        return Ok(());
    }
    acc.iter_mut().for_each(|x| *x /= tw);
    if check_combined(&r, &acc, 1e-3)? && used > 1 {
        t.nontrivial();
    }
    check_tie(t, &r, &one_plain(&c, &tpl, w.as_deref())?)?;
    Ok(())
}

fn median_case(t: &mut T) -> R {
    let n = if t.chance(1, 6) { t.us(1, 130) } else { t.us(130, 420) };
    let nseg = t.us(1, 5);
    let keys: Vec<usize> = (0..nseg).map(|_| t.us(0, 23)).collect();
    let mut rng = t.bulk();
    let noise = t.pick(&[0.05f64, 0.0, 0.4]);
    let c: Vec<Vec<f32>> = (0..n)
        .map(|i| {
            let k = keys[(i * nseg / n).min(nseg - 1)];
            (0..12).map(|x| ((if k < 12 { KK_MAJ } else { KK_MIN })[(x + 12 - k % 12) % 12] / 15.0 + noise * rng.unit()) as f32).collect()
        })
        .collect();
    let mut c = c;
    faint(t, &mut c);
    let w = weights_for(t, n);
    let (len, hop, mins) = (t.us(0, 260), t.us(0, 120), t.us(0, 5));
    t.describe(|| format!("{} frames keys {:?} noise {} segment {} hop {} min {} weighted {}", n, keys, noise, len, hop, mins, w.is_some()));
    let tpl = KeyTemplates::new();
    let r = detect_key_median(&c, &tpl, w.as_deref(), len, hop, mins).map_err(|e| Stop::Fail(e.to_string()))?;
    let tab = table(&r)?;
    let sl = len.min(n).max(120);
    let mut segs = vec![];
    let mut st = 0;
    while st + sl <= n {
        segs.push(detect_key_weighted(&c[st..st + sl], &tpl, seg_w(&w, st, st + sl)).map_err(|e| Stop::Fail(e.to_string()))?);
        st += hop.max(1);
    }
    if segs.len() < mins.max(1) {
        t.label("too few segments");
        let g = detect_key_weighted(&c, &tpl, w.as_deref()).map_err(|e| Stop::Fail(e.to_string()))?;
        ensure!(g.key == r.key && g.all_scores == r.all_scores && g.confidence == r.confidence, "fallback differs from whole-track detection");
        return Ok(());
    }
    let mut cnt = [0usize; 24];
    let mut conf = [0f64; 24];
    for s in &segs {
        cnt[kidx(s.key)] += 1;
        conf[kidx(s.key)] += s.confidence as f64;
    }
    let mx = *cnt.iter().max().unwrap();
    let cands: Vec<usize> = (0..24).filter(|&i| cnt[i] == mx).collect();
    let bestc = cands.iter().map(|&i| conf[i]).fold(f64::MIN, f64::max);
    ensure!(cnt[kidx(r.key)] == mx, "key {:?} found in {} segments, another in {}", r.key, cnt[kidx(r.key)], mx);
    ensure!(conf[kidx(r.key)] >= bestc - 1e-4, "tie not resolved by confidence: {:?}", r.key);
    if segs.len() > 1 && cands.len() == 1 {
        t.nontrivial();
    }
    let tw: f64 = segs.iter().map(|s| s.confidence as f64).sum();
    if tw > 1e-4 || tw == 0.0 {
        for i in 0..24 {
            let a: f64 = if tw > 0.0 {
                segs.iter().map(|s| s.all_scores.iter().find(|x| kidx(x.0) == i).unwrap().1 as f64 * s.confidence as f64).sum::<f64>() / tw
            } else {
                0.0
            };
            ensure!(close(tab[i], a, 1e-2, 1e-2), "aggregate score of {:?} is {} expected {}", of_idx(i), tab[i], a);
        }
    }
    Ok(())
}

fn ensemble_case(t: &mut T) -> R {
    let c = chroma_seq(t, 40);
    let w = weights_for(t, c.len());
    let (a, b) = t.pick(&[(0.5f32, 0.5f32), (1.0, 0.0), (0.0, 1.0), (0.3, 0.9), (0.0, 0.0), (2.0, 1.0)]);
    t.describe(|| format!("{} frames weights {} / {} weighted {} first {:?}", c.len(), a, b, w.is_some(), c[0]));
    let r = detect_key_ensemble(&c, w.as_deref(), a, b).map_err(|e| Stop::Fail(e.to_string()))?;
    let mut tabs = vec![];
    let mut whole = vec![];
    for s in [TemplateSet::KrumhanslKessler, TemplateSet::Temperley] {
        let q = detect_key_weighted(&c, &KeyTemplates::new_with_template_set(s), w.as_deref()).map_err(|e| Stop::Fail(e.to_string()))?;
        tabs.push(table(&q)?);
        whole.push(q);
    }
    let s = (a + b) as f64;
    let (x, y) = if s > 1e-9 { (a as f64 / s, b as f64 / s) } else { (0.5, 0.5) };
    let mut want = [0f64; 24];
    for i in 0..24 {
        want[i] = x * tabs[0][i] + y * tabs[1][i];
    }
    check_combined(&r, &want, 1e-3)?;
    check_tie(t, &r, &whole[(y > x) as usize])?;
    t.nontrivial();
    Ok(())
}

/// Make the two modes distinguishable in plain detection: its confidence is the lead of the best key over the
/// runner-up after each mode has been scaled to its own best score, which is zero unless the scores are minute.
fn faint(t: &mut T, c: &mut [Vec<f32>]) {
    if !t.chance(1, 3) {
        return;
    }
    let k = t.pick(&[1e-10f32, 3e-11, 3e-10, 1e-11]);
    let centre = t.bool();
    t.label("faint chroma");
    for v in c.iter_mut() {
        let m = if centre { v.iter().sum::<f32>() / 12.0 } else { 0.0 };
        v.iter_mut().for_each(|x| *x = (*x - m) * k);
    }
}

fn changes_case(t: &mut T) -> R {
    let mut c = chroma_seq(t, 150);
    faint(t, &mut c);
    let sr = t.pick(&[44100u32, 8000, 22050]);
    let hop = t.pick(&[512usize, 256, 4410]);
    let fps = sr as f64 / hop as f64;
    let long = if c.len() > 150 { 20 } else { 1 };
    let segf = t.us(0, 40) * long;
    let ovf = t.us(0, 45) * long;
    let dur = ((segf as f64 + 0.5) / fps) as f32;
    let ov = ((ovf as f64 + 0.5) / fps) as f32;
    t.describe(|| format!("{} frames at {} fps, segments of {} frames overlapping by {}", c.len(), fps, segf, ovf));
    let tpl = KeyTemplates::new();
    let r = detect_key_changes(&c, sr, hop, &tpl, dur, ov);
    if segf <= ovf || segf == 0 || segf > c.len() {
        return match r {
            Err(AnalysisError::InvalidInput(_)) => Ok(()),
            r => fail(format!("impossible segmentation accepted: {:?}", r.map(|r| r.segment_keys.len()))),
        };
    }
    let r = r.map_err(|e| Stop::Fail(e.to_string()))?;
    let step = segf - ovf;
    let n = (c.len() - segf) / step + 1;
    ensure!(r.segment_keys.len() == n, "{} segments, expected {}", r.segment_keys.len(), n);
    if n > 1 {
        t.nontrivial();
    }
    let mut cnt = [0usize; 24];
    let mut cs = [0f64; 24];
    for (i, (ts, k, cf)) in r.segment_keys.iter().enumerate() {
        let q = detect_key(&c[i * step..i * step + segf], &tpl).map_err(|e| Stop::Fail(e.to_string()))?;
        ensure!(close(*ts as f64, (i * step) as f64 / fps, 1e-4, 1e-5), "segment {} starts at {} s", i, ts);
        ensure!(q.key == *k && q.confidence == *cf, "segment {} key {:?}, detection gives {:?}", i, k, q.key);
        cnt[kidx(*k)] += 1;
        cs[kidx(*k)] += *cf as f64;
    }
    let p = kidx(r.primary_key);
    ensure!(cnt[p] == *cnt.iter().max().unwrap(), "primary key {:?} is not the most common", r.primary_key);
    ensure!(close(r.primary_confidence as f64, cs[p] / cnt[p] as f64, 1e-4, 1e-5), "primary confidence {}", r.primary_confidence);
    let mut j = 0;
    for i in 1..n {
        let (a, b) = (&r.segment_keys[i - 1], &r.segment_keys[i]);
        let mc = (a.2 as f64 + b.2 as f64) / 2.0;
        let listed = r.key_changes.get(j).map(|x| x.timestamp == b.0).unwrap_or(false);
        let should = a.1 != b.1 && mc > 0.2;
        if (mc - 0.2).abs() > 1e-5 {
            ensure!(listed == should, "change between segments {} and {} ({:?} -> {:?}, confidence {}): listed {}", i - 1, i, a.1, b.1, mc, listed);
        }
        if listed {
            t.label("change reported");
            let x = &r.key_changes[j];
            ensure!(x.from_key == a.1 && x.to_key == b.1 && close(x.confidence as f64, mc, 1e-4, 1e-5), "change {:?} does not describe its segments", x);
            j += 1;
        }
    }
    ensure!(j == r.key_changes.len(), "extra key changes reported");
    Ok(())
}

fn seg_invalid(t: &mut T) -> R {
    let tpl = KeyTemplates::new();
    let c = vec![vec![0.2f32; 12]; t.us(1, 20)];
    let e: Vec<Vec<f32>> = vec![];
    let which = t.us(0, 5);
    t.describe(|| format!("operation {}", which));
    t.nontrivial();
    let err = match which {
        0 => detect_key_multi_scale(&e, &tpl, None, &[10], 5, 0.1, None, false, 0.2, 0.6, false, 0.2).err(),
        1 => detect_key_multi_scale(&c, &tpl, None, &[], 5, 0.1, None, false, 0.2, 0.6, false, 0.2).err(),
        2 => detect_key_median(&e, &tpl, None, 120, 60, 3).err(),
        3 => detect_key_ensemble(&e, None, 0.5, 0.5).err(),
        4 => detect_key_changes(&e, 44100, 512, &tpl, 1.0, 0.5).err(),
        _ => {
            let z = t.bool();
            detect_key_changes(&c, if z { 0 } else { 44100 }, if z { 512 } else { 0 }, &tpl, 1.0, 0.5).err()
        }
    };
    ensure!(matches!(err, Some(AnalysisError::InvalidInput(_))), "operation {}: invalid request not rejected: {:?}", which, err);
    Ok(())
}

// ------------------------------------------------------------ C21 notation and serialisation

const NAMES: [&str; 12] = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"];

fn notation_case(t: &mut T) -> R {
    let i = match t.weighted(&[5, 2, 1]) {
        0 => t.u32(0, 11),
        1 => t.u32(0, 200),
        _ => u32::MAX - t.u32(0, 30),
    };
    let minor = t.bool();
    let k = if minor { Key::Minor(i) } else { Key::Major(i) };
    t.describe(|| format!("{:?}", k));
    t.nontrivial();
    let pc = (i % 12) as usize;
    let want = format!("{}{}", NAMES[pc], if minor { "m" } else { "" });
    ensure!(k.name() == want, "{:?} is named {} instead of {}", k, k.name(), want);
    // number: steps up the circle of fifths from C (major) / A (minor)
    let from = if minor { 9 } else { 0 };
    let mut n = 1;
    let mut p = from;
    while p != pc {
        p = (p + 7) % 12;
        n += 1;
    }
    let want = format!("{}{}", n, if minor { "B" } else { "A" });
    ensure!(k.numerical() == want, "{:?} is numbered {} instead of {}", k, k.numerical(), want);
    let back = Key::from_numerical(&want);
    let canon = if minor { Key::Minor(pc as u32) } else { Key::Major(pc as u32) };
    ensure!(back == Some(canon), "{} parsed as {:?}", want, back);
    // same number = relative keys
    if !minor {
        let rel = Key::Minor((i % 12 + 9) % 12);
        ensure!(rel.numerical() == format!("{}B", n), "relative minor of {:?} has number {}", k, rel.numerical());
    }
    Ok(())
}

fn parse_case(t: &mut T) -> R {
    let alphabet = ["1", "2", "0", "9", "A", "B", "a", "b", "3", "é", " ", "-", "+", "m", "🎵", "\u{0}", "12", "13", "C", "٣"];
    let n = t.us(0, 5);
    let s: String = match t.weighted(&[3, 2]) {
        0 => (0..n).map(|_| t.pick(&alphabet)).collect(),
        _ => format!("{}{}", t.us(0, 30), t.pick(&["A", "B", "a", "é", "", "AB", "C"])),
    };
    t.describe(|| format!("{:?}", s));
    t.nontrivial();
    let got = Key::from_numerical(&s);
    let body = s.strip_suffix('A').map(|b| (b, false)).or_else(|| s.strip_suffix('B').map(|b| (b, true)));
    let strict = body.and_then(|(b, m)| {
        if !b.is_empty() && b.len() <= 2 && b.bytes().all(|c| c.is_ascii_digit()) && !b.starts_with('0') {
            b.parse::<u32>().ok().filter(|n| (1..=12).contains(n)).map(|n| (n, m))
        } else {
            None
        }
    });
    match strict {
        Some((n, m)) => {
            let pc = ((n - 1) * 7 + if m { 9 } else { 0 }) % 12;
            let w = if m { Key::Minor(pc) } else { Key::Major(pc) };
            ensure!(got == Some(w), "{:?} parsed as {:?}, expected {:?}", s, got, w);
        }
        None => {
            // a sign or leading zeros before a valid number may be tolerated
            let lax = body.map(|(b, _)| b.trim_start_matches('+').trim_start_matches('0').parse::<u32>().map(|n| (1..=12).contains(&n)).unwrap_or(false)).unwrap_or(false);
            if !lax {
                ensure!(got.is_none(), "{:?} is not a key but parsed as {:?}", s, got);
            }
        }
    }
    Ok(())
}

fn same_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-6, 0.0),
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_json(a, b)),
        (Object(x), Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| same_json(v, w)).unwrap_or(false)),
        _ => a == b,
    }
}

fn json_case(t: &mut T) -> R {
    let fv = |t: &mut T| match t.weighted(&[3, 1, 1]) {
        0 => t.f(0.0, 300.0),
        1 => t.pick(&[0.0f32, 1.0, -0.0, 1e-30, 3.4e38, 0.1]),
        _ => f32::from_bits(t.draw(0x7f7f_ffff) as u32),
    };
    let fvec = |t: &mut T| {
        let n = t.us(0, 5);
        (0..n).map(|_| fv(t)).collect::<Vec<f32>>()
    };
    let ob = |t: &mut T| match t.us(0, 2) {
        0 => None,
        1 => Some(false),
        _ => Some(true),
    };
    let strs = |t: &mut T| {
        let n = t.us(0, 3);
        (0..n).map(|_| t.pick(&["", "tempogram", "a \"quoted\" \\ line\n", "größe 🎵", "Low BPM confidence: 0.1"]).to_string()).collect::<Vec<_>>()
    };
    let nf = t.us(0, 3);
    let r = AnalysisResult {
        bpm: fv(t),
        bpm_confidence: fv(t),
        key: if t.bool() { Key::Minor(t.u32(0, 11)) } else { Key::Major(t.u32(0, 11)) },
        key_confidence: fv(t),
        key_clarity: fv(t),
        beat_grid: BeatGrid { downbeats: fvec(t), beats: fvec(t), bars: fvec(t) },
        grid_stability: fv(t),
        metadata: AnalysisMetadata {
            duration_seconds: fv(t),
            sample_rate: t.u32(0, 200000),
            processing_time_ms: fv(t),
            algorithm_version: "1.0".into(),
            onset_method_consensus: fv(t),
            methods_used: strs(t),
            flags: (0..nf).map(|_| t.pick(&[AnalysisFlag::MultimodalBpm, AnalysisFlag::WeakTonality, AnalysisFlag::TempoVariation, AnalysisFlag::OnsetDetectionAmbiguous])).collect(),
            confidence_warnings: strs(t),
            tempogram_candidates: if t.bool() {
                let n = t.us(0, 3);
                Some((0..n).map(|_| TempoCandidateDebug { bpm: fv(t), score: fv(t), fft_norm: fv(t), autocorr_norm: fv(t), selected: t.bool() }).collect())
            } else {
                None
            },
            tempogram_multi_res_triggered: ob(t),
            tempogram_multi_res_used: ob(t),
            tempogram_percussive_triggered: ob(t),
            tempogram_percussive_used: ob(t),
        },
    };
    t.describe(|| format!("{:?}", r));
    t.nontrivial();
    let s = serde_json::to_string(&r).map_err(|e| Stop::Fail(format!("serialisation failed: {}", e)))?;
    let b: AnalysisResult = serde_json::from_str(&s).map_err(|e| Stop::Fail(format!("written result cannot be read back: {}", e)))?;
    let s2 = serde_json::to_string(&b).map_err(|e| Stop::Fail(e.to_string()))?;
    let (v1, v2): (serde_json::Value, serde_json::Value) = (serde_json::from_str(&s).unwrap(), serde_json::from_str(&s2).unwrap());
    ensure!(same_json(&v1, &v2), "JSON round trip changed the result: {} -> {}", s, s2);
    // field-level comparison through Debug, with numbers compared by value
    ensure!(dbg_same(&format!("{:?}", r), &format!("{:?}", b)), "result read back differs: {:?} / {:?}", r, b);
    // absent optional diagnostics are omitted
    let m = v1["metadata"].as_object().unwrap();
    ensure!(m.contains_key("tempogram_candidates") == r.metadata.tempogram_candidates.is_some(), "optional diagnostics misrepresented");
    for f in ["bpm", "bpm_confidence", "key", "key_confidence", "key_clarity", "beat_grid", "grid_stability", "metadata"] {
        ensure!(v1.get(f).is_some(), "field {} missing from the JSON form", f);
    }
    let cmp = |f: &str, x: f32| -> R {
        ensure!(close(v1[f].as_f64().unwrap_or(f64::NAN), x as f64, 1e-6, 1e-44), "field {} written as {} instead of {}", f, v1[f], x);
        Ok(())
    };
    cmp("bpm", r.bpm)?;
    cmp("bpm_confidence", r.bpm_confidence)?;
    cmp("key_confidence", r.key_confidence)?;
    cmp("key_clarity", r.key_clarity)?;
    cmp("grid_stability", r.grid_stability)?;
    let vec_ok = |v: &serde_json::Value, x: &[f32]| v.as_array().map(|a| a.len() == x.len() && a.iter().zip(x).all(|(a, b)| close(a.as_f64().unwrap_or(f64::NAN), *b as f64, 1e-6, 1e-44))).unwrap_or(false);
    ensure!(
        vec_ok(&v1["beat_grid"]["beats"], &r.beat_grid.beats) && vec_ok(&v1["beat_grid"]["downbeats"], &r.beat_grid.downbeats) && vec_ok(&v1["beat_grid"]["bars"], &r.beat_grid.bars),
        "beat grid misrepresented in JSON: {}", v1["beat_grid"]
    );
    Ok(())
}

fn dbg_same(a: &str, b: &str) -> bool {
    let split = |s: &str| s.split([' ', ',', '[', ']', '(', ')', '{', '}']).map(|x| x.to_string()).collect::<Vec<_>>();
    let (a, b) = (split(a), split(b));
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| {
            x == y || match (x.parse::<f64>(), y.parse::<f64>()) {
                (Ok(x), Ok(y)) => close(x, y, 1e-6, 1e-44),
                _ => false,
            }
        })
}

pub fn props(v: &mut Vec<Property>) {
    v.push(Property {
        id: "C19",
        rule: "the best key of each mode is separated from the next by more than single-precision error, so scores and key were compared with the reference",
        assumptions: &["near-ties within one mode are checked for well-formedness only"],
        parts: vec![
            Part { name: "reference", quick: 40000, thorough: 600000, f: detect_case, serial: false },
            Part { name: "mode-heuristic", quick: 40000, thorough: 600000, f: heuristic_case, serial: false },
            Part { name: "transposition", quick: 40000, thorough: 600000, f: equivariance_case, serial: false },
            Part { name: "clarity", quick: 20000, thorough: 200000, f: clarity_case, serial: false },
            Part { name: "templates", quick: 500, thorough: 2000, f: templates_case, serial: false },
            Part { name: "malformed", quick: 3000, thorough: 30000, f: detect_invalid, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C20",
        rule: "several segments (or both template sets) took part in the decision",
        assumptions: &["the per-segment detection itself is the subject of C19"],
        parts: vec![
            Part { name: "multi-scale", quick: 6000, thorough: 100000, f: multi_scale_case, serial: false },
            Part { name: "median", quick: 4000, thorough: 50000, f: median_case, serial: false },
            Part { name: "ensemble", quick: 20000, thorough: 300000, f: ensemble_case, serial: false },
            Part { name: "changes", quick: 12000, thorough: 150000, f: changes_case, serial: false },
            Part { name: "malformed", quick: 2000, thorough: 20000, f: seg_invalid, serial: false },
        ],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C21",
        rule: "every case: a key to name, a string to parse, or a result to serialise",
        assumptions: &["only finite numbers are serialised"],
        parts: vec![
            Part { name: "notation", quick: 20000, thorough: 100000, f: notation_case, serial: false },
            Part { name: "parsing", quick: 60000, thorough: 1000000, f: parse_case, serial: false },
            Part { name: "json", quick: 20000, thorough: 300000, f: json_case, serial: false },
        ],
        hang_is_violation: false,
    });
}
