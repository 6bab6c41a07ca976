//! Metamorphic and reference properties of whole analyses: reproducibility, diagnostics, gain,
//! polarity, silence padding, confidence scoring, result serialisation.
use crate::cfg;
use crate::engine::*;
use crate::gen::*;
use stratum_dsp::analysis::confidence::compute_confidence;
use stratum_dsp::analysis::result::{AnalysisFlag, AnalysisMetadata, BeatGrid, Key, TempoCandidateDebug};
use stratum_dsp::{analyze_audio, AnalysisConfig, AnalysisResult};

/// Everything but the wall time, exactly.
fn canon(r: &Result<AnalysisResult, stratum_dsp::AnalysisError>) -> String {
    match r {
        Ok(a) => {
            let mut a = a.clone();
            a.metadata.processing_time_ms = 0.0;
            format!("{a:?}")
        }
        Err(e) => format!("{e:?}"),
    }
}

/// Everything but the wall time and the optional diagnostics.
fn canon_plain(r: &Result<AnalysisResult, stratum_dsp::AnalysisError>) -> String {
    let mut r = r.clone();
    if let Ok(a) = &mut r {
        a.metadata.tempogram_candidates = None;
    }
    canon(&r)
}

fn first_diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let s = k.saturating_sub(60);
    let cut = |x: &str| x.get(s..(k + 60).min(x.len())).unwrap_or("").to_string();
    format!("..{} / ..{}", cut(a), cut(b))
}

fn song(t: &mut T, secs: f32) -> Recipe {
    if t.bool() {
        rhythmic(t, 55.0, 190.0, secs)
    } else {
        recipe(t, secs)
    }
}

/// One analysis of a history. Related jobs share most of their input with an earlier one.
struct Job {
    r: Recipe,
    twist: u8,
    sr: u32,
    c: AnalysisConfig,
}
impl Job {
    fn audio(&self) -> Vec<f32> {
        let mut x = render(&self.r);
        let n = x.len();
        match self.twist {
            1 => x.iter_mut().for_each(|v| *v = -*v),
            2 => x.reverse(),
            3 => x.iter_mut().for_each(|v| *v *= 0.5),
            4 => x[n / 2..].iter_mut().enumerate().for_each(|(i, v)| *v *= if i % 7000 < 3500 { 0.1 } else { 1.0 }),
            5 if n > 4 => x[1..n - 1].reverse(),
            6 => x.rotate_left(n / 3),
            7 => x.truncate(n - n / 5),
            _ => {}
        }
        x
    }
    fn run(&self) -> String {
        canon(&analyze_audio(&self.audio(), self.sr, self.c.clone()))
    }
    fn show(&self) -> String {
        format!("config[{}] sr={} twist={} {:?}", cfg::diff(&self.c), self.sr, self.twist, self.r)
    }
}

fn draw_jobs(t: &mut T) -> Vec<Job> {
    let n = t.us(2, 3);
    let mut v: Vec<Job> = vec![];
    for i in 0..n {
        let kind = if i == 0 { 0 } else { t.us(0, 4) };
        let fresh_cfg = |t: &mut T| {
            let (mut c, _) = cfg::sane(t, 8);
            if t.bool() {
                cfg::stages(t, &mut c);
            }
            c.hpss_margin = c.hpss_margin.min(5);
            c
        };
        let job = match kind {
            // the same sound, changed a little, with the same settings
            1 | 2 => Job { r: v[0].r.clone(), twist: t.us(1, 7) as u8, sr: v[0].sr, c: v[0].c.clone() },
            // the same samples with other settings
            3 => Job { r: v[0].r.clone(), twist: 0, sr: v[0].sr, c: fresh_cfg(t) },
            // the same samples at another rate
            4 => {
                let sr = t.pick(&[22050u32, 44100, 16000, 48000]);
                Job { r: v[0].r.clone(), twist: 0, sr, c: v[0].c.clone() }
            }
            _ => {
                let r = song(t, 3.0);
                let sr = r.sr;
                Job { r, twist: 0, sr, c: fresh_cfg(t) }
            }
        };
        v.push(job);
    }
    v
}

/// Child process: rebuild the jobs from the choices on standard input, analyse one of them.
pub fn fresh_child() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let (tape, i): (Vec<u64>, usize) = serde_json::from_str(&s).unwrap();
    let jobs = draw_jobs(&mut T::from_choices(tape));
    print!("{}", jobs[i].run());
}

fn in_fresh_process(tape: &[u64], i: usize) -> Result<String, String> {
    use std::io::Write;
    let mut ch = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .arg("--fresh-child")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    ch.stdin.take().unwrap().write_all(serde_json::to_string(&(tape, i)).unwrap().as_bytes()).map_err(|e| e.to_string())?;
    let o = ch.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("child ended with {}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

/// The result in this process, which has analysed many other recordings, equals that of a new process.
fn fresh_case(t: &mut T) -> R {
    let jobs = draw_jobs(t);
    let tape = t.choices();
    t.describe(|| jobs.iter().map(Job::show).collect::<Vec<_>>().join(" | "));
    for (i, j) in jobs.iter().enumerate() {
        let here = j.run();
        // a child that could not be started says nothing about the analysis
        let Ok(there) = in_fresh_process(&tape, i) else { return Err(Stop::Discard) };
        ensure!(here == there, "a process that analysed other recordings before gives another result for input {i} than a new process: {}", first_diff(&here, &there));
        if here.starts_with("AnalysisResult") {
            t.nontrivial();
        }
    }
    Ok(())
}

/// A history of analyses on one thread and on several at once: each input's result never changes.
fn repeat_case(t: &mut T) -> R {
    let jobs = draw_jobs(t);
    let n = jobs.len();
    let order: Vec<usize> = (0..t.us(2, 6)).map(|_| t.us(0, n - 1)).collect();
    let threads = t.us(1, 6);
    t.describe(|| format!("history {order:?} then {threads} threads; {}", jobs.iter().map(Job::show).collect::<Vec<_>>().join(" | ")));
    let audio: Vec<Vec<f32>> = jobs.iter().map(Job::audio).collect();
    let run = |i: usize| canon(&analyze_audio(&audio[i], jobs[i].sr, jobs[i].c.clone()));
    let mut first: Vec<Option<String>> = vec![None; n];
    for &i in &order {
        let g = run(i);
        match &first[i] {
            Some(f) => ensure!(*f == g, "analysing input {i} again gave another result: {}", first_diff(f, &g)),
            None => first[i] = Some(g),
        }
    }
    let gate = std::sync::Barrier::new(threads);
    let par: Vec<Option<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let i = order[k % order.len()];
                let (run, gate) = (&run, &gate);
                s.spawn(move || {
                    gate.wait();
                    (i, run(i))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    for p in par {
        let Some((i, g)) = p else { return fail("an analysis on another thread panicked") };
        let f = first[i].as_ref().unwrap();
        ensure!(*f == g, "analysing input {i} on another thread gave another result: {}", first_diff(f, &g));
    }
    if first.iter().flatten().any(|s| s.starts_with("AnalysisResult")) {
        t.nontrivial();
    }
    if order.iter().any(|i| order.iter().filter(|j| *j == i).count() > 1) {
        t.label("repeated");
    }
    Ok(())
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

/// The debug settings print to stderr; keep that out of the log.
fn mute_stderr() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
            dup2(std::os::fd::IntoRawFd::into_raw_fd(f), 2);
        }
    });
}

fn diagnostics_case(t: &mut T) -> R {
    mute_stderr();
    let hard = t.chance(1, 3);
    let r = if hard { ambiguous(t, 5.0) } else { song(t, 4.0) };
    let x = render(&r);
    let (mut c, _) = cfg::sane(t, 5);
    c.hpss_margin = c.hpss_margin.min(5);
    cfg::alter_named(t, &mut c, &["tempogram_multi_res_top_k", "enable_tempogram_multi_resolution", "enable_tempogram_band_fusion", "enable_tempogram_mel_novelty", "tempogram_band_consensus_bonus", "enable_tempogram_percussive_fallback"], 3);
    c.emit_tempogram_candidates = false;
    c.tempogram_candidates_top_n = t.pick(&[10usize, 0, 1, 25, 200]);
    let mut d = c.clone();
    d.emit_tempogram_candidates = t.bool();
    if hard {
        c.enable_tempogram_multi_resolution = true;
        c.tempogram_multi_res_top_k = t.pick(&[25usize, 1, 5]);
        d.enable_tempogram_multi_resolution = true;
        d.tempogram_multi_res_top_k = c.tempogram_multi_res_top_k;
        // a coarse frame rate makes many tempos score alike
        c.hop_size = t.pick(&[512usize, 1024, 2048]).min(c.frame_size);
        d.hop_size = c.hop_size;
    }
    if t.chance(1, 3) {
        // how many candidates to report is a matter of reporting, too
        d.tempogram_candidates_top_n = t.pick(&[10usize, 0, 1, 25, 200]);
    }
    let a = analyze_audio(&x, r.sr, c.clone());
    if t.bool() {
        d.debug_track_id = Some(t.u32(0, 9));
        // the tempo claimed for the track: near the reported one, its relatives, or unrelated
        let own = a.as_ref().map_or(120.0, |a| a.bpm);
        d.debug_gt_bpm = match t.us(0, 2) {
            0 => None,
            1 => Some(t.pick(&[120.0f32, 60.0, 180.0, 0.0, 1000.0])),
            _ => Some(own * t.pick(&[1.0f32, 2.0, 0.5, 1.5, 0.75, 1.01])),
        };
        d.debug_top_n = t.us(0, 8);
    }
    t.describe(|| format!("diagnostics emit={} top_n={} debug={:?} config[{}] {r:?}", d.emit_tempogram_candidates, d.tempogram_candidates_top_n, d.debug_track_id, cfg::diff(&c)));
    let b = analyze_audio(&x, r.sr, d.clone());
    let (ca, cb) = (canon_plain(&a), canon_plain(&b));
    ensure!(ca == cb, "asking for diagnostics changed the analysis: {}", first_diff(&ca, &cb));
    if let (Ok(a), Ok(b)) = (&a, &b) {
        ensure!(a.metadata.tempogram_candidates.is_none(), "candidates were emitted without being asked for");
        if let Some(v) = &b.metadata.tempogram_candidates {
            ensure!(d.emit_tempogram_candidates, "candidates were emitted without being asked for");
            ensure!(v.len() <= d.tempogram_candidates_top_n, "{} candidates emitted, {} asked for", v.len(), d.tempogram_candidates_top_n);
            ensure!(
                v.windows(2).all(|w| w[0].score >= w[1].score) || b.metadata.tempogram_multi_res_used == Some(true),
                "candidates are not ranked by score: {v:?}"
            );
            for k in v {
                let dist = (k.bpm - b.bpm).abs();
                if (dist - 0.75).abs() > 1e-3 {
                    ensure!(k.selected == (dist < 0.75), "candidate {} marked selected={} while the tempo is {}", k.bpm, k.selected, b.bpm);
                }
            }
            t.label("candidates");
        }
        t.nontrivial();
    }
    Ok(())
}

/// How many candidates are reported, and whether, on material where many tempos score alike.
fn reporting_case(t: &mut T) -> R {
    mute_stderr();
    let bpm = t.f(40.0, 220.0) as f64;
    let mut layers = vec![Layer::Noise { amp: 10f32.powf(t.f(-2.0, -0.5)) as f64 }];
    layers.push(match t.us(0, 2) {
        0 => Layer::Bursts { bpm, offset_s: t.f(0.0, 0.5) as f64, len_s: t.f(0.02, 0.1) as f64, amp: t.pick(&[0.5, 0.2]) },
        1 => notes(t, bpm),
        _ => Layer::Clicks { bpm, offset_s: t.f(0.0, 0.5) as f64, decay_s: 0.03, tone_hz: 400.0, amp: t.pick(&[0.5, 0.2]), jitter_s: t.pick(&[0.0, 0.05]), accent: 0 },
    });
    let r = Recipe { sr: 8000, secs: t.f(2.5, 9.0) as f64, lead_s: 0.0, tail_s: 0.0, gap: None, layers, seed: t.draw(0xFFFF), hot: false };
    let x = render(&r);
    let c = AnalysisConfig {
        enable_tempogram_multi_resolution: true,
        tempogram_multi_res_top_k: t.pick(&[1usize, 5, 10, 25]),
        hop_size: t.pick(&[2048usize, 1500, 1024]),
        bpm_resolution: t.pick(&[1.0f32, 0.25, 3.0]),
        enable_tempogram_band_fusion: t.bool(),
        tempogram_candidates_top_n: t.pick(&[1usize, 0, 10]),
        hpss_margin: 2,
        enable_key_stft_override: false,
        ..Default::default()
    };
    let d = AnalysisConfig { emit_tempogram_candidates: t.bool(), tempogram_candidates_top_n: t.pick(&[10usize, 25, 60, 1000]), ..c.clone() };
    t.describe(|| format!("reporting {} candidates instead of {} (emit={}) config[{}] {r:?}", d.tempogram_candidates_top_n, c.tempogram_candidates_top_n, d.emit_tempogram_candidates, cfg::diff(&c)));
    let (a, b) = (analyze_audio(&x, r.sr, c), analyze_audio(&x, r.sr, d));
    let (ca, cb) = (canon_plain(&a), canon_plain(&b));
    ensure!(ca == cb, "asking for diagnostics changed the analysis: {}", first_diff(&ca, &cb));
    if a.is_ok_and(|a| a.bpm > 0.0) {
        t.nontrivial();
    }
    Ok(())
}

fn differ(a: &AnalysisResult, b: &AnalysisResult, tol: f64) -> Option<String> {
    let f = |n: &str, x: f32, y: f32, abs: f64| (!close(x as f64, y as f64, tol, abs)).then(|| format!("{n} {x} / {y}"));
    f("tempo", a.bpm, b.bpm, 0.0)
        .or_else(|| f("tempo confidence", a.bpm_confidence, b.bpm_confidence, 1e-3))
        .or_else(|| (a.key != b.key).then(|| format!("key {:?} / {:?}", a.key, b.key)))
        .or_else(|| f("key confidence", a.key_confidence, b.key_confidence, 1e-3))
        .or_else(|| f("key clarity", a.key_clarity, b.key_clarity, 1e-3))
        .or_else(|| f("grid stability", a.grid_stability, b.grid_stability, 1e-3))
        .or_else(|| f("duration", a.metadata.duration_seconds, b.metadata.duration_seconds, 1e-6))
        .or_else(|| {
            for (n, x, y) in [("beats", &a.beat_grid.beats, &b.beat_grid.beats), ("downbeats", &a.beat_grid.downbeats, &b.beat_grid.downbeats), ("bars", &a.beat_grid.bars, &b.beat_grid.bars)] {
                if x.len() != y.len() {
                    return Some(format!("{} / {} {n}", x.len(), y.len()));
                }
                for (p, q) in x.iter().zip(y) {
                    if (p - q).abs() > 1e-3 {
                        return Some(format!("{n} {p} / {q}"));
                    }
                }
            }
            None
        })
        .or_else(|| (a.metadata.confidence_warnings.len() != b.metadata.confidence_warnings.len()).then(|| format!("warnings {:?} / {:?}", a.metadata.confidence_warnings, b.metadata.confidence_warnings)))
}

/// Is the outcome of this analysis insensitive to changes at rounding level?
fn settled(x: &[f32], sr: u32, c: &AnalysisConfig, a: &AnalysisResult) -> bool {
    [1.0f32 - 3e-6, 1.0 + 3e-6, 1.0 - 3e-5, 1.0 + 3e-5, 0.99991, 1.00013, 0.99977, 1.00031, 0.99943, 1.00067, 0.99909, 1.00093].iter().all(|g| {
        let y: Vec<f32> = x.iter().map(|v| v * g).collect();
        matches!(analyze_audio(&y, sr, c.clone()), Ok(b) if differ(a, &b, 1e-3).is_none())
    })
}

fn gain_case(t: &mut T) -> R {
    let mut r = song(t, 4.0);
    let (mut c, _) = cfg::sane(t, 6);
    c.hpss_margin = c.hpss_margin.min(5);
    let g = match t.us(0, 2) {
        0 => -1.0,
        // powers of two scale floating-point samples without rounding
        1 => t.pick(&[0.5f32, 0.25, 2.0, 0.0625, -0.5, 8.0, 0.0078125, -4.0, 1.0 / 4096.0, 1024.0, -1.0 / 65536.0, 32768.0]),
        _ => {
            // other gains round; a noise floor keeps the outcome from hanging on that
            r.layers.push(Layer::Noise { amp: t.pick(&[0.02, 0.1, 0.005]) });
            t.f(0.02, 6.0) * t.pick(&[1.0f32, -1.0])
        }
    };
    let x = render(&r);
    if g != -1.0 {
        c.enable_normalization = true;
        c.normalization = t.pick(&[stratum_dsp::preprocessing::normalization::NormalizationMethod::Peak, stratum_dsp::preprocessing::normalization::NormalizationMethod::RMS]);
    } else if t.bool() {
        c.enable_normalization = false;
    }
    t.describe(|| format!("gain={g} config[{}] {r:?}", cfg::diff(&c)));
    let y: Vec<f32> = x.iter().map(|v| v * g).collect();
    let (a, b) = (analyze_audio(&x, r.sr, c.clone()), analyze_audio(&y, r.sr, c.clone()));
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            if let Some(d) = differ(a, b, 1e-3) {
                if !settled(&x, r.sr, &c, a) {
                    return Err(Stop::Discard);
                }
                return fail(format!("scaling the recording by {g} changed the analysis: {d}"));
            }
            if a.bpm > 0.0 {
                t.nontrivial();
            }
            if g < 0.0 {
                t.label("inverted");
            }
        }
        (Err(_), Err(_)) => {}
        _ => {
            return fail(format!("scaling the recording by {g} changed the outcome: {:?} / {:?}", a.as_ref().map(|r| r.bpm), b.as_ref().map(|r| r.bpm)));
        }
    }
    Ok(())
}

fn padding_case(t: &mut T) -> R {
    let mut r = song(t, 4.0);
    (r.lead_s, r.tail_s) = (0.0, 0.0);
    let x = render(&r);
    let (mut c, _) = cfg::sane(t, 6);
    c.hpss_margin = c.hpss_margin.min(5);
    c.enable_normalization = t.us(0, 3) != 1;
    c.enable_silence_trimming = true;
    c.normalization = stratum_dsp::preprocessing::normalization::NormalizationMethod::Peak;
    let f = c.frame_size;
    let base = (r.sr as usize * 7 / 10).div_ceil(f) + 2;
    let long = t.pick(&[20usize, 20, 60, 600]);
    let (l1, l2, t1, t2) = (base + t.us(0, 6), base + t.us(0, long), base + t.us(0, 6), base + t.us(0, long));
    t.describe(|| format!("frames of silence before {l1}/{l2}, after {t1}/{t2}; config[{}] {r:?}", cfg::diff(&c)));
    let pad = |l: usize, e: usize| {
        let mut v = vec![0f32; l * f];
        v.extend(&x);
        v.extend(std::iter::repeat(0f32).take(e * f));
        v
    };
    let (p, q) = (pad(l1, t1), pad(l2, t2));
    let (a, b) = (analyze_audio(&p, r.sr, c.clone()), analyze_audio(&q, r.sr, c.clone()));
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            if let Some(d) = differ(a, b, 1e-3) {
                if !settled(&p, r.sr, &c, a) {
                    return Err(Stop::Discard);
                }
                return fail(format!("the amount of surrounding silence changed the analysis: {d}"));
            }
            let max = (x.len() + 2 * f) as f32 / r.sr as f32;
            ensure!(a.metadata.duration_seconds <= max + 1e-3, "duration {} although the sound lasts {max} s", a.metadata.duration_seconds);
            if a.bpm > 0.0 && (l1 != l2 || t1 != t2) {
                t.nontrivial();
            }
        }
        (Err(_), Err(_)) => {}
        _ => return fail(format!("the amount of surrounding silence decided success: {:?} / {:?}", a.as_ref().map(|r| r.bpm), b.as_ref().map(|r| r.bpm))),
    }
    Ok(())
}

fn any_result(t: &mut T) -> AnalysisResult {
    let unit = |t: &mut T| match t.us(0, 3) {
        0 => t.pick(&[0.0f32, 1.0, 0.2, 0.3, 0.5, 0.7, 0.199, 0.299]),
        1 => t.f(-0.5, 2.0),
        _ => t.f(0.0, 1.0),
    };
    let warn = ["BPM detection failed: insufficient onsets", "Low beat grid stability: 0.10", "Low key detection confidence: 0.10", "Low key clarity: 0.05 (weak tonality)", "Weak tonality", "unrelated"];
    let times = |t: &mut T| -> Vec<f32> { (0..t.us(0, 6)).map(|_| t.f(0.0, 300.0)).collect() };
    AnalysisResult {
        bpm: t.pick(&[120.0f32, 0.0, 87.3, 200.1, -1.0]),
        bpm_confidence: unit(t),
        key: if t.bool() { Key::Major(t.u32(0, 11)) } else { Key::Minor(t.u32(0, 11)) },
        key_confidence: unit(t),
        key_clarity: unit(t),
        beat_grid: BeatGrid { downbeats: times(t), beats: times(t), bars: times(t) },
        grid_stability: unit(t),
        metadata: AnalysisMetadata {
            duration_seconds: t.f(0.0, 1000.0),
            sample_rate: t.u32(1, 192000),
            processing_time_ms: t.f(0.0, 1000.0),
            algorithm_version: t.pick(&["0.1.0-alpha", "", "ünïcode \"quoted\""]).to_string(),
            onset_method_consensus: t.f(0.0, 1.0),
            methods_used: (0..t.us(0, 3)).map(|i| format!("m{i}")).collect(),
            flags: (0..t.us(0, 6)).map(|_| t.pick(&[AnalysisFlag::MultimodalBpm, AnalysisFlag::WeakTonality, AnalysisFlag::TempoVariation, AnalysisFlag::OnsetDetectionAmbiguous])).collect(),
            confidence_warnings: (0..t.us(0, 5)).map(|_| t.pick(&warn).to_string()).collect(),
            tempogram_candidates: t.bool().then(|| (0..t.us(0, 4)).map(|_| TempoCandidateDebug { bpm: t.f(40.0, 240.0), score: t.f(0.0, 2.0), fft_norm: t.f(0.0, 1.0), autocorr_norm: t.f(0.0, 1.0), selected: t.bool() }).collect()),
            tempogram_multi_res_triggered: t.pick(&[None, Some(true), Some(false)]),
            tempogram_multi_res_used: t.pick(&[None, Some(true), Some(false)]),
            tempogram_percussive_triggered: t.pick(&[None, Some(true), Some(false)]),
            tempogram_percussive_used: t.pick(&[None, Some(true), Some(false)]),
        },
    }
}

fn confidence_case(t: &mut T) -> R {
    let r = any_result(t);
    t.describe(|| format!("{r:?}"));
    let c = compute_confidence(&r);
    let w = |ps: &[&str]| r.metadata.confidence_warnings.iter().any(|x| ps.iter().any(|p| x.contains(p)));
    let cl = |x: f32| (x as f64).clamp(0.0, 1.0);
    let b = if r.bpm <= 0.0 { 0.0 } else { cl(r.bpm_confidence) * if w(&["BPM"]) { 0.7 } else { 1.0 } };
    let k = if r.key_confidence <= 0.0 {
        0.0
    } else {
        cl(r.key_confidence) * if r.key_clarity < 0.2 { 0.6 } else if r.key_clarity < 0.5 { 0.85 } else { 1.0 } * if w(&["key", "Key", "tonality"]) { 0.7 } else { 1.0 }
    };
    let g = cl(r.grid_stability);
    let o = if b > 0.0 && k > 0.0 {
        0.4 * b + 0.3 * k + 0.3 * g
    } else {
        0.6 * b.max(k)
    };
    for (n, x, y) in [("tempo", c.bpm_confidence, b), ("key", c.key_confidence, k), ("grid", c.grid_stability, g), ("overall", c.overall_confidence, o)] {
        ensure!((0.0..=1.0).contains(&x), "{n} confidence {x}");
        ensure!(close(x as f64, y, 1e-4, 1e-6), "{n} confidence {x}, expected {y}");
    }
    let near = |x: f64, y: f64| (x - y).abs() < 1e-5;
    let count = |v: &[AnalysisFlag], s: &str| v.iter().filter(|f| format!("{f:?}") == s).count();
    for (n, low, amb) in [
        ("MultimodalBpm", b < 0.3, near(b, 0.3)),
        ("WeakTonality", k < 0.2, near(k, 0.2)),
        ("TempoVariation", g < 0.3, near(g, 0.3)),
        ("OnsetDetectionAmbiguous", false, false),
    ] {
        let had = count(&r.metadata.flags, n) > 0;
        if !amb {
            ensure!((count(&c.flags, n) > 0) == (had || low), "flag {n} present={} (was present={had}, low={low})", count(&c.flags, n) > 0);
        }
    }
    if !near(o, 0.7) && !near(o, 0.5) {
        let lv = if o >= 0.7 { "High" } else if o >= 0.5 { "Medium" } else { "Low" };
        ensure!(c.confidence_level() == lv, "level {} for {o}", c.confidence_level());
        ensure!(
            (c.is_high_confidence(), c.is_medium_confidence(), c.is_low_confidence()) == (lv == "High", lv == "Medium", lv == "Low"),
            "level predicates disagree with {lv}"
        );
        t.label(lv);
    }
    // the level is a function of the overall value, boundaries included
    let mut lv = c.clone();
    let up = |x: f32, d: i32| f32::from_bits((x.to_bits() as i32 + d) as u32);
    lv.overall_confidence = match t.us(0, 3) {
        0 => t.pick(&[0.7f32, 0.5, 0.0, 1.0]),
        1 => up(t.pick(&[0.7f32, 0.5]), t.pick(&[-1, 1])),
        _ => t.f(0.0, 1.0),
    };
    let v = lv.overall_confidence;
    let want = if v >= 0.7 { "High" } else if v >= 0.5 { "Medium" } else { "Low" };
    ensure!(
        lv.confidence_level() == want && (lv.is_high_confidence(), lv.is_medium_confidence(), lv.is_low_confidence()) == (want == "High", want == "Medium", want == "Low"),
        "level of {v}: {} ({}, {}, {})", lv.confidence_level(), lv.is_high_confidence(), lv.is_medium_confidence(), lv.is_low_confidence()
    );
    if b > 0.0 || k > 0.0 {
        t.nontrivial();
    }
    Ok(())
}

/// Raising any single input quality never lowers the overall confidence of a complete result.
fn monotone_case(t: &mut T) -> R {
    let mut r = any_result(t);
    r.bpm = 120.0;
    r.bpm_confidence = t.f(0.01, 1.0);
    r.key_confidence = t.f(0.01, 1.0);
    let mut s = r.clone();
    let d = t.f(0.0, 0.5);
    match t.us(0, 3) {
        0 => s.bpm_confidence += d,
        1 => s.key_confidence += d,
        2 => s.key_clarity += d,
        _ => s.grid_stability += d,
    }
    t.describe(|| format!("{:?} -> {:?}", (r.bpm_confidence, r.key_confidence, r.key_clarity, r.grid_stability), (s.bpm_confidence, s.key_confidence, s.key_clarity, s.grid_stability)));
    let (a, b) = (compute_confidence(&r).overall_confidence, compute_confidence(&s).overall_confidence);
    ensure!(b >= a - 1e-6, "a better result lowered the overall confidence from {a} to {b}");
    if b > a {
        t.nontrivial();
    }
    Ok(())
}

fn json_case(t: &mut T) -> R {
    let r = any_result(t);
    t.describe(|| format!("{r:?}"));
    let s = serde_json::to_string(&r).map_err(|e| Stop::Fail(format!("serialising failed: {e}")))?;
    let b: AnalysisResult = serde_json::from_str(&s).map_err(|e| Stop::Fail(format!("reading back failed: {e}: {s}")))?;
    let (x, y) = (format!("{r:?}"), format!("{b:?}"));
    ensure!(x == y, "result changed through serialisation: {}", first_diff(&x, &y));
    let c = compute_confidence(&r);
    let s = serde_json::to_string(&c).map_err(|e| Stop::Fail(format!("serialising failed: {e}")))?;
    let d: stratum_dsp::analysis::confidence::AnalysisConfidence = serde_json::from_str(&s).map_err(|e| Stop::Fail(format!("reading back failed: {e}: {s}")))?;
    ensure!(format!("{c:?}") == format!("{d:?}"), "confidence changed through serialisation");
    t.nontrivial();
    Ok(())
}

fn json_real_case(t: &mut T) -> R {
    let r = song(t, 3.0);
    let (mut c, _) = cfg::sane(t, 6);
    c.hpss_margin = c.hpss_margin.min(5);
    c.emit_tempogram_candidates = t.bool();
    t.describe(|| format!("config[{}] {r:?}", cfg::diff(&c)));
    let Ok(a) = analyze_audio(&render(&r), r.sr, c) else { return Ok(()) };
    let s = serde_json::to_string(&a).map_err(|e| Stop::Fail(format!("serialising failed: {e}")))?;
    let b: AnalysisResult = serde_json::from_str(&s).map_err(|e| Stop::Fail(format!("reading back failed: {e}")))?;
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    ensure!(x == y, "result changed through serialisation: {}", first_diff(&x, &y));
    t.nontrivial();
    Ok(())
}

pub fn props(v: &mut Vec<Property>) {
    let p = |name, quick, thorough, f| Part { name, quick, thorough, f, serial: false };
    v.push(Property {
        id: "C04",
        rule: "at least one input of the history was analysed successfully",
        assumptions: &[],
        parts: vec![p("history", 500, 15000, repeat_case as fn(&mut T) -> R), p("fresh-process", 300, 6000, fresh_case)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C05",
        rule: "both analyses succeeded",
        assumptions: &[],
        parts: vec![p("diagnostics", 800, 25000, diagnostics_case as fn(&mut T) -> R), p("reporting", 1500, 60000, reporting_case)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C06",
        rule: "both analyses reported a tempo",
        assumptions: &["cases whose outcome already changes under a gain of at most 0.1 % are discarded as undecided"],
        parts: vec![p("gain", 900, 25000, gain_case as fn(&mut T) -> R)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C07",
        rule: "both analyses reported a tempo and the amounts of silence differ",
        assumptions: &["cases whose outcome already changes under a gain of at most 0.1 % are discarded as undecided"],
        parts: vec![p("padding", 700, 20000, padding_case as fn(&mut T) -> R)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C28",
        rule: "tempo or key confidence is above zero / the comparison is strict",
        assumptions: &[],
        parts: vec![p("scores", 20000, 400000, confidence_case as fn(&mut T) -> R), p("monotone", 20000, 400000, monotone_case)],
        hang_is_violation: false,
    });
    v.push(Property {
        id: "C33",
        rule: "a result was serialised and read back",
        assumptions: &[],
        parts: vec![p("arbitrary", 10000, 200000, json_case as fn(&mut T) -> R), p("analysed", 300, 8000, json_real_case)],
        hang_is_violation: false,
    });
}
