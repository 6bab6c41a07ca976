//! Property-based testing engine: every generated case is a tape of integer
//! choices; failures are shrunk by shrinking the tape (delete / zero / minimise)
//! and the minimal tape is the replay file.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA5A5_5A5A_1234_9876))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// roughly gaussian
    pub fn gauss(&mut self) -> f64 {
        let mut s = 0.0;
        for _ in 0..4 {
            s += self.unit();
        }
        (s - 2.0) * 1.732
    }
}

/// Thrown (as Err) by a case: Fail carries the violation, Discard = case not usable.
#[derive(Debug, Clone)]
pub enum Stop {
    Fail(String),
    Discard,
}
pub type R = Result<(), Stop>;

pub fn fail<T>(s: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(s.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Stop::Fail(format!($($a)*))); } };
}

/// A test case under construction: source of choices + coverage notes.
pub struct T {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub tier_thorough: bool,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub desc: Option<String>,
    want_desc: bool,
}

impl T {
    fn gen(seed: u64, thorough: bool) -> Self {
        T {
            tape: vec![],
            pos: 0,
            rng: Some(Rng::new(seed)),
            tier_thorough: thorough,
            nontrivial: false,
            labels: vec![],
            desc: None,
            want_desc: true,
        }
    }
    fn replay(tape: Vec<u64>, thorough: bool) -> Self {
        T {
            tape,
            pos: 0,
            rng: None,
            tier_thorough: thorough,
            nontrivial: false,
            labels: vec![],
            desc: None,
            want_desc: true,
        }
    }
    /// the choices made so far: another process can rebuild the same case from them
    pub fn choices(&self) -> Vec<u64> {
        self.tape[..self.pos.min(self.tape.len())].to_vec()
    }
    pub fn from_choices(tape: Vec<u64>) -> Self {
        T::replay(tape, false)
    }
    /// uniform integer in [0, max]; 0 is the simplest value
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = if let Some(r) = self.rng.as_mut() {
            let v = if max == u64::MAX { r.next() } else { r.next() % (max + 1) };
            self.tape.push(v);
            v
        } else if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            if max == u64::MAX { v } else { v.min(max) }
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo) as u64) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw((hi - lo) as u64) as usize
    }
    pub fn u32(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw((hi - lo) as u64) as u32
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(den - 1);
        v >= den - num
    }
    /// the usual size limit, rarely (one case in `one_in`) a much larger one
    pub fn cap(&mut self, usual: usize, large: usize, one_in: u64) -> usize {
        if self.chance(1, one_in) {
            self.label("large");
            self.us(usual, large)
        } else {
            usual
        }
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// float in [lo, hi] on a 2^20 grid; lo is simplest
    pub fn f(&mut self, lo: f32, hi: f32) -> f32 {
        let k = self.draw(1 << 20);
        (lo as f64 + (hi as f64 - lo as f64) * (k as f64 / (1u64 << 20) as f64)) as f32
    }
    /// float in [lo,hi] with few distinct values (ties are likely)
    pub fn coarse(&mut self, lo: f32, hi: f32, steps: u64) -> f32 {
        let k = self.draw(steps);
        lo + (hi - lo) * (k as f32 / steps as f32)
    }
    pub fn pick<X: Clone>(&mut self, xs: &[X]) -> X {
        let i = self.draw(xs.len() as u64 - 1) as usize;
        xs[i].clone()
    }
    /// pick by weights; first is simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut v = self.draw(tot - 1);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        ws.len() - 1
    }
    /// a seed for a bulk random stream (not shrunk element-wise)
    pub fn bulk(&mut self) -> Rng {
        let s = self.draw(0xFFFF_FFFF);
        Rng::new(s)
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
}

pub struct Part {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: fn(&mut T) -> R,
    /// run cases of this part on one thread only (e.g. the part itself spawns threads)
    pub serial: bool,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
    /// a case that exceeds the time limit is a violation (termination is stated)
    pub hang_is_violation: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Run code under test; a panic becomes an Err with the message and place.
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

struct Outcome {
    res: R,
    t: T,
}

fn run_case(part: &Part, mut t: T) -> Outcome {
    let r = guarded(|| (part.f)(&mut t));
    let res = match r {
        Ok(x) => x,
        Err(p) => Err(Stop::Fail(format!("panic: {}", p))),
    };
    Outcome { res, t }
}

fn hash_tape(v: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in v {
        h = mix(h ^ x);
    }
    h
}

fn case_seed(seed: u64, id: &str, part: &str, i: usize) -> u64 {
    let mut h = mix(seed);
    for b in id.bytes().chain([0u8]).chain(part.bytes()) {
        h = mix(h ^ b as u64);
    }
    mix(h ^ i as u64)
}

#[derive(Clone, serde::Serialize, serde::Deserialize)]
pub struct Replay {
    pub property: String,
    pub part: String,
    pub tape: Vec<u64>,
    /// present instead of a tape when the case never finished
    pub case_seed: Option<u64>,
    pub thorough: bool,
    pub message: String,
    pub case: String,
}

#[derive(serde::Deserialize)]
pub struct Known {
    pub property: String,
    pub part: String,
    /// the violation message must start with this
    pub message_prefix: String,
    pub what: String,
}

fn thread_stat() -> Option<String> {
    let l = std::fs::read_link("/proc/thread-self").ok()?;
    Some(format!("/proc/{}/stat", l.display()))
}

/// Processor seconds used by a thread.
fn cpu_seconds(path: &str) -> Option<f64> {
    let s = std::fs::read_to_string(path).ok()?;
    let rest: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    let ticks: f64 = rest.get(11)?.parse::<f64>().ok()? + rest.get(12)?.parse::<f64>().ok()?;
    Some(ticks / 100.0)
}

/// How far the quick tier goes beyond a part's base count: checks of single functions cost
/// microseconds per case, whole analyses tens of milliseconds.
fn quick_factor(id: &str) -> f64 {
    match id {
        "C10" | "C12" | "C26" | "C28" => 10.0,
        "C24" => 4.0,
        "C11" | "C13" | "C14" | "C16" | "C18" | "C19" | "C20" | "C21" | "C22" | "C25" | "C27" => 8.0,
        "C15" | "C17" | "C23" | "C29" => 6.0,
        "C05" | "C06" | "C07" | "C31" => 2.0,
        "C32" | "C30" => 1.5,
        _ => 1.0,
    }
}

fn shrink(part: &Part, tape: Vec<u64>, msg: String, thorough: bool, accept: &dyn Fn(&str) -> bool) -> (Vec<u64>, String) {
    let start = Instant::now();
    let limit = Duration::from_secs(40);
    let mut best = tape;
    let mut best_msg = msg;
    let mut evals = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if cand == *best || evals > 4000 || start.elapsed() > limit {
            return false;
        }
        evals += 1;
        let o = run_case(part, T::replay(cand.clone(), thorough));
        if let Err(Stop::Fail(m)) = o.res {
            if accept(&m) {
                let mut c = cand;
                c.truncate(o.t.pos.min(c.len()));
                *best = c;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // zero-suffix / truncate
        let mut k = best.len() / 2;
        while k > 0 && best.len() > k {
            let mut c = best.clone();
            c.truncate(best.len() - k);
            if !attempt(c, &mut best, &mut best_msg) {
                k /= 2;
            }
        }
        // delete blocks
        for bs in [64usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + bs <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + bs);
                if !attempt(c, &mut best, &mut best_msg) {
                    i += bs;
                }
            }
        }
        // zero blocks
        for bs in [64usize, 16, 4, 1] {
            let mut i = 0;
            while i + bs <= best.len() {
                let mut c = best.clone();
                c[i..i + bs].iter_mut().for_each(|x| *x = 0);
                attempt(c, &mut best, &mut best_msg);
                i += bs;
            }
        }
        // minimise values by bisection
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            let mut steps = 0;
            while lo < hi && steps < 24 {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if attempt(c, &mut best, &mut best_msg) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
                steps += 1;
            }
            i += 1;
        }
        if best == before || start.elapsed() > limit {
            break;
        }
    }
    (best, best_msg)
}

pub struct Settings {
    pub seed: u64,
    pub thorough: bool,
    pub verif_dir: String,
    pub scale: f64,
    pub only_part: Option<String>,
}

pub fn replay_file(props: &[Property], path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("read replay");
    let r: Replay = serde_json::from_str(&s).expect("parse replay");
    for p in props {
        if p.id != r.property {
            continue;
        }
        for part in &p.parts {
            if part.name == r.part {
                let t = match r.case_seed {
                    Some(cs) => T::gen(cs, r.thorough),
                    None => T::replay(r.tape.clone(), r.thorough),
                };
                let o = run_case(part, t);
                println!("case: {}", o.t.desc.clone().unwrap_or_default());
                match o.res {
                    Ok(()) => {
                        println!("replay: property holds on this case");
                        return 0;
                    }
                    Err(Stop::Discard) => {
                        println!("replay: case discarded");
                        return 0;
                    }
                    Err(Stop::Fail(m)) => {
                        println!("replay: {}", m);
                        println!("VIOLATION property={} replay={}", p.id, path);
                        return 1;
                    }
                }
            }
        }
    }
    eprintln!("no such property/part");
    2
}

pub fn run_property(p: &Property, st: &Settings, known: &[Known]) -> i32 {
    let t0 = Instant::now();
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    let mut total_eval = 0u64;
    let mut total_disc = 0u64;
    let mut total_distinct = 0u64;
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut parts_json = serde_json::Map::new();
    let mut violations: Vec<(String, Vec<u64>, Option<u64>, String)> = vec![];
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let limit = Duration::from_secs(if st.thorough { 600 } else { 220 });
    let n_parts = p.parts.len() as u64;
    let mut part_no = 0u64;
    for part in &p.parts {
        if let Some(op) = &st.only_part {
            if op != part.name {
                continue;
            }
        }
        let n = if st.thorough { part.thorough } else { part.quick };
        let n = ((n as f64) * st.scale * if st.thorough { 1.0 } else { quick_factor(p.id) }).ceil() as usize;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let evals = AtomicU64::new(0);
        let discards = AtomicU64::new(0);
        let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
        let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
        let psamples: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
        let found: Mutex<Option<(usize, Vec<u64>, String)>> = Mutex::new(None);
        let khits: Mutex<BTreeMap<usize, u64>> = Mutex::new(BTreeMap::new());
        let nt = if part.serial { 1 } else { nthreads };
        let running: Vec<Mutex<Option<(usize, Instant, Option<(String, f64)>)>>> = (0..nt).map(|_| Mutex::new(None)).collect();
        let slowest: Mutex<(f64, usize)> = Mutex::new((0.0, 0));
        part_no += 1;
        // On a slow machine the quick tier stops drawing new cases rather than overrunning.
        let until = t0 + Duration::from_secs(if st.thorough { 86400 } else { 600 * part_no / n_parts });
        let done = AtomicUsize::new(0);
        let ps = Instant::now();
        let is_known = |m: &str| -> Option<usize> {
            known.iter().position(|k| k.property == p.id && k.part == part.name && m.starts_with(&k.message_prefix))
        };
        let hung: Mutex<Option<usize>> = Mutex::new(None);
        std::thread::scope(|sc| {
            for w in 0..nt {
                let (next, stop, evals, discards, distinct, labels, psamples, found, running, done, khits, is_known, slowest) = (
                    &next, &stop, &evals, &discards, &distinct, &labels, &psamples, &found, &running, &done, &khits, &is_known, &slowest,
                );
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local: HashSet<u64> = HashSet::new();
                        let mut ll: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let tid = thread_stat();
                        let mut longest = (0.0f64, 0usize);
                        loop {
                            if stop.load(Ordering::Relaxed) || Instant::now() > until {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let began = Instant::now();
                            let cpu = tid.clone();
                            *running[w].lock().unwrap() = Some((i, began, cpu.map(|p| (p, f64::NAN))));
                            let o = run_case(part, T::gen(case_seed(st.seed, p.id, part.name, i), st.thorough));
                            *running[w].lock().unwrap() = None;
                            let took = began.elapsed().as_secs_f64();
                            if took > longest.0 {
                                longest = (took, i);
                            }
                            evals.fetch_add(1, Ordering::Relaxed);
                            for l in &o.t.labels {
                                *ll.entry(l).or_insert(0) += 1;
                            }
                            match o.res {
                                Ok(()) => {
                                    if o.t.nontrivial {
                                        local.insert(hash_tape(&o.t.tape));
                                        if i < 64 {
                                            if let Some(d) = &o.t.desc {
                                                psamples.lock().unwrap().push((i, d.clone()));
                                            }
                                        }
                                    }
                                }
                                Err(Stop::Discard) => {
                                    discards.fetch_add(1, Ordering::Relaxed);
                                }
                                Err(Stop::Fail(m)) => {
                                    if let Some(k) = is_known(&m) {
                                        *khits.lock().unwrap().entry(k).or_insert(0) += 1;
                                    } else {
                                        let mut f = found.lock().unwrap();
                                        if f.as_ref().map(|x| i < x.0).unwrap_or(true) {
                                            *f = Some((i, o.t.tape.clone(), m));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        distinct.lock().unwrap().extend(local);
                        let mut sl = slowest.lock().unwrap();
                        if longest.0 > sl.0 {
                            *sl = longest;
                        }
                        drop(sl);
                        let mut g = labels.lock().unwrap();
                        for (k, v) in ll {
                            *g.entry(k).or_insert(0) += v;
                        }
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            while done.load(Ordering::SeqCst) < nt {
                std::thread::sleep(Duration::from_millis(if ps.elapsed().as_secs() < 2 { 2 } else { 50 }));
                for r in &running {
                    let mut lock = r.lock().unwrap();
                    let Some((i, s, cpu)) = lock.as_mut() else { continue };
                    let (i, s) = (*i, *s);
                    // Time spent is the thread's processor time, so a busy machine raises no alarm;
                    // a case that makes no progress at all is caught by the wall clock.
                    let mut over = s.elapsed() > 3 * limit;
                    if s.elapsed() > Duration::from_secs(1) {
                        if let Some((path, start)) = cpu {
                            if let Some(now) = cpu_seconds(path) {
                                if start.is_nan() {
                                    *start = now;
                                }
                                over |= now - *start > limit.as_secs_f64();
                            }
                        }
                    }
                    drop(lock);
                    {
                        if over && hung.lock().unwrap().is_none() {
                            *hung.lock().unwrap() = Some(i);
                            let cs = case_seed(st.seed, p.id, part.name, i);
                            let msg = format!("case did not finish within {} s", limit.as_secs());
                            println!("{} part {} case {}: {}", p.id, part.name, i, msg);
                            if p.hang_is_violation {
                                let path = write_replay(st, p.id, part.name, vec![], Some(cs), &msg, "");
                                println!("VIOLATION property={} replay={}", p.id, path);
                                std::process::exit(1);
                            }
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
        let ev = evals.load(Ordering::Relaxed);
        let di = discards.load(Ordering::Relaxed);
        let d = distinct.lock().unwrap().len() as u64;
        total_eval += ev;
        total_disc += di;
        total_distinct += d;
        let mut sm = psamples.into_inner().unwrap();
        sm.sort();
        for (i, s) in sm.iter().take(2) {
            let mut s = s.clone();
            if s.len() > 600 {
                let mut e = 600;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            samples.push(serde_json::json!({"part": part.name, "case": i, "input": s}));
        }
        let labels = labels.into_inner().unwrap();
        parts_json.insert(
            part.name.to_string(),
            serde_json::json!({"evaluations": ev, "distinct_nontrivial": d, "discarded": di,
                "classes": labels.iter().map(|(k, v)| (k.to_string(), serde_json::json!(v))).collect::<serde_json::Map<_,_>>(),
                "slowest_case_s": (slowest.lock().unwrap().0 * 1000.0).round() / 1000.0,
                "seconds": (ps.elapsed().as_secs_f64()*100.0).round()/100.0}),
        );
        for (k, v) in khits.into_inner().unwrap() {
            *known_hits.entry(k).or_insert(0) += v;
        }
        if let Some((_, tape, msg)) = found.into_inner().unwrap() {
            println!("{} part {}: {} (shrinking)", p.id, part.name, msg);
            let (tape, msg) = shrink(part, tape, msg, st.thorough, &|m| is_known(m).is_none());
            let o = run_case(part, T::replay(tape.clone(), st.thorough));
            let case = o.t.desc.unwrap_or_default();
            println!("  minimal: {}", msg);
            println!("  case: {}", case.chars().take(1500).collect::<String>());
            let path = write_replay(st, p.id, part.name, tape.clone(), None, &msg, &case);
            violations.push((part.name.to_string(), tape, None, path));
        }
    }
    for (k, n) in &known_hits {
        println!("KNOWN-FINDING: property={} {} ({} generated cases)", p.id, known[*k].what, n);
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if st.thorough {"thorough"} else {"quick"},
        "seed": st.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total_eval,
            "distinct_nontrivial": total_distinct,
            "discarded": total_disc,
            "rule": p.rule,
            "samples": samples,
            "parts": parts_json,
        },
        "wall_s": (wall*100.0).round()/100.0,
        "violations": violations.len(),
        "assumptions": p.assumptions,
    });
    let dir = format!("{}/evidence", st.verif_dir);
    std::fs::create_dir_all(&dir).ok();
    if st.only_part.is_some() {
        eprintln!("{}", serde_json::to_string(&ev["coverage"]["parts"]).unwrap_or_default());
    } else {
        std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s",
        p.id, total_eval, total_distinct, total_disc, wall
    );
    for (part, _, _, path) in &violations {
        println!("violated part: {}", part);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    if violations.is_empty() {
        0
    } else {
        1
    }
}

fn write_replay(st: &Settings, id: &str, part: &str, tape: Vec<u64>, cs: Option<u64>, msg: &str, case: &str) -> String {
    let dir = format!("{}/replays", st.verif_dir);
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{}-{:08x}.json", dir, id, part, hash_tape(&tape) as u32);
    let r = Replay {
        property: id.into(),
        part: part.into(),
        tape,
        case_seed: cs,
        thorough: st.thorough,
        message: msg.into(),
        case: case.into(),
    };
    std::fs::write(&path, serde_json::to_string(&r).unwrap()).expect("write replay");
    path
}
