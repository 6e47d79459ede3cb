//! Case loop, shrinking, replay files, evidence.
use crate::tape::*;
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
    pub repo: PathBuf,
    pub bin: PathBuf,
    pub scratch: PathBuf,
    pub scale: f64,
    /// where the worker threads note the case they are at (read by the supervisor after a crash)
    pub progress: Option<std::fs::File>,
}

/// supervisor <-> child
pub const EXIT_HANG: i32 = 9;

/// One line per worker: the case it is working on.
pub fn write_progress(env: &Env, thread: usize, part: &str, idx: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = &env.progress {
        let l = format!("{part:<24}{idx:>20}\n");
        let _ = f.write_at(l.as_bytes(), (thread * 45) as u64);
    }
}

#[derive(Debug, Clone, Default)]
pub struct Out {
    pub fail: Option<String>,
    pub nontrivial: bool,
    /// identity of the case (for counting distinct ones)
    pub key: u64,
    pub sample: Option<String>,
    pub known: u64,
    pub skipped: bool,
}
impl Out {
    pub fn ok(nontrivial: bool, text: &str) -> Out {
        Out { fail: None, nontrivial, key: hash_str(text), sample: Some(text.to_owned()), known: 0, skipped: false }
    }
    pub fn fail(text: &str, msg: impl Into<String>) -> Out {
        Out { fail: Some(msg.into()), nontrivial: true, key: hash_str(text), sample: Some(text.to_owned()), known: 0, skipped: false }
    }
    pub fn skip() -> Out {
        Out { skipped: true, ..Out::default() }
    }
}

/// first failing case of a part
pub struct Failure {
    pub part: String,
    pub tape: Vec<u32>,
    pub msg: String,
    pub sample: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub skipped: u64,
    pub known: u64,
    pub samples: Vec<(String, String)>,
    pub per_part: Vec<(String, u64, u64)>,
    pub notes: Vec<String>,
}

pub struct Report {
    pub stats: Stats,
    pub failure: Option<Failure>,
    pub rule: String,
    pub known_lines: Vec<String>,
    pub assumptions: Vec<String>,
}
impl Report {
    pub fn new(rule: &str) -> Self {
        Report { stats: Stats::default(), failure: None, rule: rule.to_owned(), known_lines: vec![], assumptions: vec![] }
    }
}

pub type CaseFn<'a> = &'a (dyn Fn(&mut Src) -> Out + Sync);

thread_local!(static NOTE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
/// remember the text of the current case, so that a panic can be shown with it
pub fn note(text: &str) {
    NOTE.with(|p| text.clone_into(&mut p.borrow_mut()));
}
thread_local!(static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
/// a mistake of the harness while it shrinks must not hide the failure that was found
static SHRINKING: AtomicBool = AtomicBool::new(false);
static HOOK: std::sync::Once = std::sync::Once::new();
pub fn quiet_panics() {
    HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|i| {
            let s = format!("{i}");
            LAST_PANIC.with(|p| *p.borrow_mut() = s);
        }));
    });
}

pub fn guarded(f: CaseFn, s: &mut Src) -> Out {
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(o) => o,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            // a panic inside the harness itself is an error of the check, not a finding
            if m.contains("panicked at src/") {
                if SHRINKING.load(Ordering::SeqCst) {
                    return Out::skip();
                }
                eprintln!("harness panic: {m}\n tape {:?}", s.tape);
                std::process::exit(3);
            }
            Out { fail: Some(format!("panic: {m}")), nontrivial: true, key: 0, sample: Some(NOTE.with(|p| p.borrow().clone())), known: 0, skipped: false }
        }
    }
}

pub fn big_stack<T: Send, F: FnOnce() -> T + Send>(f: F) -> T {
    std::thread::scope(|sc| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, f).unwrap().join().unwrap())
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(8)
}

pub const HANG_S: u64 = 20;

/// Run `n` cases of a part. Stops at the first (lowest index) failure and shrinks it.
pub fn run_part(env: &Env, rep: &mut Report, prop: &str, part: &str, n: u64, f: CaseFn) {
    if rep.failure.is_some() {
        return;
    }
    quiet_panics();
    let n = ((n as f64) * env.scale).max(1.0) as u64;
    let next = AtomicU64::new(0);
    let stop_at = AtomicU64::new(u64::MAX);
    let fails: Mutex<Vec<(u64, Vec<u32>, String, String)>> = Mutex::new(vec![]);
    let agg: Mutex<(u64, HashSet<u64>, u64, u64, Vec<(u64, String)>)> = Mutex::new((0, HashSet::new(), 0, 0, vec![]));
    let nt = threads();
    let started: Vec<(AtomicU64, AtomicU64)> = (0..nt).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let t0 = Instant::now();
    let done = AtomicBool::new(false);
    let live = AtomicUsize::new(nt);
    std::thread::scope(|sc| {
        for ti in 0..nt {
            let (next, stop_at, fails, agg, started, done, live) = (&next, &stop_at, &fails, &agg, &started, &done, &live);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(sc, move || {
                    let mut ev = 0;
                    let mut nontriv = HashSet::new();
                    let (mut sk, mut kn) = (0, 0);
                    let mut samples = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || i > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut src = Src::fresh(mix(&[env.seed, hash_str(prop), hash_str(part), i]));
                        write_progress(env, ti, part, i);
                        started[ti].1.store(i, Ordering::Relaxed);
                        started[ti].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let o = guarded(f, &mut src);
                        started[ti].0.store(0, Ordering::Relaxed);
                        if o.skipped {
                            sk += 1;
                            continue;
                        }
                        ev += 1;
                        kn += o.known;
                        if let Some(m) = o.fail {
                            stop_at.fetch_min(i, Ordering::Relaxed);
                            fails.lock().unwrap().push((i, src.tape, m, o.sample.unwrap_or_default()));
                            break;
                        }
                        if o.nontrivial {
                            nontriv.insert(o.key);
                            if i < 40 && samples.len() < 4 {
                                if let Some(s) = o.sample {
                                    samples.push((i, s));
                                }
                            }
                        }
                    }
                    let mut a = agg.lock().unwrap();
                    a.0 += ev;
                    a.1.extend(nontriv);
                    a.2 += sk;
                    a.3 += kn;
                    a.4.extend(samples);
                    drop(a);
                    if live.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                    }
                })
                .unwrap();
        }
        // watchdog
        let (started, done) = (&started, &done);
        sc.spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for (st, idx) in started {
                    let s = st.load(Ordering::Relaxed);
                    if s > 0 && now > s + HANG_S * 1000 {
                        let i = idx.load(Ordering::Relaxed);
                        eprintln!("case {i} of {prop}/{part} did not end within {HANG_S} s");
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
    });
    let (ev, nontriv, sk, kn, mut samples) = agg.into_inner().unwrap();
    samples.sort();
    rep.stats.evals += ev;
    rep.stats.skipped += sk;
    rep.stats.known += kn;
    rep.stats.per_part.push((part.to_owned(), ev, nontriv.len() as u64));
    rep.stats.nontrivial.extend(nontriv);
    rep.stats.samples.extend(samples.into_iter().take(3).map(|(_, s)| (part.to_owned(), s)));
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    if let Some((_, tape, msg, sample)) = fails.into_iter().next() {
        eprintln!("failing case found in {prop}/{part}: {msg}; shrinking ...");
        SHRINKING.store(true, Ordering::SeqCst);
        let (tape, msg, sample) = big_stack(|| {
            catch_unwind(AssertUnwindSafe(|| shrink_failure(f, tape.clone(), msg.clone(), sample.clone())))
                .unwrap_or((tape, msg, sample))
        });
        SHRINKING.store(false, Ordering::SeqCst);
        rep.failure = Some(Failure { part: part.to_owned(), tape, msg, sample });
    }
}

pub fn shrink_failure(f: CaseFn, tape: Vec<u32>, msg: String, sample: String) -> (Vec<u32>, String, String) {
    let mut last = (msg, sample);
    let t0 = Instant::now();
    let best = shrink(&tape, 3000, |c| {
        if t0.elapsed() > Duration::from_secs(60) {
            return None;
        }
        let mut s = Src::replay(c);
        let o = guarded(f, &mut s);
        if o.skipped || o.fail.is_none() {
            return None;
        }
        let u = s.used();
        let mut t = s.tape;
        t.truncate(u);
        Some(t)
    });
    let mut s = Src::replay(&best);
    let o = guarded(f, &mut s);
    if let Some(m) = o.fail {
        last = (m, o.sample.unwrap_or_default());
    }
    (best, last.0, last.1)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(env: &Env, prop: &str, fl: &Failure) -> PathBuf {
    let dir = env.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{:016x}.replay", hash_str(&format!("{}{:?}{}", fl.part, fl.tape, fl.msg))));
    let tape: Vec<String> = fl.tape.iter().map(u32::to_string).collect();
    let body = format!(
        "property={prop}\npart={}\ntape={}\nmsg={}\n--- case ---\n{}\n",
        fl.part,
        tape.join(","),
        fl.msg.replace('\n', "\\n"),
        fl.sample
    );
    let _ = std::fs::write(&p, body);
    p
}

pub fn write_evidence(env: &Env, prop: &str, rep: &Report, wall: f64) {
    let dir = env.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n", js(prop)));
    s.push_str(&format!(" \"tier\": {},\n", js(if env.thorough { "thorough" } else { "quick" })));
    s.push_str(&format!(" \"seed\": {},\n \"level\": \"exploration\",\n", env.seed));
    s.push_str(" \"coverage\": {\n");
    s.push_str(&format!("  \"evaluations\": {},\n", rep.stats.evals));
    s.push_str(&format!("  \"distinct_nontrivial\": {},\n", rep.stats.nontrivial.len()));
    s.push_str(&format!("  \"rule\": {},\n", js(&rep.rule)));
    let parts: Vec<String> = rep
        .stats
        .per_part
        .iter()
        .map(|(p, e, n)| format!("{{\"part\": {}, \"evaluations\": {e}, \"distinct_nontrivial\": {n}}}", js(p)))
        .collect();
    s.push_str(&format!("  \"parts\": [{}],\n", parts.join(", ")));
    s.push_str(&format!("  \"rejected\": {},\n  \"known_finding_cases\": {},\n", rep.stats.skipped, rep.stats.known));
    if !rep.stats.notes.is_empty() {
        let v: Vec<String> = rep.stats.notes.iter().map(|x| js(x)).collect();
        s.push_str(&format!("  \"counters\": [{}],\n", v.join(", ")));
    }
    let sm: Vec<String> = rep
        .stats
        .samples
        .iter()
        .take(12)
        .map(|(p, t)| {
            let t: String = t.chars().take(1500).collect();
            format!("{{\"part\": {}, \"case\": {}}}", js(p), js(&t))
        })
        .collect();
    s.push_str(&format!("  \"samples\": [{}]\n }},\n", sm.join(",\n   ")));
    let asm: Vec<String> = rep.assumptions.iter().map(|x| js(x)).collect();
    s.push_str(&format!(" \"assumptions\": [{}],\n", asm.join(", ")));
    s.push_str(&format!(" \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", u32::from(rep.failure.is_some())));
    std::fs::write(dir.join(format!("{prop}.json")), s).unwrap();
}

pub struct Replay {
    pub prop: String,
    pub part: String,
    pub tape: Vec<u32>,
    pub seed: Option<u64>,
}
pub fn read_replay(p: &Path) -> Replay {
    let t = std::fs::read_to_string(p).expect("replay file");
    let mut r = Replay { prop: String::new(), part: String::new(), tape: vec![], seed: None };
    for l in t.lines() {
        if l.starts_with("---") {
            break;
        }
        if let Some((k, v)) = l.split_once('=') {
            match k {
                "property" => r.prop = v.to_owned(),
                "part" => r.part = v.to_owned(),
                "tape" => r.tape = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                "seed" => r.seed = v.parse().ok(),
                _ => {}
            }
        }
    }
    r
}

/// is the failure listed in the committed list of known findings?
pub fn listed(env: &Env, prop: &str, case: &str) -> bool {
    let t = std::fs::read_to_string(env.verif.join("known_findings.txt")).unwrap_or_default();
    t.lines().any(|l| l.starts_with(&format!("known: property={prop} case={case} ")))
}
