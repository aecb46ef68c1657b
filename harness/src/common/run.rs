//! Case runner: seeded cases until the time budget is spent, panic = violation, blocked-forever detection,
//! three-valued verdicts, JSON report on stdout.
use super::mon::{CALLS, STEP_CAP};
use super::rng::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub skipped: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// attributed findings: id -> (times seen, first witness)
    pub known: BTreeMap<&'static str, (u64, String)>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) { *self.counters.entry(k.to_string()).or_insert(0) += n }
    pub fn max(&mut self, k: &str, n: u64) { let e = self.counters.entry(format!("max_{k}")).or_insert(0); *e = (*e).max(n) }
}
pub struct Case<'a> {
    pub rng: Rng,
    pub seed: u64,
    pub st: &'a mut Stats,
    pub thorough: bool,
    pub verbose: bool,
    /// index of the case within its worker
    pub index: u64,
}
pub enum Bad { Violation(String), Skip(&'static str) }
pub type Res = Result<(), Bad>;
pub fn viol<T>(s: impl Into<String>) -> Result<T, Bad> { Err(Bad::Violation(s.into())) }
pub fn skip<T>(s: &'static str) -> Result<T, Bad> { Err(Bad::Skip(s)) }
impl Case<'_> {
    pub fn describe(&mut self, d: &str) {
        *CURRENT.lock().unwrap() = (self.seed, d.chars().take(3000).collect());
    }
    /// a failure attributed to a defect by its call site; whether it is a listed finding is for the driver to decide
    pub fn known(&mut self, id: &'static str, what: impl FnOnce() -> String) {
        let e = self.st.known.entry(id).or_insert_with(|| (0, what()));
        e.0 += 1;
    }
    /// counts the case as non-trivial; distinct by hash of what was generated and observed
    pub fn nontrivial(&mut self, h: u64, sample: impl FnOnce() -> String) {
        self.st.nontrivial += 1;
        if self.st.distinct.len() < 400_000 { self.st.distinct.insert(h); }
        if self.st.samples.len() < 3 { let s = sample(); self.st.samples.push(s.chars().take(700).collect()) }
    }
}
/// raised by `--tiny`: small problems only, for interpreters
pub static TINY: AtomicBool = AtomicBool::new(false);
/// true when the threads of the resolutions are scheduled
pub const SCHED: bool = cfg!(feature = "sched");
pub type CaseFn = fn(&mut Case) -> Res;

static CURRENT: Mutex<(u64, String)> = Mutex::new((0, String::new()));
static EPOCH: AtomicU64 = AtomicU64::new(0);
static CAPPED: AtomicBool = AtomicBool::new(false);
static DONE: AtomicBool = AtomicBool::new(false);

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o
}
fn emit(line: String) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{line}");
    let _ = o.flush();
}
pub fn report_violation(msg: &str) {
    let (seed, desc) = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
    emit(format!("{{\"violation\":{{\"case\":\"{}\",\"what\":\"{}\",\"input\":\"{}\"}}}}", seed, esc(msg), esc(&desc)));
}
extern "C" { fn _exit(c: i32) -> !; }
pub fn die(code: i32) -> ! { if cfg!(miri) { std::process::exit(code) } unsafe { _exit(code) } }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        if msg.contains(STEP_CAP) { CAPPED.store(true, SeqCst); return }
        if msg.contains(super::mon::BOOM) { return }
        // what a callback that panicked left half done may trip other workers before they hear that they should stop: what
        // counts is that the panic reaches the caller
        if super::mon::BOOMED.load(SeqCst) { return }
        if CAPPED.load(SeqCst) && msg.contains("scoped thread panicked") { return }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        report_violation(&format!("panic at {loc}: {msg}"));
        die(1);
    }));
}

/// (all other threads asleep, fingerprint of their CPU use and context switches)
fn snapshot(own: &str) -> (bool, Vec<(String, u64, u64)>) {
    let mut all = true;
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            let t = e.file_name().to_string_lossy().into_owned();
            if t == own { continue }
            let st = std::fs::read_to_string(e.path().join("stat")).unwrap_or_default();
            let rest = st.rsplit(')').next().unwrap_or("").split_whitespace().collect::<Vec<_>>();
            if rest.len() < 13 { continue }
            if rest[0] != "S" { all = false }
            let cpu = rest[11].parse::<u64>().unwrap_or(0) + rest[12].parse::<u64>().unwrap_or(0);
            let status = std::fs::read_to_string(e.path().join("status")).unwrap_or_default();
            let sw: u64 = status.lines().filter(|l| l.contains("ctxt_switches")).filter_map(|l| l.split_whitespace().last().and_then(|x| x.parse::<u64>().ok())).sum();
            v.push((t, cpu, sw));
        }
    }
    v.sort();
    (all, v)
}
/// processor time of the process, in hundredths of a second
fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    if v.len() < 13 { return 0 }
    v[11].parse::<u64>().unwrap_or(0) + v[12].parse::<u64>().unwrap_or(0)
}
/// set by the programs whose cases never compute for long by themselves
pub static SPIN: AtomicBool = AtomicBool::new(false);
/// lowered by the checks that do not judge progress
pub static BLOCKED_IS_VIOLATION: AtomicBool = AtomicBool::new(true);
fn watchdog(case_limit: Duration) {
    std::thread::spawn(move || {
        let own = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default();
        let mut last = (u64::MAX, false, vec![]);
        let mut same = 0;
        let mut since = Instant::now();
        let mut quiet_since = cpu_ticks();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if DONE.load(SeqCst) { return }
            let e = EPOCH.load(SeqCst);
            let (asleep, fp) = snapshot(&own);
            if e != last.0 { since = Instant::now() }
            if e == last.0 && asleep && last.1 && fp == last.2 && !fp.is_empty() { same += 1 } else { same = 0 }
            if same >= 12 && !BLOCKED_IS_VIOLATION.load(SeqCst) {
                emit(format!("{{\"inconclusive\":{{\"case\":\"{}\",\"what\":\"the threads of a resolution are blocked\",\"input\":\"\"}}}}", CURRENT.lock().map(|c| c.0).unwrap_or(0)));
                die(3);
            }
            if same >= 12 {
                report_violation(&format!("deadlock: all {} threads of the resolution are blocked for good (asleep, no CPU use and no context switch over 6 s)", fp.len() - 1));
                die(1);
            }
            if CALLS.swap(false, SeqCst) || e != last.0 { quiet_since = cpu_ticks() }
            last = (e, asleep, fp);
            if SPIN.load(SeqCst) && cpu_ticks().saturating_sub(quiet_since) > 40 * 100 {
                report_violation("livelock: the resolution used 40 s of processor time without asking the model anything");
                die(1);
            }
            if since.elapsed() > case_limit {
                let (seed, desc) = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
                emit(format!("{{\"inconclusive\":{{\"case\":\"{}\",\"what\":\"one case ran for more than {} s\",\"input\":\"{}\"}}}}", seed, case_limit.as_secs(), esc(&desc)));
                die(3);
            }
        }
    });
}

pub struct Opts { pub check: String, pub seed: u64, pub worker: u64, pub secs: f64, pub max: u64, pub thorough: bool, pub replay: Option<u64>, pub hashes: Option<String> }
pub fn parse_opts() -> Opts {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    Opts {
        check: a.get(1).cloned().unwrap_or_default(),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        worker: get("--worker").and_then(|s| s.parse().ok()).unwrap_or(0),
        secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0),
        max: get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
        thorough: get("--tier").as_deref() == Some("thorough"),
        replay: get("--replay").and_then(|s| s.parse().ok()),
        hashes: get("--hashes"),
    }
}

pub fn main_loop(checks: &[(&'static str, CaseFn)]) {
    let o = parse_opts();
    TINY.store(std::env::args().any(|a| a == "--tiny"), SeqCst);
    let f = match checks.iter().find(|c| c.0 == o.check) {
        Some(c) => c.1,
        None => { eprintln!("unknown check {}; known: {:?}", o.check, checks.iter().map(|c| c.0).collect::<Vec<_>>()); std::process::exit(2) }
    };
    install_panic_hook();
    if !cfg!(miri) { watchdog(Duration::from_secs(if o.thorough { 300 } else { 90 })) }
    let mut st = Stats::default();
    let t0 = Instant::now();
    let mut i = 0u64;
    let mut violated = false;
    let mut distinct_skips: BTreeMap<&'static str, u64> = BTreeMap::new();
    let base = mix(mix(o.seed, 0xABCD ^ o.worker), o.check.bytes().fold(7, |a, b| mix(a, b as u64)));
    let mut slowest = (Duration::ZERO, 0u64);
    while t0.elapsed().as_secs_f64() < o.secs && i < o.max {
        let seed = o.replay.unwrap_or_else(|| mix(base, i));
        i += 1;
        EPOCH.fetch_add(1, SeqCst);
        *CURRENT.lock().unwrap() = (seed, String::new());
        CAPPED.store(false, SeqCst);
        super::fam::coarseness(seed);
        #[cfg(feature = "sched")]
        super::sched::case(seed);
        let t1 = Instant::now();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = Case { rng: Rng::new(seed), seed, st: &mut st, thorough: o.thorough, verbose: o.replay.is_some(), index: if o.replay.is_some() { u64::MAX } else { i - 1 } };
            f(&mut c)
        }));
        #[cfg(feature = "sched")]
        super::sched::collect(&mut st, seed);
        if t1.elapsed() > slowest.0 { slowest = (t1.elapsed(), seed) }
        match r {
            Ok(Ok(())) => st.evals += 1,
            Ok(Err(Bad::Skip(s))) => { st.skipped += 1; *distinct_skips.entry(s).or_insert(0) += 1 }
            Ok(Err(Bad::Violation(m))) => { st.evals += 1; report_violation(&m); violated = true; break }
            Err(_) => { st.skipped += 1; *distinct_skips.entry("step budget exhausted").or_insert(0) += 1 }
        }
        if o.replay.is_some() { break }
    }
    DONE.store(true, SeqCst);
    let cs: Vec<String> = st.counters.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let sk: Vec<String> = distinct_skips.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let sm: Vec<String> = st.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let kn: Vec<String> = st.known.iter().map(|(k, (n, w))| format!("\"{}\":{{\"count\":{},\"witness\":\"{}\"}}", k, n, esc(w))).collect();
    emit(format!("{{\"stats\":{{\"evals\":{},\"skipped\":{},\"nontrivial\":{},\"distinct\":{},\"counters\":{{{}}},\"skips\":{{{}}},\"samples\":[{}],\"known\":{{{}}},\"slowest_ms\":{},\"slowest_case\":\"{}\"}}}}",
        st.evals, st.skipped, st.nontrivial, st.distinct.len(), cs.join(","), sk.join(","), sm.join(","), kn.join(","), slowest.0.as_millis(), slowest.1));
    if let Some(f) = &o.hashes {
        let mut b = Vec::with_capacity(st.distinct.len() * 8);
        for h in &st.distinct { b.extend_from_slice(&h.to_le_bytes()) }
        let _ = std::fs::write(f, b);
    }
    die(if violated { 1 } else { 0 });
}
