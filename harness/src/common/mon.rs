//! Monitor: counts and records what the solver asks of the user's callbacks.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum Cb { NextVar, Domain, Transition, Cost, Estimate, Merge, Relax, Compare, Width, Hash, Interrupt }

/// Called at every callback; the schedule explorers install preemption points or delays here.
static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
pub fn set_hook(f: Option<fn(Cb)>) { HOOK.store(f.map_or(std::ptr::null_mut(), |f| f as *mut ()), SeqCst) }
thread_local! { static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// callbacks made by a monitor itself do not count
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    QUIET.with(|q| q.set(true));
    let r = f();
    QUIET.with(|q| q.set(false));
    r
}
/// marker carried by panics that stand for a defect of the user's own code
pub const BOOM: &str = "VERIF-BOOM";
static BOOM_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static BOOM_IN: AtomicU64 = AtomicU64::new(0);
static BOOM_ON: AtomicBool = AtomicBool::new(false);
pub static BOOMED: AtomicBool = AtomicBool::new(false);
/// the `at`-th callback (of the given kinds, a set of bits) panics
pub fn arm(kinds: u64, at: u64) {
    BOOMED.store(false, SeqCst);
    BOOM_IN.store(kinds, SeqCst);
    BOOM_AT.store(at, SeqCst);
    BOOM_ON.store(true, SeqCst);
}
pub fn disarm() { BOOM_ON.store(false, SeqCst) }
#[cold]
fn boom(c: Cb) {
    if BOOM_IN.load(SeqCst) >> (c as u64) & 1 == 0 || std::thread::panicking() { return }
    if BOOM_AT.fetch_sub(1, SeqCst) == 0 { BOOMED.store(true, SeqCst); panic!("{} in {:?}", BOOM, c) }
}
#[inline]
pub fn fire(c: Cb) {
    if BOOM_ON.load(Relaxed) { boom(c) }
    let h = HOOK.load(Relaxed);
    if !h.is_null() {
        let f: fn(Cb) = unsafe { std::mem::transmute::<*mut (), fn(Cb)>(h) };
        f(c)
    }
}

thread_local! { pub static TID: Cell<u64> = const { Cell::new(0) }; }
static NEXT_TID: AtomicU64 = AtomicU64::new(1);
thread_local! { static LAST: Cell<u64> = const { Cell::new(0) }; }
/// the calling thread consults the stop condition: what it begins afterwards is another subproblem
pub fn polled() {
    let _ = LAST.try_with(|l| l.set(0));
    let _ = POLLS.try_with(|l| l.set(l.get() + 1));
    fire(Cb::Interrupt)
}
thread_local! { static POLLS: Cell<u64> = const { Cell::new(0) }; }
/// how often the calling thread has consulted the stop condition
pub fn polls() -> u64 { POLLS.try_with(|l| l.get()).unwrap_or(0) }
pub fn tid() -> u64 {
    TID.try_with(|t| {
        if t.get() == 0 { t.set(NEXT_TID.fetch_add(1, SeqCst)); }
        t.get()
    }).unwrap_or(0)
}

/// marker carried by panics the harness itself raises when a logical step budget is exhausted
pub const STEP_CAP: &str = "VERIF-STEP-CAP";

/// raised by every callback; the watchdog lowers it
pub static CALLS: AtomicBool = AtomicBool::new(false);

pub struct Mon {
    pub domain: AtomicU64,
    /// the thread that began the first subproblem
    pub first: AtomicU64,
    /// subproblems begun; asking again for the width of the subproblem at hand does not begin another
    pub width: AtomicU64,
    /// times the width heuristic was asked
    pub width_raw: AtomicU64,
    pub estimate: AtomicU64,
    pub merge: AtomicU64,
    pub relax: AtomicU64,
    pub steps: AtomicU64,
    pub cap: AtomicU64,
    pub capped: AtomicBool,
    /// with several threads, exhausting the budget is judged at once (a panic in one worker would leave the others waiting)
    pub cap_fatal: AtomicBool,
    pub record_order: AtomicBool,
    /// states expanded per layer, when recording is on
    pub layers: Mutex<Vec<u64>>,
    pub record_layers: AtomicBool,
    /// states of begun subproblems (hash), when record_order is on
    pub begun: Mutex<Vec<u64>>,
    pub errors: Mutex<Vec<String>>,
    /// what the monitoring frontier saw
    pub queue: Mutex<Queue>,
}
/// tells the threads alive apart
pub fn this_thread() -> u64 { LAST.try_with(|l| l as *const _ as u64).unwrap_or(0) }
#[derive(Default)]
pub struct Queue {
    pub error: Option<String>,
    pub pushed: u64,
    pub popped: u64,
    /// subproblems thrown away unprocessed, and the largest bound among them
    pub cleared: u64,
    pub cleared_ub: Option<isize>,
    pub left: u64,
    /// pops that had several subproblems of greatest bound to choose from
    pub ties: u64,
    /// for each pop: times the stop condition had been consulted by that thread, bound, domains enumerated so far
    pub pops: Vec<(u64, isize, u64)>,
    /// a subproblem queued with a greater bound than it is known to have: than its value plus estimate, or, when there is
    /// one thread, than the bound of the subproblem it comes from
    pub loose: Option<String>,
    pub last_ub: Option<isize>,
}
impl Default for Mon {
    fn default() -> Self {
        Mon { domain: 0.into(), first: 0.into(), width: 0.into(), width_raw: 0.into(), estimate: 0.into(), merge: 0.into(), relax: 0.into(), steps: 0.into(),
              cap: AtomicU64::new(u64::MAX), capped: false.into(), cap_fatal: false.into(), record_order: false.into(), layers: Mutex::new(vec![]), record_layers: false.into(), begun: Mutex::new(vec![]),
              errors: Mutex::new(vec![]), queue: Default::default() }
    }
}
impl Mon {
    pub fn reset(&self) {
        for a in [&self.domain, &self.first, &self.width, &self.width_raw, &self.estimate, &self.merge, &self.relax, &self.steps] { a.store(0, SeqCst) }
        self.capped.store(false, SeqCst);
        self.layers.lock().unwrap().clear();
        self.begun.lock().unwrap().clear();
        self.errors.lock().unwrap().clear();
        *self.queue.lock().unwrap() = Default::default();
    }
    #[inline]
    pub fn on(&self, c: Cb) {
        if QUIET.try_with(|q| q.get()).unwrap_or(false) { return }
        match c {
            Cb::Domain => { self.domain.fetch_add(1, Relaxed); }
            Cb::Estimate => { self.estimate.fetch_add(1, Relaxed); }
            Cb::Merge => { self.merge.fetch_add(1, Relaxed); }
            Cb::Relax => { self.relax.fetch_add(1, Relaxed); }
            _ => {}
        }
        CALLS.store(true, Relaxed);
        let s = self.steps.fetch_add(1, Relaxed);
        if s >= self.cap.load(Relaxed) && !std::thread::panicking() {
            self.capped.store(true, SeqCst);
            if self.cap_fatal.load(SeqCst) { super::run::report_violation(&format!("the resolution made {s} callbacks without ending, more than its problem can take")); super::run::die(1) }
            panic!("{}", STEP_CAP);
        }
        fire(c);
    }
    /// the width heuristic is asked for this state
    pub fn begin(&self, state: u64) {
        self.width_raw.fetch_add(1, Relaxed);
        let again = LAST.try_with(|l| l.replace(state | 1) == state | 1).unwrap_or(false);
        if !again {
            self.width.fetch_add(1, Relaxed);
            let _ = self.first.compare_exchange(0, this_thread(), SeqCst, SeqCst);
            if self.record_order.load(Relaxed) { self.begun.lock().unwrap().push(state) }
        }
        self.on(Cb::Width);
    }
    #[inline]
    pub fn on_layer(&self, l: usize) {
        if self.record_layers.load(Relaxed) {
            let mut v = self.layers.lock().unwrap();
            if v.len() <= l { v.resize(l + 1, 0) }
            v[l] += 1;
        }
    }
    pub fn error(&self, s: String) {
        let mut e = self.errors.lock().unwrap();
        if e.len() < 8 { e.push(s) }
    }
    pub fn first_error(&self) -> Option<String> { self.errors.lock().unwrap().first().cloned() }
}
