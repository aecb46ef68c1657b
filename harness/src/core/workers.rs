//! Checks on the worker threads of a resolution, and on the repeatability of runs on one thread.
use crate::common::{fam::*, mon::*, rng::*, run::*, solve::*};
use crate::solvers::{chaos_on, size};
use engineering::*;
use std::cmp::Ordering;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A tree whose root has many children and whose relaxations are too loose to discard any of them.
struct Tree { n: usize, m: usize, salt: u64, calls: AtomicU64, ids: Mutex<HashSet<u64>>, late: AtomicBool, over: AtomicBool }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct TSt { depth: usize, id: u64 }
const MERGED: u64 = u64::MAX;
impl Tree {
    fn call(&self) {
        self.calls.fetch_add(1, Relaxed);
        if self.over.load(SeqCst) { self.late.store(true, SeqCst) }
        self.ids.lock().unwrap().insert(tid());
    }
    fn cost(&self, s: &TSt, v: isize) -> isize { if s.id == MERGED { 10 } else { (mix(self.salt ^ s.id, v as u64) % 10) as isize } }
    fn next(&self, s: &TSt, v: isize) -> TSt { TSt { depth: s.depth + 1, id: if s.id == MERGED { MERGED } else if s.depth == 0 { 1 + v as u64 } else { s.id * 2 + 1000 + v as u64 } } }
    fn width_at(&self, depth: usize) -> isize { if depth == 0 { self.m as isize } else { 2 } }
    fn best(&self, s: &TSt) -> isize { if s.depth == self.n { 0 } else { (0..self.width_at(s.depth)).map(|v| self.cost(s, v) + self.best(&self.next(s, v))).max().unwrap() } }
}
impl Problem for Tree {
    type State = TSt;
    fn nb_variables(&self) -> usize { self.n }
    fn initial_state(&self) -> TSt { TSt { depth: 0, id: 0 } }
    fn initial_value(&self) -> isize { 0 }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &TSt>) -> Option<Variable> { it.next().filter(|s| s.depth < self.n).map(|s| Variable(s.depth)) }
    fn for_each_in_domain<F>(&self, var: Variable, s: &TSt, mut f: F) where F: FnMut(Decision) {
        self.call();
        fire(Cb::Domain);
        for v in 0..self.width_at(s.depth) { f(Decision { var, value: v }) }
    }
    fn transition(&self, s: &TSt, d: Decision) -> TSt { self.next(s, d.value) }
    fn transition_cost(&self, s: &TSt, d: Decision) -> isize { self.cost(s, d.value) }
}
impl Relaxation for Tree {
    type State = TSt;
    fn merge(&self, it: &mut dyn Iterator<Item = &TSt>) -> TSt { TSt { depth: it.next().unwrap().depth, id: MERGED } }
    fn relax(&self, _: &TSt, _: &TSt, _: &TSt, _: Decision, cost: isize) -> isize { cost + 1000 }
}
impl StateRanking for Tree {
    type State = TSt;
    fn compare(&self, a: &TSt, b: &TSt) -> Ordering { a.id.cmp(&b.id) }
}
/// the width heuristic, asked at the beginning of each subproblem, is where the workers wait for one another
struct Meet<'a> { t: &'a Tree, k: usize, limit: Duration, inside: Mutex<HashSet<u64>>, met: AtomicBool, gave_up: AtomicBool }
impl WidthHeuristic<TSt> for Meet<'_> {
    fn max_width(&self, s: &TSt) -> usize {
        self.t.call();
        if s.depth != 1 || self.met.load(SeqCst) || self.gave_up.load(SeqCst) { return 1 }
        let t0 = Instant::now();
        { let mut i = self.inside.lock().unwrap(); i.insert(tid()); if i.len() >= self.k { self.met.store(true, SeqCst) } }
        while !self.met.load(SeqCst) && !self.gave_up.load(SeqCst) {
            std::thread::sleep(Duration::from_micros(300 + 40 * self.k as u64));
            CALLS.store(true, Relaxed);
            if t0.elapsed() > self.limit { self.gave_up.store(true, SeqCst) }
        }
        1
    }
}

/// As many subproblems are processed at once as there are workers, by no more threads than that, and none after the end.
pub fn workers(c: &mut Case) -> Res {
    set_hook(None);
    let ncpu = num_cpus::get();
    let default = c.rng.chance(15);
    let asked = if default { ncpu } else if c.rng.chance(10) { ncpu + 1 + c.rng.below(4) } else if c.rng.chance(2) { *c.rng.pick(&[17, 33, 65, 130, 257, 300]) } else { *c.rng.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12]) };
    let k = asked.max(1); // somebody has to do the work
    let t = Tree { n: 3 + c.rng.below(2), m: k + c.rng.below(5), salt: c.rng.next(), calls: 0.into(), ids: Default::default(), late: false.into(), over: false.into() };
    let w = Meet { t: &t, k, limit: Duration::from_secs(30), inside: Default::default(), met: false.into(), gave_up: false.into() };
    let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Barrier]);
    let before = if c.rng.chance(50) { Some(c.rng.below(9)) } else { None };
    if c.rng.chance(60) { crate::solvers::chaos_on(c.rng.next()) }
    c.describe(&format!("tree of {} children / {kind:?} {cs} {asked} threads, {}", t.m, if default { "by default".to_string() } else { before.map_or("from the start".into(), |b| format!("{b} at first")) }));
    macro_rules! go { ($new:expr, $custom:expr) => {{
        let mut s = if default { $new } else { let f = $custom; match before { Some(b) => f(b).with_nb_threads(asked), None => f(asked) } };
        let st = if c.rng.chance(50) { s.maximize(); None } else { Some(s.maximize_with_interrupt(|| false)) };
        t.over.store(true, SeqCst);
        (s.best_value(), st)
    }}}
    let (v, st) = match kind {
        Kind::Simple => { let mut f = SimpleFrontier::new(&t); let f = std::cell::RefCell::new(Some(&mut f)); go!(ParallelSolver::custom(&t, &t, &t, &w, cs, f.borrow_mut().take().unwrap(), k), |n| ParallelSolver::custom(&t, &t, &t, &w, cs, f.borrow_mut().take().unwrap(), n)) }
        Kind::Barrier => go!(BarrierParallelSolver::new(&t, &t, &t, &w, cs), |n| BarrierParallelSolver::custom(&t, &t, &t, &w, cs, n)),
        _ => { let mut f = NoDupFrontier::new(&t); let f = std::cell::RefCell::new(Some(&mut f)); go!(ParallelSolver::new(&t, &t, &t, &w, cs, f.borrow_mut().take().unwrap()), |n| ParallelSolver::custom(&t, &t, &t, &w, cs, f.borrow_mut().take().unwrap(), n)) }
    };
    set_hook(None);
    let seen = t.ids.lock().unwrap().len();
    let inside = w.inside.lock().unwrap().len();
    if seen > k { return viol(format!("{k} threads were asked for but {seen} worked")) }
    if !w.met.load(SeqCst) { return viol(format!("{} subproblems were waiting and {k} threads were asked for, but only {inside} worked at the same time", t.m)) }
    if v != Some(t.best(&t.initial_state())) { return viol(format!("found {v:?} but the optimum is {}", t.best(&t.initial_state()))) }
    if let Some(s) = st { if s != ResolutionStatus::Proved { return viol(format!("a complete run reports {s:?}")) } }
    let calls = t.calls.load(SeqCst);
    if c.rng.chance(10) { std::thread::sleep(Duration::from_millis(3)) }
    if t.late.load(SeqCst) || t.calls.load(SeqCst) != calls { return viol("the model was called after the resolution had returned") }
    c.st.add("meetings", 1);
    c.st.add("workers_met", k as u64);
    c.st.max("workers_at_once", k as u64);
    let h = mix(t.salt, mix(calls, k as u64));
    let m = t.m;
    if k > 1 { c.nontrivial(h, || format!("{m} subproblems waiting, {kind:?} {cs}, {k} threads: all at work at once")) }
    Ok(())
}

/// processor time used by all threads of this process, in nanoseconds
fn cpu() -> u64 {
    extern "C" { fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32; }
    let mut t = [0i64; 2];
    if unsafe { clock_gettime(2, &mut t) } != 0 { return 0 }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
/// the width heuristic, asked at the beginning of each subproblem, is where those that have work sleep for a while
struct Nap<'a> { t: &'a Tree, busy: usize, limit: Duration, inside: AtomicU64, over: AtomicBool, polls: &'a AtomicU64, seen: Mutex<Vec<(usize, u64, u64, u64)>> }
impl Nap<'_> {
    /// the least that was used in one of three naps: processor time in nanoseconds, polls, wall clock
    fn nap(&self, depth: usize) {
        for _ in 0..3 {
            let (a, p, t) = (cpu(), self.polls.load(SeqCst), Instant::now());
            std::thread::sleep(Duration::from_millis(15));
            CALLS.store(true, Relaxed);
            self.seen.lock().unwrap().push((depth, cpu() - a, self.polls.load(SeqCst) - p, t.elapsed().as_nanos() as u64));
        }
    }
}
impl WidthHeuristic<TSt> for Nap<'_> {
    fn max_width(&self, s: &TSt) -> usize {
        self.t.call();
        if self.over.load(SeqCst) { return 1 }
        if s.depth == 0 { self.nap(0) } else if s.depth == 1 {
            // once all that can be processed is being processed, one of those naps for the others
            if self.inside.fetch_add(1, SeqCst) + 1 == self.busy as u64 { self.nap(1); self.over.store(true, SeqCst) }
            let t0 = Instant::now();
            while !self.over.load(SeqCst) && t0.elapsed() < self.limit { std::thread::sleep(Duration::from_millis(1)); CALLS.store(true, Relaxed); }
        }
        1
    }
}
/// Threads that find nothing to process wait for work without using the processor.
pub fn idle(c: &mut Case) -> Res {
    set_hook(None);
    let k = *c.rng.pick(&[2, 2, 3, 4, 5, 6, 8, 12]);
    let m = 1 + c.rng.below(k - 1).min(3);
    let t = Tree { n: 3 + c.rng.below(2), m, salt: c.rng.next(), calls: 0.into(), ids: Default::default(), late: false.into(), over: false.into() };
    let polls: &'static AtomicU64 = Box::leak(Box::new(AtomicU64::new(0)));
    let w = Nap { t: &t, busy: m, limit: Duration::from_secs(10), inside: 0.into(), over: false.into(), polls, seen: Default::default() };
    let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Barrier]);
    let before = if c.rng.chance(50) { Some(1 + c.rng.below(9)) } else { None };
    let stop = c.rng.chance(70);
    let what = format!("tree of {m} children / {kind:?} {cs} {k} threads, {}", before.map_or("from the start".into(), |b| format!("{b} at first")));
    c.describe(&what);
    let n = before.unwrap_or(k);
    macro_rules! go { ($s:expr) => {{
        let mut s = $s;
        if before.is_some() { s = s.with_nb_threads(k) }
        if stop { s.maximize_with_interrupt(move || { polls.fetch_add(1, SeqCst); false }); } else { s.maximize(); }
        s.best_value()
    }}}
    let v = match kind {
        Kind::Simple => { let mut f = SimpleFrontier::new(&t); go!(ParallelSolver::custom(&t, &t, &t, &w, cs, &mut f, n)) }
        Kind::Barrier => go!(BarrierParallelSolver::custom(&t, &t, &t, &w, cs, n)),
        _ => { let mut f = NoDupFrontier::new(&t); go!(ParallelSolver::custom(&t, &t, &t, &w, cs, &mut f, n)) }
    };
    if v != Some(t.best(&t.initial_state())) { return skip("a wrong answer, judged by the other checks") }
    let seen = w.seen.lock().unwrap().clone();
    for depth in [0, 1] {
        let s: Vec<_> = seen.iter().filter(|x| x.0 == depth).collect();
        if s.is_empty() { continue }
        c.st.add(if depth == 0 { "naps_before_there_is_work" } else { "naps_while_all_work_is_taken" }, s.len() as u64);
        c.st.add("polls_during_naps", s.iter().map(|x| x.2).sum());
        let used = s.iter().map(|x| x.1 * 100 / x.3.max(1)).min().unwrap();
        if used >= 40 { return viol(format!("while every thread with a subproblem to process slept, the {} others used the processor for {used} % of the time at least, and consulted the stop condition {} times", k - if depth == 0 { 1 } else { m }, s.iter().map(|x| x.2).sum::<u64>())) }
        let h = mix(t.salt, mix(k as u64, depth as u64));
        c.nontrivial(h, || format!("{what}: at most {used} % of the processor used by the idle ones"));
    }
    Ok(())
}

/// On one thread a resolution repeats itself exactly, up to the poll it is stopped at.
pub fn repeat(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        cfg.plain = false;
        p.mon().record_order.store(true, SeqCst);
        p.mon().cap.store(100_000, SeqCst);
        let run = |at: u64| {
            p.mon().reset();
            let n = Arc::new(AtomicU64::new(0));
            let n2 = n.clone();
            let o = run_solver(p, &cfg, Some(Arc::new(move || n2.fetch_add(1, SeqCst) >= at)));
            let q = p.mon().queue.lock().unwrap().pops.clone();
            let m = p.mon();
            let work = [&m.domain, &m.width, &m.estimate, &m.merge, &m.relax, &m.steps].map(|x| x.load(SeqCst));
            let begun = m.begun.lock().unwrap().clone();
            (o, begun, work, q, n.load(SeqCst))
        };
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let a = run(u64::MAX);
        let polls = a.4;
        for i in 0..3 {
            let at = if i == 0 { u64::MAX } else { c.rng.next() % (polls + 1) };
            c.describe(&format!("{} / {:?} stopped at poll {at}, twice", p.describe(), cfg));
            let x = if i == 0 { (a.0.clone(), a.1.clone(), a.2, a.3.clone(), a.4) } else { run(at) };
            let y = run(at);
            let key = |o: &Outcome| format!("{o:?}");
            if key(&x.0) != key(&y.0) { return viol(format!("two runs on one thread, stopped at poll {at}, end differently: {:?} and {:?}", x.0, y.0)) }
            if x.1 != y.1 { return viol(format!("two runs on one thread, stopped at poll {at}, process different sequences of {} and {} subproblems", x.1.len(), y.1.len())) }
            if x.2 != y.2 { return viol(format!("two runs on one thread, stopped at poll {at}, call the model {:?} and {:?} times", x.2, y.2)) }
            if x.3 != y.3 || x.4 != y.4 { return viol(format!("two runs on one thread, stopped at poll {at}, take different subproblems from the queue")) }
            // what a run does before it is stopped is what the complete run does
            let k = y.1.len();
            if y.1[..] != a.1[..k.min(a.1.len())] { return viol(format!("a run stopped at poll {at} does not begin as the complete run does")) }
            c.st.add("pairs_compared", 1);
            c.st.add("subproblems_compared", y.1.len() as u64);
        }
        if a.0.explored > 1 {
            let d = p.describe();
            let h = mix(state_hash(&d), mix(a.0.explored as u64, a.0.explored_dd as u64));
            c.nontrivial(h, || format!("{d} / {cfg:?}: {} subproblems, repeated exactly", a.0.explored));
        }
        Ok(())
    }
    let sz = size(c);
    if c.rng.chance(75) { let p = Graph::gen(&mut c.rng, sz); go(c, &p) } else { let p = Knap::gen(&mut c.rng, sz); go(c, &p) }
}

/// A callback of the user panics at a random moment: the panic reaches whoever asked for the resolution, on any
/// number of threads, and nobody is left waiting.
pub fn panics(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        p.mon().cap.store(2_000_000, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let o = run_solver(p, &cfg, None);
        if p.mon().steps.load(SeqCst) > if SCHED { 12_000 } else { 40_000 } { return skip("too much work") }
        if o.explored < 2 && !c.rng.chance(10) { return skip("solved at once") }
        let steps = p.mon().steps.load(SeqCst);
        for _ in 0..if SCHED { 6 } else { 4 } {
            cfg.threads = if SCHED { *c.rng.pick(&[2, 2, 3, 4]) } else { *c.rng.pick(&[1, 2, 2, 3, 4, 8, 16]) };
            cfg.plain = c.rng.chance(50);
            cfg.via_with = c.rng.chance(30);
            // all kinds of callbacks, or one: the rare ones are reached too
            let one = *c.rng.pick(&[Cb::NextVar, Cb::Domain, Cb::Transition, Cb::Cost, Cb::Estimate, Cb::Merge, Cb::Relax, Cb::Compare, Cb::Width, Cb::Hash, Cb::Interrupt]);
            let (kinds, at) = if c.rng.chance(40) { (u64::MAX, c.rng.next() % (steps + steps / 2 + 1)) } else { (1 << one as u64, c.rng.next() % *c.rng.pick(&[3, 20, 200])) };
            c.describe(&format!("{} / {:?} panics at callback {at} of {}", p.describe(), cfg, if kinds == u64::MAX { "any kind".to_string() } else { format!("{one:?}") }));
            p.mon().reset();
            if !SCHED { if c.rng.chance(60) { chaos_on(c.rng.next()) } else { set_hook(None) } }
            let r = run_boom(p, &cfg, kinds, at);
            set_hook(None);
            let fired = BOOMED.swap(false, SeqCst);
            match (fired, r) {
                (true, Ok(o)) => return viol(format!("a callback panicked, but the resolution returned as if nothing had happened: {:?}, value {:?}", o.status, o.value)),
                (false, Err(_)) => return viol("the resolution panicked although no callback did"),
                (true, Err(_)) => {
                    c.st.add("panics", 1);
                    if cfg.threads > 1 { c.st.add("panics_among_several_threads", 1) }
                    let h = mix(mix(state_hash(&p.describe()), at), kinds ^ cfg.threads as u64);
                    c.nontrivial(h, || format!("{} / {cfg:?} panics at callback {at}", p.describe()));
                }
                (false, Ok(o)) => { c.st.add("not_reached", 1); check_proved(p, &o).map_err(Bad::Violation)? }
            }
        }
        Ok(())
    }
    let sz = if c.rng.chance(30) { Size::Tiny } else { Size::Small };
    if c.rng.chance(75) { let p = Graph::gen(&mut c.rng, sz); go(c, &p) } else { let p = Knap::gen(&mut c.rng, sz); go(c, &p) }
}
fn run_boom<P: Fam>(p: &P, cfg: &Cfg, kinds: u64, at: u64) -> Result<Outcome, ()>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    arm(kinds, at);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_solver(p, cfg, None))).map_err(|_| ());
    disarm();
    r
}
