//! Whole-solver checks.
use crate::common::{fam::*, mon::*, rng::*, run::*, solve::*};
use engineering::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Arc;

pub fn size(c: &mut Case) -> Size {
    if TINY.load(Relaxed) { return *c.rng.pick(&[Size::Tiny, Size::Small]) }
    if SCHED { return *c.rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Small, Size::Medium, Size::Medium]) }
    if c.rng.below(400) == 0 { return Size::Long }
    match c.rng.below(100) { 0..=14 => Size::Tiny, 15..=54 => Size::Small, 55..=89 => Size::Medium, _ => Size::Large }
}
/// for single diagrams, of which a few are larger than a resolution can afford
pub fn size_dd(c: &mut Case) -> Size { if !TINY.load(Relaxed) && c.rng.below(500) == 0 { Size::Huge } else { size(c) } }
macro_rules! with_problem {
    ($c:expr, $p:ident => $body:expr) => {{
        let sz = size($c);
        if $c.rng.chance(75) {
            #[allow(unused_mut)]
            let mut $p = Graph::gen(&mut $c.rng, sz);
            $body
        } else {
            #[allow(unused_mut)]
            let mut $p = Knap::gen(&mut $c.rng, sz);
            $body
        }
    }};
}

/// a chance of running several threads: always when they are scheduled
fn several(c: &mut Case, pct: usize) -> bool { c.rng.chance(if SCHED { 100 } else { pct }) }
fn threads(c: &mut Case, xs: &[usize]) -> usize { if SCHED { *c.rng.pick(&[2, 2, 2, 3, 3, 4, 6]) } else if c.rng.below(150) == 0 { *c.rng.pick(&[0, 17, 33, 65, 130]) } else { *c.rng.pick(xs) } }
/// problems solved at once have little to interleave: few of them are worth running on several threads
fn dull(c: &mut Case, o: &Outcome) -> bool { SCHED && o.explored < 3 && !c.rng.chance(15) }
/// callbacks a run on one thread may take for the problem to be run on several
fn affordable(work: u64) -> bool { work < if SCHED { 12_000 } else { 60_000 } }

fn hash_outcome(p: &str, o: &Outcome) -> u64 {
    let mut h = 1u64;
    for b in p.bytes() { h = mix(h, b as u64) }
    for x in [o.value.unwrap_or(-77) as u64, o.explored as u64, o.explored_dd as u64, o.lb as u64, o.ub as u64] { h = mix(h, x) }
    h
}
fn note<P: Oracle>(c: &mut Case, p: &P, cfg: &Cfg, o: &Outcome) {
    c.st.add("subproblems", o.explored as u64);
    c.st.add("merges", p.mon().merge.load(Relaxed));
    c.st.add("callbacks", p.mon().steps.load(Relaxed));
    c.st.max("subproblems_one_run", o.explored as u64);
    c.st.add(&format!("runs_{:?}_{}", cfg.kind, cfg.cutset), 1);
    if o.value.is_none() { c.st.add("infeasible", 1) }
    if o.explored > 1 && p.mon().merge.load(Relaxed) > 0 {
        let d = p.describe();
        let h = hash_outcome(&d, o);
        c.nontrivial(h, || format!("{d} / {cfg:?} -> value {:?} in {} subproblems, {} diagram nodes", o.value, o.explored, o.explored_dd));
    }
}
/// step budget: enough that generated instances finish, small enough to keep the rate of cases up
const CAP: u64 = 3_000_000;

pub(crate) fn chaos(c: Cb) {
    use std::cell::Cell;
    thread_local! { static S: Cell<u64> = const { Cell::new(0) }; }
    let _ = S.try_with(|s| {
        if s.get() == 0 { s.set(mix(tid(), CHAOS.load(Relaxed))) }
        let x = mix(s.get(), c as u64);
        s.set(x);
        let long = CHAOS.load(Relaxed) % 4 == 0;
        match x % 97 {
            0 if long => if x >> 20 & 7 == 0 { std::thread::sleep(std::time::Duration::from_micros(x >> 32 & 2047)) },
            0 => std::thread::sleep(std::time::Duration::from_micros(x >> 32 & 127)),
            1..=5 => std::thread::yield_now(),
            6 => for _ in 0..(x >> 40 & 1023) { std::hint::spin_loop() },
            _ => {}
        }
    });
}
static CHAOS: AtomicU64 = AtomicU64::new(1);
pub(crate) fn chaos_on(seed: u64) { CHAOS.store(seed, SeqCst); set_hook(Some(chaos)) }

fn solve_checked<P: Fam>(c: &mut Case, p: &P, kind: Kind) -> Res
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    set_hook(None);
    let cfg1 = Cfg::gen(&mut c.rng, kind, 1);
    c.describe(&format!("{} / {:?}", p.describe(), cfg1));
    p.mon().cap.store(CAP, SeqCst);
    let o = run_solver(p, &cfg1, None);
    check_proved(p, &o).map_err(Bad::Violation)?;
    note(c, p, &cfg1, &o);
    let work = p.mon().steps.load(SeqCst);
    p.mon().reset();
    // same problem, several threads with injected delays
    if dull(c, &o) { return Ok(()) }
    for _ in 0..if SCHED { 6 } else { 1 } {
        if !(affordable(work) && several(c, 40)) { break }
        let mut cfg = cfg1.clone();
        cfg.threads = threads(c, &[2, 2, 3, 4, 8, 16]);
        cfg.plain = c.rng.chance(30);
        cfg.via_with = c.rng.chance(30);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        p.mon().cap.store(u64::MAX, SeqCst);
        if c.rng.chance(70) { chaos_on(c.rng.next()) }
        let o2 = run_solver(p, &cfg, None);
        set_hook(None);
        check_proved(p, &o2).map_err(Bad::Violation)?;
        c.st.add("multi_thread_runs", 1);
        p.mon().reset();
    }
    Ok(())
}
pub fn classic(c: &mut Case) -> Res {
    let kind = *c.rng.pick(&[Kind::Simple, Kind::Simple, Kind::NoDup, Kind::NoDup, Kind::Own]);
    with_problem!(c, p => solve_checked(c, &p, kind))
}
pub fn barrier(c: &mut Case) -> Res { with_problem!(c, p => solve_checked(c, &p, Kind::Barrier)) }

/// Reported solutions are genuine, in complete and interrupted runs alike, at every moment a run can be stopped.
pub fn genuine(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        cfg.plain = false;
        p.mon().cap.store(CAP, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let o = run_solver(p, &cfg, None);
        check_genuine(p, &o).map_err(Bad::Violation)?;
        let polls = o.explored as u64 + 2;
        note(c, p, &cfg, &o);
        if dull(c, &o) { return Ok(()) }
        let work = p.mon().steps.load(SeqCst);
        for _ in 0..if SCHED { 8 } else { 4 } {
            let mut at = c.rng.next() % polls;
            let mut cfg = cfg.clone();
            p.mon().cap.store(CAP, SeqCst);
            if affordable(work) && several(c, 60) {
                cfg.threads = threads(c, &[2, 3, 4, 5, 8]);
                p.mon().cap.store(u64::MAX, SeqCst);
                chaos_on(c.rng.next());
                if c.rng.chance(60) { at = u64::MAX }
                c.st.add("multi_thread_runs", 1);
            }
            c.describe(&format!("{} / {:?} / stop at poll {at}", p.describe(), cfg));
            p.mon().reset();
            let n = Arc::new(AtomicU64::new(0));
            let n2 = n.clone();
            let o = run_solver(p, &cfg, Some(Arc::new(move || n2.fetch_add(1, SeqCst) >= at)));
            set_hook(None);
            check_genuine(p, &o).map_err(Bad::Violation)?;
            if at == u64::MAX && o.value != p.opt_total() { return viol(format!("a complete run reports {:?} but the optimum is {:?}", o.value, p.opt_total())) }
            if let (Some(v), Some(opt)) = (o.value, p.opt_total()) { if v > opt { return viol(format!("reported value {v} exceeds the optimum {opt}")) } }
            c.st.add("interrupted_runs", (o.status == Some(ResolutionStatus::Interrupted)) as u64);
            if o.value.is_some() && o.status == Some(ResolutionStatus::Interrupted) { c.st.add("interrupted_with_solution", 1) }
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// The answer does not depend on threads, solver, frontier, cutset or width (native threads, injected delays).
pub fn agree(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        let mut reference: Option<Option<isize>> = None;
        for round in 0..4 {
            let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Own, Kind::Barrier, Kind::Barrier]);
            let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
            set_hook(None);
            p.mon().reset();
            p.mon().cap.store(CAP / 10, SeqCst);
            c.describe(&format!("{} / {:?}", p.describe(), cfg));
            let o = run_solver(p, &cfg, None);
            check_genuine(p, &o).map_err(Bad::Violation)?;
            let r = *reference.get_or_insert(o.value);
            if r != o.value { return viol(format!("{:?} found {:?} where an earlier configuration found {:?}", cfg, o.value, r)) }
            if round == 0 { note(c, p, &cfg, &o) }
            if dull(c, &o) { continue }
            if !affordable(2 * p.mon().steps.load(SeqCst)) { continue }
            p.mon().cap.store(u64::MAX, SeqCst);
            for _ in 0..2 {
                cfg.threads = threads(c, &[2, 3, 4, 5, 8, 12, 24]);
                p.mon().reset();
                chaos_on(c.rng.next());
                c.describe(&format!("{} / {:?}", p.describe(), cfg));
                let o = run_solver(p, &cfg, None);
                set_hook(None);
                check_genuine(p, &o).map_err(Bad::Violation)?;
                if r != o.value { return viol(format!("with {} threads found {:?} where 1 thread found {:?}", cfg.threads, o.value, r)) }
                c.st.add("multi_thread_runs", 1);
            }
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// Every run ends. Work is bounded by the number of partial assignments, so a tiny instance that exceeds a
/// generous multiple of that many callbacks is not making progress.
pub fn terminate(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        // number of partial assignments weighted by the ways they can be cut into subproblems
        let mut total = 0f64;
        let mut frontier: Vec<(<P as Problem>::State, u32)> = vec![(p.initial_state(), 0)];
        let mut nodes = 0u64;
        // problems of hundreds of variables have too many partial assignments to count
        let long = p.nb_variables() > 200;
        while let Some((s, d)) = frontier.pop() {
            nodes += 1;
            if long { break }
            if nodes > 3000 { return skip("tree too large") }
            total += 2f64.powi(d as i32);
            for (_, t, _) in p.succ(&s) { frontier.push((t, d + 1)) }
        }
        // two diagrams per subproblem, each with at most all partial assignments * a few callbacks
        let bound = if long { 3_000_000 } else { (total * nodes as f64 * 40.0 + 10_000.0).min(4e8) as u64 };
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        let stop_at = if c.rng.chance(40) { Some(c.rng.next() % 6) } else { None };
        let stop = || stop_at.map(|at| { let n = AtomicU64::new(0); let s: Stop = Arc::new(move || n.fetch_add(1, SeqCst) >= at); s });
        set_hook(None);
        p.mon().cap.store(bound, SeqCst);
        c.describe(&format!("{} / {:?} stop {:?} (budget {bound} callbacks for {nodes} partial assignments)", p.describe(), cfg, stop_at));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_solver(p, &cfg, stop())));
        if p.mon().capped.load(SeqCst) {
            if long { return skip("step budget exhausted") }
            return viol(format!("the resolution made {bound} callbacks on a problem of {nodes} partial assignments without ending"));
        }
        let o = match r { Ok(o) => o, Err(_) => return viol("the resolution panicked") };
        note(c, p, &cfg, &o);
        let work = p.mon().steps.load(SeqCst);
        if SCHED && !affordable(work) || dull(c, &o) { return Ok(()) }
        if long { c.st.add("long_problems", 1); p.mon().cap.store(u64::MAX, SeqCst); if work > 200_000 { return Ok(()) } } else { p.mon().cap_fatal.store(true, SeqCst) }
        for _ in 0..if SCHED { 8 } else { 2 } {
            cfg.threads = if SCHED && c.rng.chance(10) { 16 } else { threads(c, &[2, 3, 4, 8, 16, 40]) };
            cfg.via_with = c.rng.chance(50);
            c.describe(&format!("{} / {:?} stop {:?}", p.describe(), cfg, stop_at));
            chaos_on(c.rng.next());
            p.mon().reset();
            let _ = run_solver(p, &cfg, stop());
            set_hook(None);
            c.st.add("multi_thread_runs", 1);
        }
        Ok(())
    }
    let sz = if !SCHED && c.rng.below(150) == 0 { Size::Long } else if c.rng.chance(40) { Size::Tiny } else { Size::Small };
    if c.rng.chance(75) { let p = Graph::gen(&mut c.rng, sz); go(c, &p) } else { let p = Knap::gen(&mut c.rng, sz); go(c, &p) }
}

/// Bounds of runs stopped at every possible poll.
pub fn interrupt(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        cfg.plain = false;
        p.mon().cap.store(CAP / 6, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let n = Arc::new(AtomicU64::new(0));
        let n2 = n.clone();
        let o = run_solver(p, &cfg, Some(Arc::new(move || { n2.fetch_add(1, SeqCst); false })));
        check_bounds(p, &o).map_err(Bad::Violation)?;
        let (value, sol, lb, ub) = FRESH.with(|f| f.get());
        if value.is_some() || sol || lb > ub || p.opt_total().map_or(false, |x| lb > x || ub < x) {
            return viol(format!("before it is run, the solver says it has the value {value:?} (a solution: {sol}) and bounds {lb}..{ub}; the optimum is {:?}", p.opt_total()))
        }
        note(c, p, &cfg, &o);
        let work = p.mon().steps.load(SeqCst);
        let polls = n.load(SeqCst);
        if dull(c, &o) { return Ok(()) }
        let mut points: Vec<u64> = (0..polls.min(10)).collect();
        for _ in 0..4 { points.push(c.rng.next() % (polls + 1)) }
        points.sort(); points.dedup();
        for at in points {
            let transient = c.rng.chance(25);
            let mut cfg = cfg.clone();
            let multi = affordable(2 * work) && several(c, 50);
            if multi { cfg.threads = threads(c, &[2, 3, 4, 8]); p.mon().cap.store(u64::MAX, SeqCst); if c.rng.chance(80) { chaos_on(c.rng.next()) } }
            p.mon().reset();
            c.describe(&format!("{} / {:?} / stop at poll {at} transient={transient}", p.describe(), cfg));
            let n = AtomicU64::new(0);
            let o = run_solver(p, &cfg, Some(Arc::new(move || { let k = n.fetch_add(1, SeqCst); if transient { k == at } else { k >= at } })));
            set_hook(None);
            check_bounds(p, &o).map_err(Bad::Violation)?;
            if o.status == Some(ResolutionStatus::Interrupted) {
                c.st.add("interrupted_runs", 1);
                if multi { c.st.add("interrupted_multi_thread", 1) }
                if o.value.is_some() { c.st.add("interrupted_with_solution", 1) }
                if o.value.is_some() && o.value != p.opt_total() { c.st.add("interrupted_before_optimum", 1) }
            }
            p.mon().cap.store(CAP / 6, SeqCst);
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// A stop request is honoured: nothing new is begun afterwards, the run says it was interrupted.
pub fn stop(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        cfg.plain = false;
        p.mon().cap.store(CAP / 6, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let o = run_solver(p, &cfg, None);
        note(c, p, &cfg, &o);
        let total = o.explored as u64;
        let work = p.mon().steps.load(SeqCst);
        if dull(c, &o) { return Ok(()) }
        let mut points: Vec<u64> = (1..total.min(6) + 1).collect();
        for _ in 0..3 { points.push(1 + c.rng.next() % total.max(1)) }
        points.sort(); points.dedup();
        for at in points {
            // the stop flag goes up while the at-th subproblem is being processed
            let mut cfg = cfg.clone();
            if affordable(2 * work) && several(c, 50) { cfg.threads = threads(c, &[2, 3, 4, 8]); p.mon().cap.store(u64::MAX, SeqCst) }
            p.mon().reset();
            c.describe(&format!("{} / {:?} / stop requested while subproblem {at} is processed", p.describe(), cfg));
            let pm: &'static AtomicU64 = unsafe { std::mem::transmute::<&AtomicU64, &'static AtomicU64>(&p.mon().width) };
            let asked = Arc::new(AtomicBool::new(false));
            let a2 = asked.clone();
            let transient = c.rng.chance(25);
            if transient { c.st.add("stop_told_only_once", 1) }
            let o = run_solver(p, &cfg, Some(Arc::new(move || pm.load(SeqCst) >= at && (!a2.swap(true, SeqCst) || !transient))));
            let begun = p.mon().width.load(SeqCst);
            let limit = at + (cfg.threads.max(1) as u64 - 1);
            if begun > limit { return viol(format!("stop requested while subproblem {at} was processed by {} thread(s), yet {begun} subproblems were begun", cfg.threads)) }
            if asked.load(SeqCst) && o.status != Some(ResolutionStatus::Interrupted) { return viol(format!("a stop request was answered but the run reports {:?}", o.status)) }
            if !asked.load(SeqCst) && o.status != Some(ResolutionStatus::Proved) { return viol(format!("the run reports {:?} although no stop was requested", o.status)) }
            if asked.load(SeqCst) { c.st.add("stop_requests_honoured", 1); if cfg.threads > 1 { c.st.add("with_several_threads", 1) } }
            if total > at && cfg.threads == 1 && !asked.load(SeqCst) { return viol(format!("the stop condition held from subproblem {at} on, of {total}, but it was never consulted")) }
            p.mon().cap.store(CAP / 6, SeqCst);
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// With one thread, the barrier solver begins a subproblem on a given state at most once per strictly better value.
pub fn noreexp(c: &mut Case) -> Res {
    set_hook(None);
    let sz = size(c);
    let p = Graph::gen(&mut c.rng, sz);
    let mut cfg = Cfg::gen(&mut c.rng, Kind::Barrier, 1);
    cfg.plain = false;
    c.describe(&format!("{} / {:?}", p.describe(), cfg));
    p.mon.record_order.store(true, SeqCst);
    p.mon.cap.store(CAP, SeqCst);
    let o = run_solver(&p, &cfg, None);
    let begun = p.mon.begun.lock().unwrap().clone();
    let mut allowed: std::collections::HashMap<u64, (u64, String)> = Default::default();
    let vals = p.values_to();
    for (l, vs) in vals.iter().enumerate() { for (s, v) in vs.iter().enumerate() {
        let st = GSt { layer: l as u16, set: 1u128 << s };
        allowed.insert(state_hash(&st), (if v.len() >= 64 { u64::MAX } else { v.len() as u64 }, format!("{st:?}")));
    } }
    let mut n: std::collections::HashMap<u64, u64> = Default::default();
    for h in &begun { *n.entry(*h).or_insert(0) += 1 }
    for (h, k) in &n {
        match allowed.get(h) {
            None => return viol("a subproblem was begun on a state that is not a genuine state of the problem"),
            Some((a, s)) => if k > a { return viol(format!("{k} subproblems were begun on {s}, which has only {a} distinct path values")) },
        }
    }
    let rep = n.values().filter(|x| **x > 1).count();
    c.st.add("states_begun", n.len() as u64);
    c.st.add("states_begun_again_with_better_value", rep as u64);
    c.st.add(if p.potential() { "single_value_problems" } else { "multi_value_problems" }, 1);
    note(c, &p, &cfg, &o);
    Ok(())
}

/// Work counters tell the truth.
pub fn counters(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        p.mon().cap.store(CAP / 6, SeqCst);
        cfg.plain = false;
        for round in 0..if SCHED { 8 } else { 3 } {
            p.mon().reset();
            if round > 0 {
                cfg.threads = threads(c, &[2, 3, 4, 8]);
                p.mon().cap.store(u64::MAX, SeqCst);
                if c.rng.chance(70) { chaos_on(c.rng.next()) }
            }
            let at = if round > 1 && round % 2 == 0 { 1 + c.rng.next() % 5 } else { u64::MAX };
            c.describe(&format!("{} / {:?} stop at {at}", p.describe(), cfg));
            let n = AtomicU64::new(0);
            let st: Option<Stop> = if at == u64::MAX { None } else { Some(Arc::new(move || n.fetch_add(1, SeqCst) >= at)) };
            let o = run_solver(p, &cfg, st);
            set_hook(None);
            let (dom, wid, steps) = (p.mon().domain.load(SeqCst), p.mon().width.load(SeqCst), p.mon().steps.load(SeqCst));
            if o.explored_dd as u64 != dom { return viol(format!("{} diagram nodes reported expanded, {} were", o.explored_dd, dom)) }
            let raw = p.mon().width_raw.load(SeqCst);
            if cfg.threads == 1 && (o.explored as u64) > raw { return viol(format!("{} subproblems reported explored, {} were", o.explored, wid)) }
            if (o.explored as u64) < wid { return viol(format!("{} subproblems reported explored but {} were begun", o.explored, wid)) }
            c.st.add("diagram_nodes_counted", dom);
            c.st.add(if cfg.threads > 1 { "multi_thread_runs" } else { "single_thread_runs" }, 1);
            if round == 0 { note(c, p, &cfg, &o) }
            if !affordable(2 * steps) || round == 0 && dull(c, &o) { break }
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// The library calls the user's callbacks only with arguments their contract allows.
pub fn contract(c: &mut Case) -> Res {
    set_hook(None);
    let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Own]);
    let cfg = Cfg::gen(&mut c.rng, kind, 1);
    let sz = size(c);
    if c.rng.chance(80) {
        let mut p = Graph::gen(&mut c.rng, sz);
        p.check_contract = true;
        p.mon.cap.store(CAP / 3, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let o = run_solver(&p, &cfg, None);
        if let Some(e) = p.mon.first_error() { return viol(e) }
        c.st.add("relax_calls_checked", p.mon.relax.load(SeqCst));
        c.st.add("merge_calls_checked", p.mon.merge.load(SeqCst));
        note(c, &p, &cfg, &o);
    } else {
        let p = Knap::gen(&mut c.rng, sz);
        p.mon.cap.store(CAP / 3, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let o = run_solver(&p, &cfg, None);
        if let Some(e) = p.mon.first_error() { return viol(e) }
        note(c, &p, &cfg, &o);
    }
    Ok(())
}

/// Stopping a run later never gives looser bounds (one thread; runs that repeat exactly).
pub fn anytime(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        cfg.plain = false;
        p.mon().cap.store(CAP / 10, SeqCst);
        let run = |at: u64| {
            p.mon().reset();
            let n = Arc::new(AtomicU64::new(0));
            let n2 = n.clone();
            let o = run_solver(p, &cfg, Some(Arc::new(move || n2.fetch_add(1, SeqCst) >= at)));
            let polls = n.load(SeqCst);
            (o, polls)
        };
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let (o, polls) = run(u64::MAX);
        note(c, p, &cfg, &o);
        let steps = p.mon().steps.load(SeqCst);
        let (o2, _) = run(u64::MAX);
        if (o.explored, o.explored_dd, &o.sol) != (o2.explored, o2.explored_dd, &o2.sol) || steps != p.mon().steps.load(SeqCst) { return skip("runs on one thread do not repeat exactly") }
        let mut points: Vec<u64> = if polls <= 24 { (0..=polls).collect() } else { (0..8).chain((0..16).map(|_| c.rng.next() % (polls + 1))).collect() };
        if polls > 24 { for i in 8..points.len() { if i % 2 == 0 { points[i] = points[i - 1] + 1 } } }
        points.sort();
        points.dedup();
        // what the relaxation of the whole problem tells, once it was processed
        let told = {
            let root = SubProblem { state: Arc::new(p.initial_state()), value: p.initial_value(), path: vec![], ub: isize::MAX };
            let max_width = WidthHeuristic::<<P as Problem>::State>::max_width(&Wd { p, mode: cfg.width }, &root.state);
            let t = crate::dds::table(p.nb_variables());
            let mut dd = if kind == Kind::Barrier { crate::dds::Dd::B(Barrier::new(t.clone(), cfg.cutset), t) } else { crate::dds::Dd::A(All::new(cfg.cutset)) };
            let mut i = CompilationInput { comp_type: CompilationType::Restricted, max_width, problem: p, relaxation: p, ranking: p, residual: root, best_lb: isize::MIN };
            dd.compile(&i);
            i.best_lb = dd.best_value().unwrap_or(isize::MIN);
            if dd.is_exact() { None } else { i.comp_type = CompilationType::Relaxed; dd.compile(&i); Some(dd.best_value().unwrap_or(isize::MIN)) }
        };
        let mut last: Option<(u64, isize, isize)> = None;
        for at in points {
            c.describe(&format!("{} / {:?} / stop at poll {at}", p.describe(), cfg));
            let (o, _) = run(at);
            if let Some(t) = told { if o.explored > 0 {
                if o.ub > t.max(o.lb) { return viol(format!("stopped at poll {at}, after {} subproblems, the run gives the upper bound {} although the relaxation of the whole problem tells {t}, and lower bound {}", o.explored, o.ub, o.lb)) }
                c.st.add("bounds_told_by_the_relaxation", 1);
            } }
            if let Some((k, lb, ub)) = last {
                if o.lb < lb || o.ub > ub { return viol(format!("stopped at poll {k} the run gives bounds [{lb}, {ub}], stopped later at poll {at} it gives looser ones, [{}, {}]", o.lb, o.ub)) }
                if o.lb > lb || o.ub < ub { c.st.add("bounds_tightened", 1) }
                c.st.add("pairs_compared", 1);
            }
            last = Some((at, o.lb, o.ub));
        }
        // with several threads the moments cannot be compared, but what the relaxation told still holds once the
        // thread that processed the whole problem asks for something else to do
        if let (Some(t), true) = (told, affordable(steps)) {
            if dull(c, &o) { return Ok(()) }
            p.mon().cap.store(u64::MAX, SeqCst);
            for _ in 0..3 {
                cfg.threads = threads(c, &[2, 3, 4, 8]);
                let later = if c.rng.chance(50) { 0 } else { c.rng.next() % (polls + 1) };
                c.describe(&format!("{} / {:?} / stop {later} polls after the whole problem was processed", p.describe(), cfg));
                p.mon().reset();
                if c.rng.chance(70) { chaos_on(c.rng.next()) }
                // SAFETY: the resolution is over before the monitor is dropped
                let first: &'static AtomicU64 = unsafe { std::mem::transmute::<&AtomicU64, &'static AtomicU64>(&p.mon().first) };
                let armed = AtomicU64::new(0);
                let o = run_solver(p, &cfg, Some(Arc::new(move || {
                    if armed.load(SeqCst) == 0 && first.load(SeqCst) != this_thread() { return false }
                    armed.fetch_add(1, SeqCst) >= later
                })));
                set_hook(None);
                if o.ub > t.max(o.lb) { return viol(format!("with {} threads, stopped after the whole problem was processed, the run gives the upper bound {} although the relaxation of the whole problem tells {t}, and lower bound {}", cfg.threads, o.ub, o.lb)) }
                c.st.add("bounds_told_with_threads", 1);
                if o.lb < o.ub { c.st.add("bounds_told_with_threads_and_a_gap", 1) }
            }
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// What a whole resolution queues is genuine and what it throws away could not have helped, whatever the thread.
pub fn queue(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let mut cfg = Cfg::gen(&mut c.rng, Kind::Own, 1);
        p.mon().cap.store(CAP / 3, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        for k in 0..3 {
            if k > 0 {
                if !affordable(p.mon().steps.load(SeqCst)) { break }
                cfg.threads = threads(c, &[2, 3, 4, 8]);
                p.mon().cap.store(u64::MAX, SeqCst);
                p.mon().reset();
                if c.rng.chance(70) { chaos_on(c.rng.next()) }
            }
            let o = run_solver(p, &cfg, None);
            set_hook(None);
            check_queue(p, &o).map_err(Bad::Violation)?;
            if k == 0 { note(c, p, &cfg, &o) } else { c.st.add("multi_thread_runs", 1) }
            let q = p.mon().queue.lock().unwrap();
            c.st.add("subproblems_queued", q.pushed);
            c.st.add("subproblems_thrown_away", q.cleared);
            c.st.add("ties_of_the_queue", q.ties);
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// With one thread the queue is worked off best first and nothing that cannot improve is expanded.
pub fn bestfirst(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let mut cfg = Cfg::gen(&mut c.rng, Kind::Own, 1);
        cfg.plain = false;
        p.mon().cap.store(CAP / 10, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let run = |at: u64| {
            p.mon().reset();
            let n = AtomicU64::new(0);
            let o = run_solver(p, &cfg, Some(Arc::new(move || n.fetch_add(1, SeqCst) >= at)));
            let q = std::mem::take(&mut *p.mon().queue.lock().unwrap());
            (o, q, p.mon().domain.load(SeqCst))
        };
        let (o, q, total) = run(u64::MAX);
        note(c, p, &cfg, &o);
        if let Some(e) = &q.loose { return viol(e.clone()) }
        let mut expanded = vec![];
        for (i, &(polls, ub, before)) in q.pops.iter().enumerate() {
            let after = match q.pops.get(i + 1) { Some(n) => n.2, None if q.pops.len() < 4096 => total, None => break };
            if let Some(&(_, next, _)) = q.pops.get(i + 1) {
                if next > ub { return viol(format!("a subproblem of bound {next} is taken from the queue after one of bound {ub}, by the only thread")) }
                c.st.add("pops_in_order", 1);
            }
            if after > before { expanded.push((polls, ub, after - before)) } else { c.st.add("taken_and_not_expanded", 1) }
        }
        // the best value known when a subproblem was taken is what the same run stopped there reports
        let mut todo: Vec<usize> = (0..expanded.len()).collect();
        while todo.len() > 12 { let i = c.rng.below(todo.len()); todo.swap_remove(i); }
        // those of least bound are the most telling
        todo.extend(expanded.len().saturating_sub(6)..expanded.len());
        todo.sort();
        todo.dedup();
        for i in todo {
            let (polls, ub, work) = expanded[i];
            let (s, q2, _) = run(polls - 1);
            if q2.pops.len() < q.pops.len().min(4096) && q2.pops[..q2.pops.len().saturating_sub(1)] != q.pops[..q2.pops.len().saturating_sub(1)] { return skip("runs on one thread do not repeat exactly") }
            if s.value.is_some() && ub <= s.lb { return viol(format!("a subproblem of bound {ub} was expanded ({work} diagram nodes) although a solution worth {} was known when it was taken", s.lb)) }
            c.st.add("expansions_judged", 1);
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// The same solver, and the same frontier, used again.
pub fn rerun(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Barrier, Kind::Own]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        p.mon().cap.store(CAP / 3, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let o = run_solver(p, &cfg, None);
        check_proved(p, &o).map_err(Bad::Violation)?;
        note(c, p, &cfg, &o);
        let polls = o.explored as u64 + 3;
        if !affordable(p.mon().steps.load(SeqCst)) || dull(c, &o) { return Ok(()) }
        for k in 0..4 {
            if SCHED || k > 1 { cfg.threads = threads(c, &[1, 2, 3, 4, 8]) }
            cfg.plain = c.rng.chance(30);
            p.mon().cap.store(u64::MAX, SeqCst);
            p.mon().reset();
            if k > 1 && c.rng.chance(50) { chaos_on(c.rng.next()) }
            if k == 3 && kind != Kind::Barrier {
                c.describe(&format!("{} / {:?}, two solvers one after the other on one frontier", p.describe(), cfg));
                for o in run_shared_frontier(p, &cfg) { check_proved(p, &o).map_err(Bad::Violation)? }
                set_hook(None);
                c.st.add("frontiers_reused", 1);
                continue;
            }
            let n = 2 + c.rng.below(3);
            let mut at = vec![];
            let stops: Vec<Option<Stop>> = (0..n).map(|_| {
                // complete, or stopped at some poll
                if c.rng.chance(50) { at.push(None); None } else if cfg.threads > 1 && c.rng.chance(25) {
                    // by another thread while the first subproblem is processed, or later
                    at.push(Some(u64::MAX));
                    // SAFETY: the resolutions are over before the monitor is dropped
                    let first: &'static AtomicU64 = unsafe { std::mem::transmute::<&AtomicU64, &'static AtomicU64>(&p.mon().first) };
                    Some(Arc::new(move || { let f = first.load(SeqCst); f != 0 && f != this_thread() }) as Stop)
                } else {
                    let x = if c.rng.chance(40) { c.rng.next() % polls.min(5) } else { c.rng.next() % polls };
                    at.push(Some(x));
                    let n = AtomicU64::new(0);
                    Some(Arc::new(move || n.fetch_add(1, SeqCst) >= x) as Stop)
                }
            }).collect();
            c.describe(&format!("{} / {:?}, run again: stopped at polls {at:?}", p.describe(), cfg));
            let outs = run_again(p, &cfg, stops, |_, _| p.mon().first.store(0, SeqCst));
            set_hook(None);
            let opt = p.opt_total();
            let mut proved = false;
            for (i, o) in outs.iter().enumerate() {
                // the queue's own books are about single runs
                *p.mon().queue.lock().unwrap() = Default::default();
                check_genuine(p, o).map_err(Bad::Violation)?;
                let say = |s: &str| viol(format!("{s}: after run {} of the same solver (stopped at {:?}) value {:?}, bounds [{}, {}], status {:?}; optimum {opt:?}; runs {at:?}", i + 1, at[i], o.value, o.lb, o.ub, o.status));
                if o.value.is_some() && o.lb != o.value.unwrap() { return say("the lower bound is not the best value") }
                if let Some(v) = opt { if o.ub < v || o.lb > v { return say("the bounds exclude the optimum") } }
                if o.lb > o.ub { return say("the bounds cross") }
                if o.explored > 1 && o.value < opt { c.st.add("stopped_short_of_the_optimum", 1) }
                if i > 0 && o.value < outs[i - 1].value { return say("a better value had been found before") }
                if o.status == Some(ResolutionStatus::Proved) && o.value != opt { return say("a proof is reported but the value is not the optimum") }
                let clean = at[..=i].iter().all(|x| x.is_none());
                proved |= clean;
                if proved && o.value != opt { return say("the optimum had been found before") }
                if clean && o.status == Some(ResolutionStatus::Interrupted) { return say("nobody ever asked for a stop") }
                if clean && opt.is_some() && o.ub != o.lb { return say("a complete run did not prove the optimum") }
                c.st.add(if i == 0 { "first_runs" } else if proved { "runs_again_after_proofs" } else { "runs_again_after_a_stop" }, 1);
            }
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}
