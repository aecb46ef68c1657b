//! Executions for the sanitizers: everything the library does, with no opinion on its answers. Run natively the
//! only monitors are the checks compiled into the library (arithmetic overflow, bounds, unsafe preconditions); the same
//! program is also built under ThreadSanitizer, AddressSanitizer and MemorySanitizer, and interpreted by Miri.
use crate::common::{fam::*, mon::*, rng::*, run::*, solve::*};
use crate::dds::{incumbent, subproblem, table, Dd};
use crate::solvers::{chaos_on, size};
use crate::misc;
use engineering::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;

const CAP: u64 = 200_000;
fn tiny() -> bool { TINY.load(Relaxed) }

fn solver_runs<P: Fam>(c: &mut Case, p: &P) -> Res
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier, Kind::Barrier]);
    let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
    set_hook(None);
    p.mon().cap.store(CAP, SeqCst);
    c.describe(&format!("{} / {:?}", p.describe(), cfg));
    let o = run_solver(p, &cfg, None);
    c.st.add("solver_runs", 1);
    c.st.add("subproblems", o.explored as u64);
    let work = p.mon().steps.load(SeqCst);
    p.mon().cap.store(u64::MAX, SeqCst);
    for _ in 0..if work < CAP / 4 { 2 } else { 0 } {
        cfg.threads = *c.rng.pick(if tiny() { &[2, 2, 3, 3, 3] } else { &[2, 3, 4, 6, 8] });
        cfg.via_with = c.rng.chance(30);
        cfg.plain = c.rng.chance(30);
        let stop: Option<Stop> = if c.rng.chance(30) {
            let at = c.rng.next() % (o.explored as u64 + 2);
            let n = AtomicU64::new(0);
            Some(Arc::new(move || n.fetch_add(1, SeqCst) >= at))
        } else { None };
        c.describe(&format!("{} / {:?} interruptible {}", p.describe(), cfg, stop.is_some()));
        if !tiny() && c.rng.chance(70) { chaos_on(c.rng.next()) }
        let o = run_solver(p, &cfg, stop);
        set_hook(None);
        c.st.add("multi_thread_runs", 1);
        c.st.add("threads_run", cfg.threads as u64);
        c.st.add("subproblems", o.explored as u64);
    }
    c.st.add("callbacks", p.mon().steps.load(SeqCst));
    if o.explored > 1 {
        let d = p.describe();
        let h = mix(state_hash(&d), mix(o.explored as u64, mix(o.explored_dd as u64, cfg.threads as u64)));
        c.nontrivial(h, || format!("{d} / {cfg:?}: {} subproblems", o.explored));
    }
    Ok(())
}

/// diagrams reused, cloned and, over one shared table of thresholds, compiled by several threads at once
fn diagrams<P: Fam>(c: &mut Case, p: &P) -> Res
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    set_hook(None);
    let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let seed = c.rng.next();
    c.describe(&format!("{} / diagrams, cutset={cs} seed={seed}", p.describe()));
    fn one<P: Fam>(r: &mut Rng, p: &P, dd: &mut Dd<<P as Problem>::State>, n: usize) -> u64
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        let mut h = 1;
        for _ in 0..n {
            let sp = subproblem(r, p);
            let lb = incumbent(r, p, &sp);
            let w = *r.pick(&[1, 1, 2, 3, 5, 20, 1000]);
            let comp_type = *r.pick(&[CompilationType::Restricted, CompilationType::Relaxed, CompilationType::Relaxed, CompilationType::Exact]);
            dd.compile(&CompilationInput { comp_type, max_width: w, problem: p, relaxation: p, ranking: p, residual: sp, best_lb: lb });
            h = mix(h, dd.best_value().unwrap_or(-1) as u64 ^ dd.explored() as u64);
            if let Some(s) = dd.best_solution() { h = mix(h, s.len() as u64) }
            if comp_type == CompilationType::Relaxed && !dd.is_exact() { for x in dd.drain() { h = mix(h, x.ub as u64) } }
        }
        h
    }
    p.mon().cap.store(u64::MAX, SeqCst);
    let mut dd = Dd::gen(&mut c.rng, p.nb_variables(), cs);
    let mut h = one(&mut c.rng, p, &mut dd, 3);
    match &dd { Dd::A(d) => { let _ = d.clone(); } Dd::B(d, _) => { let _ = d.clone(); } }
    c.st.add("diagrams", 3);
    if SCHED || c.rng.chance(60) {
        let t = table(p.nb_variables());
        let k = if tiny() { 2 } else { 2 + c.rng.below(3) };
        std::thread::scope(|s| {
            for i in 0..k {
                let t = t.clone();
                let mut r = Rng::new(mix(seed, i as u64));
                s.spawn(move || { let mut dd = Dd::B(Barrier::new(t.clone(), cs), t); one(&mut r, p, &mut dd, 3) });
            }
        });
        c.st.add("diagrams", 3 * k as u64);
        c.st.add("diagrams_sharing_thresholds", 3 * k as u64);
        h = mix(h, t.iter().map(|l| l.read().len() as u64).sum());
    }
    let d = p.describe();
    c.nontrivial(mix(state_hash(&d), h), || format!("{d} / diagrams {cs}"));
    Ok(())
}

pub fn memory(c: &mut Case) -> Res {
    let m = c.rng.below(100);
    let r = if m < 88 {
        let sz = size(c);
        EXTREME.store(c.rng.chance(15), Relaxed);
        let r = if c.rng.chance(75) {
            let p = Graph::gen(&mut c.rng, sz);
            if m < 50 { solver_runs(c, &p) } else { diagrams(c, &p) }
        } else {
            let p = Knap::gen(&mut c.rng, sz);
            if m < 50 { solver_runs(c, &p) } else { diagrams(c, &p) }
        };
        EXTREME.store(false, Relaxed);
        r
    } else if m < 96 { misc::frontier(c) } else { misc::utils(c) };
    match r { Err(Bad::Violation(_)) => skip("a wrong answer, judged by the other checks"), r => r }
}

// ------------------------------------------------------------------------------------------------ leaks
fn live() -> usize { peak_alloc::PeakAlloc.current_usage() }
/// the number of live bytes once what ended threads held is given back
fn settled(below: usize) -> usize {
    let mut low = live();
    for k in 0..200 {
        if low <= below { break }
        std::thread::sleep(std::time::Duration::from_micros(if k < 20 { 200 } else { 5000 }));
        low = low.min(live());
    }
    low
}
/// the number of live bytes once it does not change any more
fn quiet() -> usize {
    let (mut low, mut same) = (live(), 0);
    for _ in 0..100 {
        std::thread::sleep(std::time::Duration::from_micros(100));
        let now = live();
        if now == low { same += 1 } else { same = 0; low = now }
        if same >= 5 { break }
    }
    low
}
/// what a run allocates, it gives back: the live bytes do not grow with every repetition of the same run
pub fn leak(c: &mut Case) -> Res {
    fn judge(c: &mut Case, what: String, mut run: impl FnMut()) -> Res {
        if live() == 0 { return skip("the allocations of the program are not counted") }
        c.describe(&what);
        run();
        run();
        let first = quiet();
        for _ in 0..3 { run() }
        c.st.add("repetitions", 3);
        let mut last = settled(first);
        if last > first {
            // something was kept: a cache that fills once, or a leak that goes on?
            let mut grew = vec![last - first];
            for _ in 0..30 {
                run();
                let now = settled(last);
                if now > last { grew.push(now - last) }
                if now < last { grew.clear() }
                last = now;
                if grew.len() > 5 { return viol(format!("the live memory grew again and again over repetitions of the same run, and never shrank: by {grew:?} bytes")) }
            }
            c.st.add("memory_kept_once", 1);
        }
        c.nontrivial(state_hash(&what), || what.clone());
        Ok(())
    }
    /// the harness's own caches grow with what is visited: only problems without any
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let kind = *c.rng.pick(&[Kind::Simple, Kind::NoDup, Kind::Barrier]);
        let mut cfg = Cfg::gen(&mut c.rng, kind, 1);
        p.mon().cap.store(CAP, SeqCst);
        c.describe(&format!("{} / {:?}", p.describe(), cfg));
        let o = run_solver(p, &cfg, None);
        c.st.add("subproblems", o.explored as u64);
        p.mon().cap.store(u64::MAX, SeqCst);
        if c.rng.chance(60) { cfg.threads = *c.rng.pick(&[2, 3, 4, 8]) }
        let at = if c.rng.chance(40) { c.rng.next() % (o.explored as u64 + 1) } else { u64::MAX };
        judge(c, format!("{} / {:?} stopped at poll {at}", p.describe(), cfg), || {
            let n = AtomicU64::new(0);
            run_solver(p, &cfg, if at == u64::MAX { None } else { Some(Arc::new(move || n.fetch_add(1, SeqCst) >= at)) });
        })
    }
    if c.index == 0 {
        // the lock library grows its table with the number of threads and keeps it
        let p = Graph::gen(&mut c.rng, Size::Small);
        for _ in 0..3 { run_solver(&p, &Cfg { kind: Kind::Barrier, cutset: CutsetType::Frontier, width: WMode::Fixed(2), threads: 40, via_with: false, plain: true }, None); }
    }
    let sz = *c.rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
    let p = Graph::gen(&mut c.rng, sz);
    if c.rng.chance(60) { return go(c, &p) }
    set_hook(None);
    p.mon.cap.store(u64::MAX, SeqCst);
    let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let seed = c.rng.next();
    let frontier = c.rng.chance(40);
    if c.rng.chance(50) {
        // one object used over and over for the same work holds what the work needs, not what every use added
        let mut r = Rng::new(seed);
        let mut dd = Dd::gen(&mut r, p.n, cs);
        let (mut a, mut b) = (SimpleFrontier::new(&p), NoDupFrontier::new(&p));
        let clear = c.rng.chance(50);
        let mut round = || {
            let mut r = Rng::new(seed);
            if frontier {
                let n = 2 + r.below(40);
                for _ in 0..n { let sp = subproblem(&mut r, &p); a.push(sp.clone()); b.push(sp) }
                let mut k = r.below(n + 1);
                if clear { while k > 0 { k -= 1; a.pop(); b.pop(); } a.clear(); b.clear() } else { while a.pop().is_some() {} while b.pop().is_some() {} }
            } else {
                for _ in 0..3 {
                    let sp = subproblem(&mut r, &p);
                    let lb = incumbent(&mut r, &p, &sp);
                    let comp_type = *r.pick(&[CompilationType::Restricted, CompilationType::Relaxed, CompilationType::Relaxed, CompilationType::Exact]);
                    dd.compile(&CompilationInput { comp_type, max_width: 1 + r.below(4), problem: &p, relaxation: &p, ranking: &p, residual: sp, best_lb: lb });
                    if !dd.is_exact() && r.chance(70) { dd.drain(); }
                }
            }
        };
        let before = quiet();
        for _ in 0..4 { round() }
        let few = quiet().saturating_sub(before);
        for _ in 0..400 { round() }
        let many = settled(before + few).saturating_sub(before);
        c.st.add("objects_reused", 1);
        let what = format!("{} / {} {cs} seed={seed} clear={clear} reused", p.describe(), if frontier { "frontiers" } else { "one diagram" });
        c.describe(&what);
        if many > 8 * few + 50_000 { return viol(format!("an object used 400 more times for the same work went from {few} to {many} bytes")) }
        c.nontrivial(state_hash(&what), || format!("{what}: {few} bytes after 4 rounds, {many} after 404"));
        return Ok(());
    }
    judge(c, format!("{} / {} {cs} seed={seed}", p.describe(), if frontier { "frontiers" } else { "diagrams" }), || {
        let mut r = Rng::new(seed);
        if frontier {
            let mut a = SimpleFrontier::new(&p);
            let mut b = NoDupFrontier::new(&p);
            for _ in 0..60 {
                let sp = subproblem(&mut r, &p);
                match r.below(10) { 0..=6 => { a.push(sp.clone()); b.push(sp) } 7..=8 => { a.pop(); b.pop(); } _ => { a.clear(); b.clear() } }
            }
        } else {
            let mut dd = Dd::gen(&mut r, p.n, cs);
            for _ in 0..4 {
                let sp = subproblem(&mut r, &p);
                let lb = incumbent(&mut r, &p, &sp);
                let comp_type = *r.pick(&[CompilationType::Restricted, CompilationType::Relaxed, CompilationType::Exact]);
                dd.compile(&CompilationInput { comp_type, max_width: 1 + r.below(4), problem: &p, relaxation: &p, ranking: &p, residual: sp, best_lb: lb });
                if !dd.is_exact() && r.chance(70) { dd.drain(); }
            }
        }
    })
}
