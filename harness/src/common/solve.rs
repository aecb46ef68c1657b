//! Runs the library's solvers on a monitored problem.
use super::fam::*;
use super::mon::quietly;
use super::mon::{polled, polls};
use super::rng::*;
use engineering::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Simple, NoDup, Barrier, Own }
#[derive(Clone, Debug)]
pub struct Cfg { pub kind: Kind, pub cutset: CutsetType, pub width: WMode, pub threads: usize, pub via_with: bool, pub plain: bool }
impl Cfg {
    pub fn gen(r: &mut Rng, kind: Kind, threads: usize) -> Cfg {
        let width = match r.below(if super::run::SCHED { 7 } else { 10 }) {
            0..=2 => WMode::Fixed(1),
            3..=4 => WMode::Fixed(2),
            5 => WMode::Fixed(3),
            6 => WMode::Fixed(4 + r.below(8)),
            7 => WMode::Fixed(*r.pick(&[1000, 1000, usize::MAX])),
            _ => WMode::PerState(1 + r.below(6)),
        };
        Cfg { kind, cutset: *r.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]), width, threads, via_with: r.chance(25), plain: r.chance(30) }
    }
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Option<ResolutionStatus>,
    pub value: Option<isize>,
    pub sol: Option<Vec<Decision>>,
    pub so_far: (Option<isize>, Option<Vec<Decision>>),
    pub lb: isize,
    pub ub: isize,
    pub explored: usize,
    pub explored_dd: usize,
}
/// A frontier of the user's own: hands out a random subproblem among those of greatest bound, and watches what the
/// solver makes of it.
pub struct OwnFrontier<'a, P: Oracle> { p: &'a P, held: Vec<SubProblem<P::State>>, rng: Rng }
impl<'a, P: Fam> OwnFrontier<'a, P>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    pub fn new(p: &'a P) -> Self { OwnFrontier { p, held: vec![], rng: Rng::new(state_hash(&p.describe())) } }
}
impl<P: Fam> Frontier for OwnFrontier<'_, P>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    type State = <P as Problem>::State;
    fn push(&mut self, n: SubProblem<Self::State>) {
        let bad = match self.p.replay(&n.path) {
            Err(e) => Some(format!("a subproblem that is not reachable is queued: {n:?}: {e}")),
            Ok((s, _)) if s != *n.state => Some(format!("the path of the queued subproblem {n:?} leads to {s:?}")),
            Ok((_, v)) if v != n.value => Some(format!("the path of the queued subproblem {n:?} is worth {v}")),
            _ => None,
        };
        let most = quietly(|| self.p.estimate(&n.state)).saturating_add(n.value);
        let mut q = self.p.mon().queue.lock().unwrap();
        q.pushed += 1;
        if q.pushed > 1 && q.loose.is_none() {
            if n.ub > most { q.loose = Some(format!("a subproblem of value {} is queued with the bound {} although the model bounds it by {most}", n.value, n.ub)) }
            if let Some(u) = q.last_ub { if n.ub > u { q.loose = Some(format!("a subproblem is queued with the bound {} although it comes from one of bound {u}", n.ub)) } }
        }
        if q.error.is_none() { q.error = bad }
        self.held.push(n);
    }
    fn pop(&mut self) -> Option<SubProblem<Self::State>> {
        let ub = self.held.iter().map(|n| n.ub).max()?;
        let best: Vec<usize> = (0..self.held.len()).filter(|i| self.held[*i].ub == ub).collect();
        let mut q = self.p.mon().queue.lock().unwrap();
        q.popped += 1;
        q.last_ub = Some(ub);
        if q.pops.len() < 4096 { q.pops.push((polls(), ub, self.p.mon().domain.load(std::sync::atomic::Ordering::SeqCst))) }
        q.ties += (best.len() > 1) as u64;
        Some(self.held.swap_remove(*self.rng.pick(&best)))
    }
    fn clear(&mut self) {
        let mut q = self.p.mon().queue.lock().unwrap();
        q.cleared += self.held.len() as u64;
        q.cleared_ub = q.cleared_ub.max(self.held.iter().map(|n| n.ub).max());
        self.held.clear();
    }
    fn len(&self) -> usize { self.held.len() }
}
/// what was queued during a whole resolution was genuine, and what was thrown away could not have helped
pub fn check_queue<P: Fam>(p: &P, o: &Outcome) -> Result<(), String>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let q = p.mon().queue.lock().unwrap();
    if let Some(e) = &q.error { return Err(e.clone()) }
    if o.status != Some(ResolutionStatus::Interrupted) {
        if let Some(u) = q.cleared_ub { if o.value.map_or(true, |v| u > v) { return Err(format!("a subproblem of bound {u} was thrown away unprocessed although the answer is {:?}", o.value)) } }
        if q.left > 0 { return Err(format!("{} subproblems were left in the queue by a run that says it is complete", q.left)) }
    }
    Ok(())
}
// what the last solver said before it was run: value, whether it had a solution, lower and upper bound
thread_local! { pub static FRESH: std::cell::Cell<(Option<isize>, bool, isize, isize)> = const { std::cell::Cell::new((None, false, isize::MIN, isize::MAX)) }; }
pub type Stop = Arc<dyn Fn() -> bool + Send + Sync>;

/// when `stop` is given, the interruptible entry point is used with it
pub fn run_solver<P>(p: &P, cfg: &Cfg, stop: Option<Stop>) -> Outcome
where P: Fam, <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    run_native(p, cfg, stop)
}
/// one resolution, under the scheduler when there is one
fn one<T>(_threads: usize, f: impl FnOnce() -> T) -> T {
    #[cfg(feature = "sched")]
    if _threads > 1 { return super::sched::run(_threads, f) }
    f()
}
pub fn run_native<P>(p: &P, cfg: &Cfg, stop: Option<Stop>) -> Outcome
where P: Fam, <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync { run_again(p, cfg, vec![stop], |_, _| {}).pop().unwrap() }
/// The same solver object is run once per entry of `stops`; `between` is told of each outcome.
pub fn run_again<P>(p: &P, cfg: &Cfg, stops: Vec<Option<Stop>>, mut between: impl FnMut(usize, &Outcome)) -> Vec<Outcome>
where P: Fam, <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let w = Wd { p, mode: cfg.width };
    macro_rules! go { ($s:expr) => {{
        let mut s = $s;
        if cfg.via_with { s = s.with_nb_threads(cfg.threads) }
        FRESH.with(|f| f.set((s.best_value(), s.best_solution_so_far().is_some(), s.best_lower_bound(), s.best_upper_bound())));
        let mut out = vec![];
        for stop in stops {
            let status = one(cfg.threads, || match stop {
                None if cfg.plain => { s.maximize(); None }
                None => Some(s.maximize_with_interrupt(|| { polled(); false })),
                Some(f) => Some(s.maximize_with_interrupt(move || { polled(); f() })),
            });
            out.push(Outcome { status, value: s.best_value(), sol: s.best_solution(), so_far: (s.best_value_so_far(), s.best_solution_so_far()),
                lb: s.best_lower_bound(), ub: s.best_upper_bound(), explored: s.get_explored(), explored_dd: s.get_explored_dd() });
            between(out.len() - 1, out.last().unwrap());
        }
        out
    }}}
    let n0 = if cfg.via_with { 1 } else { cfg.threads };
    match cfg.kind {
        Kind::Simple => {
            let mut fr = SimpleFrontier::new(p);
            go!(ParallelSolver::custom(p, p, p, &w, cfg.cutset, &mut fr, n0))
        }
        Kind::NoDup => {
            let mut fr = NoDupFrontier::new(p);
            if cfg.via_with && cfg.threads == 8 { return go!(ParallelSolver::new(p, p, p, &w, cfg.cutset, &mut fr)) }
            go!(ParallelSolver::custom(p, p, p, &w, cfg.cutset, &mut fr, n0))
        }
        Kind::Own => {
            let mut fr = OwnFrontier::new(p);
            let o = go!(ParallelSolver::custom(p, p, p, &w, cfg.cutset, &mut fr, n0));
            p.mon().queue.lock().unwrap().left = fr.len() as u64;
            o
        }
        // on as many threads as there are processors: the short-hand constructor
        Kind::Barrier if cfg.via_with && cfg.threads == 8 => go!(BarrierParallelSolver::new(p, p, p, &w, cfg.cutset)),
        Kind::Barrier => go!(BarrierParallelSolver::custom(p, p, p, &w, cfg.cutset, n0)),
    }
}
/// Two solvers are given the same frontier, one after the other: the first leaves nothing of its own in it.
pub fn run_shared_frontier<P>(p: &P, cfg: &Cfg) -> Vec<Outcome>
where P: Fam, <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let w = Wd { p, mode: cfg.width };
    macro_rules! go { ($fr:expr) => {{
        let mut fr = $fr;
        (0..2).map(|_| {
            let mut s = ParallelSolver::custom(p, p, p, &w, cfg.cutset, &mut fr, cfg.threads);
            let status = one(cfg.threads, || if cfg.plain { s.maximize(); None } else { Some(s.maximize_with_interrupt(|| { polled(); false })) });
            Outcome { status, value: s.best_value(), sol: s.best_solution(), so_far: (s.best_value_so_far(), s.best_solution_so_far()),
                lb: s.best_lower_bound(), ub: s.best_upper_bound(), explored: s.get_explored(), explored_dd: s.get_explored_dd() }
        }).collect()
    }}}
    match cfg.kind { Kind::Simple => go!(SimpleFrontier::new(p)), Kind::Own => go!(OwnFrontier::new(p)), _ => go!(NoDupFrontier::new(p)) }
}

/// The oracle for a run that was never interrupted: the answer is the optimum, with a genuine solution.
pub fn check_proved<P: Fam>(p: &P, o: &Outcome) -> Result<(), String>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let opt = p.opt_total();
    if let Some(st) = o.status { if st != ResolutionStatus::Proved { return Err(format!("run was never asked to stop but reports {:?}", st)) } }
    if o.value != opt { return Err(format!("reported best value {:?} but the optimum is {:?}", o.value, opt)) }
    check_genuine(p, o)?;
    if let Some(v) = opt {
        if o.lb != v || o.ub != v { return Err(format!("proved optimum {} but bounds are [{}, {}]", v, o.lb, o.ub)) }
    }
    Ok(())
}
/// A reported value always comes with a complete feasible assignment worth exactly that value.
pub fn check_genuine<P: Fam>(p: &P, o: &Outcome) -> Result<(), String>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    match (&o.value, &o.sol) {
        (None, None) => {}
        (Some(v), Some(s)) => {
            let got = check_solution(p, s)?;
            if got != *v { return Err(format!("reported value {} but the reported solution {:?} is worth {}", v, s, got)) }
        }
        (a, b) => return Err(format!("best value is {:?} but best solution is {:?}", a, b)),
    }
    check_queue(p, o)?;
    if o.so_far.0 != o.value || o.so_far.1 != o.sol { return Err(format!("best-so-far {:?} differs from the final answer {:?}/{:?}", o.so_far, o.value, o.sol)) }
    Ok(())
}
/// Bounds of an interrupted run.
pub fn check_bounds<P: Fam>(p: &P, o: &Outcome) -> Result<(), String>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let opt = p.opt_total();
    if o.status == Some(ResolutionStatus::Proved) { return check_proved(p, o) }
    check_genuine(p, o)?;
    if let Some(v) = o.value { if o.lb != v { return Err(format!("best value {} but lower bound {}", v, o.lb)) } }
    else if o.lb != isize::MIN { return Err(format!("no solution but lower bound {}", o.lb)) }
    if let Some(v) = opt {
        if o.lb > v { return Err(format!("lower bound {} exceeds the optimum {}", o.lb, v)) }
        if o.ub < v { return Err(format!("upper bound {} is below the optimum {} (status {:?}, lower bound {})", o.ub, v, o.status, o.lb)) }
    }
    if o.lb > o.ub { return Err(format!("lower bound {} exceeds upper bound {}", o.lb, o.ub)) }
    Ok(())
}
