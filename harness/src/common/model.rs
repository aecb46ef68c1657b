//! Checks on the shipped models, through the library's traits only.
use super::rng::*;
use super::run::*;
use engineering::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

pub struct Memo<S> { pub m: HashMap<S, Option<isize>>, pub budget: usize }
impl<S> Memo<S> { pub fn new(budget: usize) -> Self { Memo { m: HashMap::new(), budget } } }

/// best completion of a state (genuine or merged) according to the model's own transitions
pub fn best<P>(p: &P, s: &P::State, memo: &mut Memo<P::State>) -> Result<Option<isize>, Bad>
where P: Problem, P::State: Eq + Hash + Clone {
    if let Some(r) = memo.m.get(s) { return Ok(*r) }
    let var = match p.next_variable(&mut std::iter::once(s)) { Some(v) => v, None => return Ok(Some(0)) };
    if memo.budget == 0 { return skip("too many states") }
    memo.budget -= 1;
    let mut ds = vec![];
    p.for_each_in_domain(var, s, |d| ds.push(d));
    let mut r: Option<isize> = None;
    for d in ds {
        let t = p.transition(s, d);
        let c = p.transition_cost(s, d);
        if let Some(b) = best(p, &t, memo)? { r = Some(r.map_or(c + b, |x| x.max(c + b))) }
    }
    memo.m.insert(s.clone(), r);
    Ok(r)
}

pub trait Amend<S> {
    fn estimate(&self, _s: &S, _shipped: isize) -> Option<(isize, &'static str)> { None }
    /// whether the bound may be asked of a finished state (the solvers never do)
    fn bounds_finished(&self) -> bool { true }
    fn relax(&self, _dst: &S, _merged: &S, _cost: isize, _shipped: isize) -> Option<(isize, &'static str)> { None }
}
pub struct AsShipped;
impl<S> Amend<S> for AsShipped {}

/// Walks down the layers as a relaxed compilation does: expands, merges random groups (of genuine and already
/// merged states alike), and remembers for every node the genuine states it stands for, each with the largest
/// amount by which a relaxed path to the node may be *trusted* (relaxed minus genuine value of the same decisions).
/// Neither the bound nor the completions of a node may lose the best completion of a genuine state it stands for.
///
/// `amend` gives, for a call whose result is exactly that of a known defective formula, the result of the amended one
/// and the name of the defect: a failure that the amendment alone removes is attributed to that defect.
pub fn admissible<P, R>(c: &mut Case, p: &P, relax: &R, label: &str, deep: usize, amend: &dyn Amend<P::State>) -> Res
where P: Problem, R: Relaxation<State = P::State>, P::State: Eq + Hash + Clone + Debug {
    struct Node<S> { s: S, merged: bool, rep: HashMap<S, (isize, isize)> }
    struct Inb<S> { src: S, dec: Decision, cost: isize, rep: Vec<(S, (isize, isize))> }
    let rep_cap = if c.thorough { 200 } else { 40 };
    let mut memo = Memo::new(if c.thorough { 400_000 } else { 60_000 });
    // a sub-problem's root: the initial state or a genuine state some way down
    let mut root = p.initial_state();
    if deep > 0 || c.rng.chance(50) {
        for _ in 0..if deep > 0 { deep } else { c.rng.below(p.nb_variables().max(1)) } {
            let var = match p.next_variable(&mut std::iter::once(&root)) { Some(v) => v, None => break };
            let mut ds = vec![];
            p.for_each_in_domain(var, &root, |d| ds.push(d));
            if ds.is_empty() { break }
            let d = ds[c.rng.below(ds.len())];
            root = p.transition(&root, d);
        }
    }
    let mut layer: Vec<Node<P::State>> = vec![Node { s: root.clone(), merged: false, rep: std::iter::once((root, (0, 0))).collect() }];
    let cap = 2 + c.rng.below(14);
    let mut depth = 0;
    let (mut merges, mut merges_of_merged, mut bounds, mut feas, mut reps) = (0u64, 0u64, 0u64, 0u64, 0u64);
    loop {
        let var = layer.first().and_then(|n| p.next_variable(&mut std::iter::once(&n.s)));
        let mut next: Vec<(P::State, bool, Vec<Inb<P::State>>)> = vec![];
        let mut idx: HashMap<P::State, usize> = HashMap::new();
        for n in &layer {
            let e = if var.is_some() || amend.bounds_finished() { p.estimate(&n.s) } else { isize::MAX };
            let bm = best(p, &n.s, &mut memo)?;
            bounds += 1;
            let mut any = false;
            for (g, (delta, dship)) in &n.rep {
                reps += 1;
                let bg = match best(p, g, &mut memo)? { Some(b) => b, None => continue };
                any = true;
                let w = || format!("the node at depth {depth} (merged: {}) {:?} stands for the genuine state {g:?}, reached by the same decisions with a relaxed value {delta} above its genuine value", n.merged, n.s);
                if e.saturating_add(*delta) < bg {
                    match amend.estimate(&n.s, e) { Some((e2, id)) if e2.saturating_add(*delta) >= bg => { c.known(id, || format!("{label}: {}: the bound {e} is below the best completion, worth {bg}", w())); continue }, _ => {} }
                    return viol(format!("{label}: {}: the bound {e} is below the best completion, worth {bg}", w())) }
                else if e.saturating_add(*dship) < bg { c.known("tsptw-merge-waiting", || format!("{label}: {}: with the relaxed transitions as shipped its path is only worth {dship} more, and the bound {e} is below the best completion, worth {bg}", w())) }
                if bm.map_or(true, |bm| bm + delta < bg) { return viol(format!("{label}: {}: completing the node is worth {bm:?}, the genuine state has a completion worth {bg}", w())) }
            }
            if any { feas += 1 }
            let var = match var { Some(v) => v, None => continue };
            let mut doms: Vec<(&P::State, (isize, isize), HashSet<isize>)> = vec![];
            for (g, delta) in &n.rep {
                let mut h = HashSet::new();
                p.for_each_in_domain(var, g, |d| { h.insert(d.value); });
                doms.push((g, *delta, h));
            }
            let mut ds = vec![];
            p.for_each_in_domain(var, &n.s, |d| ds.push(d));
            for d in ds {
                let t = p.transition(&n.s, d);
                let cost = p.transition_cost(&n.s, d);
                let i = *idx.entry(t.clone()).or_insert_with(|| { next.push((t.clone(), false, vec![])); next.len() - 1 });
                let rep = doms.iter().filter(|x| x.2.contains(&d.value)).map(|(g, delta, _)| { let x = cost - p.transition_cost(g, d); (p.transition(g, d), (delta.0 + x, delta.1 + x)) }).collect();
                next[i].1 |= n.merged;
                next[i].2.push(Inb { src: n.s.clone(), dec: d, cost, rep });
            }
        }
        if next.is_empty() { break }
        depth += 1;
        c.rng.shuffle(&mut next);
        let mut groups: Vec<(P::State, bool, Vec<(P::State, Vec<Inb<P::State>>)>)> = vec![];
        for _ in 0..1 + c.rng.below(3) {
            if next.len() < 2 { break }
            let k = (2 + c.rng.below((next.len() - 1).min(8))).min(next.len());
            let grp: Vec<_> = next.drain(..k).collect();
            let m = relax.merge(&mut grp.iter().map(|g| &g.0));
            merges += 1;
            if grp.iter().any(|g| g.1) { merges_of_merged += 1 }
            groups.push((m, true, grp.into_iter().map(|g| (g.0, g.2)).collect()));
        }
        for (s, m, inb) in next { groups.push((s.clone(), m, vec![(s, inb)])) }
        let mut new_layer: Vec<Node<P::State>> = vec![];
        let mut seen: HashMap<P::State, usize> = HashMap::new();
        let n_real = groups.len();
        for (gi, (m, merged, parts)) in groups.into_iter().enumerate() {
            let is_merge = parts.len() > 1;
            if !is_merge && new_layer.len() >= cap && gi + 1 < n_real { continue }
            let i = *seen.entry(m.clone()).or_insert_with(|| { new_layer.push(Node { s: m.clone(), merged: false, rep: HashMap::new() }); new_layer.len() - 1 });
            new_layer[i].merged |= merged;
            for (s, inb) in parts {
                for e in inb {
                    let ship = if is_merge { relax.relax(&e.src, &s, &m, e.dec, e.cost) } else { e.cost };
                    let rc = if is_merge { amend.relax(&s, &m, e.cost, ship).map_or(ship, |x| x.0) } else { ship };
                    for (g, delta) in e.rep {
                        let delta = (delta.0 + rc - e.cost, delta.1 + ship - e.cost);
                        let full = new_layer[i].rep.len() >= rep_cap;
                        match new_layer[i].rep.entry(g) {
                            std::collections::hash_map::Entry::Occupied(mut o) => { let x = *o.get(); o.insert((x.0.min(delta.0), x.1.min(delta.1))); }
                            std::collections::hash_map::Entry::Vacant(v) => { if !full { v.insert(delta); } }
                        }
                    }
                }
            }
        }
        layer = new_layer;
    }
    c.st.add("merges", merges);
    c.st.add("merges_of_merged_states", merges_of_merged);
    c.st.add("bounds_checked", bounds);
    c.st.add("bounds_of_feasible_states", feas);
    c.st.add("genuine_states_compared", reps);
    if merges > 0 && feas > 0 {
        let h = mix(c.seed, merges);
        let l = label.to_string();
        c.nontrivial(h, || format!("{l}: {merges} merges ({merges_of_merged} of already merged states), {bounds} bounds, {reps} genuine states compared"));
    }
    Ok(())
}

/// Counts what a solver does to the model it is given.
pub struct Counted<'a, P> { pub p: &'a P, pub domains: std::sync::atomic::AtomicU64 }
impl<P: Problem> Problem for Counted<'_, P> {
    type State = P::State;
    fn nb_variables(&self) -> usize { self.p.nb_variables() }
    fn initial_state(&self) -> P::State { self.p.initial_state() }
    fn initial_value(&self) -> isize { self.p.initial_value() }
    fn transition(&self, s: &P::State, d: Decision) -> P::State { self.p.transition(s, d) }
    fn transition_cost(&self, s: &P::State, d: Decision) -> isize { self.p.transition_cost(s, d) }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &P::State>) -> Option<Variable> { self.p.next_variable(it) }
    fn for_each_in_domain<F>(&self, v: Variable, s: &P::State, f: F) where F: FnMut(Decision) {
        self.domains.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.p.for_each_in_domain(v, s, f)
    }
    fn estimate(&self, s: &P::State) -> isize { self.p.estimate(s) }
}
pub struct CountedWidth<'a, W> { pub w: &'a W, pub calls: std::sync::atomic::AtomicU64 }
impl<S, W: WidthHeuristic<S>> WidthHeuristic<S> for CountedWidth<'_, W> {
    fn max_width(&self, s: &S) -> usize {
        self.calls.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.w.max_width(s)
    }
}
#[derive(Clone, Debug)]
pub struct InProc { pub value: Option<isize>, pub sol: Option<Vec<Decision>>, pub explored: usize, pub explored_dd: usize, pub domains: u64, pub subproblems: u64 }
/// the same resolution as the command line's, in process, with counted callbacks
pub fn in_process<P, R, O, W>(p: &P, relax: &R, rank: &O, w: &W, barrier: bool, cutset: CutsetType, threads: usize) -> InProc
where P: Problem + Send + Sync, P::State: Eq + Hash + Clone + Send + Sync, R: Relaxation<State = P::State> + Send + Sync,
      O: StateRanking<State = P::State> + Send + Sync, W: WidthHeuristic<P::State> + Send + Sync {
    use std::sync::atomic::Ordering::SeqCst;
    let p = Counted { p, domains: 0.into() };
    let w = CountedWidth { w, calls: 0.into() };
    macro_rules! go { ($s:expr) => {{ let mut s = $s; s.maximize_with_interrupt(|| false);
        InProc { value: s.best_value(), sol: s.best_solution(), explored: s.get_explored(), explored_dd: s.get_explored_dd(), domains: 0, subproblems: 0 } }} }
    let mut r = if barrier { go!(BarrierParallelSolver::custom(&p, relax, rank, &w, cutset, threads)) }
        else { let mut f = NoDupFrontier::new(rank); go!(ParallelSolver::custom(&p, relax, rank, &w, cutset, &mut f, threads)) };
    r.domains = p.domains.load(SeqCst);
    r.subproblems = w.calls.load(SeqCst);
    r
}
/// the answer of a resolution must be the optimum, reached by the decisions it reports
pub fn check_in_process<P: Problem>(p: &P, r: &InProc, opt: Option<i128>, what: &str) -> Res {
    if r.value.map(|x| x as i128) != opt { return viol(format!("{what}: found {:?} but the optimum is {opt:?}", r.value)) }
    if r.value.is_none() { return if r.sol.is_some() { viol(format!("{what}: a solution without a value")) } else { Ok(()) } }
    let sol = match &r.sol { Some(s) => s, None => return viol(format!("{what}: a value without a solution")) };
    let mut s = p.initial_state();
    let mut v = p.initial_value();
    let mut left = sol.clone();
    while let Some(var) = p.next_variable(&mut std::iter::once(&s)) {
        let d = match left.iter().position(|d| d.var == var) { Some(k) => left.swap_remove(k), None => return viol(format!("{what}: the solution {sol:?} decides nothing on {var:?}")) };
        let mut ok = false;
        p.for_each_in_domain(var, &s, |x| ok |= x.value == d.value);
        if !ok { return viol(format!("{what}: the solution {sol:?} takes {d:?}, which is not allowed there")) }
        v += p.transition_cost(&s, d);
        s = p.transition(&s, d);
    }
    if !left.is_empty() { return viol(format!("{what}: the solution {sol:?} has superfluous decisions {left:?}")) }
    if Some(v) != r.value { return viol(format!("{what}: the solution {sol:?} is worth {v}, not {:?}", r.value)) }
    Ok(())
}

#[derive(Clone, Debug)]
pub struct Stopped { pub proved: bool, pub value: Option<isize>, pub sol: Option<Vec<Decision>>, pub lb: isize, pub ub: isize, pub explored: usize }
/// as above, stopped after a number of polls or after some time, whichever is first
pub fn in_process_until<P, R, O, W>(p: &P, relax: &R, rank: &O, w: &W, barrier: bool, cutset: CutsetType, threads: usize, polls: u64, limit: std::time::Duration) -> Stopped
where P: Problem + Send + Sync, P::State: Eq + Hash + Clone + Send + Sync, R: Relaxation<State = P::State> + Send + Sync,
      O: StateRanking<State = P::State> + Send + Sync, W: WidthHeuristic<P::State> + Send + Sync {
    let t0 = std::time::Instant::now();
    let n = std::sync::atomic::AtomicU64::new(0);
    let stop = move || { super::mon::CALLS.store(true, std::sync::atomic::Ordering::Relaxed); n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= polls || t0.elapsed() > limit };
    macro_rules! go { ($s:expr) => {{ let mut s = $s; let st = s.maximize_with_interrupt(stop);
        Stopped { proved: st == ResolutionStatus::Proved, value: s.best_value_so_far(), sol: s.best_solution_so_far(), lb: s.best_lower_bound(), ub: s.best_upper_bound(), explored: s.get_explored() } }} }
    if barrier { go!(BarrierParallelSolver::custom(p, relax, rank, w, cutset, threads)) }
    else { let mut f = NoDupFrontier::new(rank); go!(ParallelSolver::custom(p, relax, rank, w, cutset, &mut f, threads)) }
}
/// what the decisions are worth in the model, or why they are no solution
pub fn worth<P: Problem>(p: &P, sol: &[Decision], what: &str) -> Result<isize, Bad> {
    let mut s = p.initial_state();
    let mut v = p.initial_value();
    let mut left = sol.to_vec();
    while let Some(var) = p.next_variable(&mut std::iter::once(&s)) {
        let d = match left.iter().position(|d| d.var == var) { Some(k) => left.swap_remove(k), None => return viol(format!("{what}: the solution {sol:?} decides nothing on {var:?}")) };
        let mut ok = false;
        p.for_each_in_domain(var, &s, |x| ok |= x.value == d.value);
        if !ok { return viol(format!("{what}: the solution {sol:?} takes {d:?}, which is not allowed there")) }
        v += p.transition_cost(&s, d);
        s = p.transition(&s, d);
    }
    if !left.is_empty() { return viol(format!("{what}: the solution {sol:?} has superfluous decisions {left:?}")) }
    Ok(v)
}
/// Runs of one instance by random configurations stopped at random moments: none contradicts another, or the optimum
pub fn bench_case<P: Problem, F>(c: &mut Case, p: &P, name: &str, known: Option<i128>, mut run: F) -> Res
where F: FnMut(&super::cli::Args, u64, std::time::Duration) -> Stopped {
    use super::cli::Args;
    let (mut lo, mut hi) = ((i128::MIN, String::new()), (i128::MAX, String::new()));
    let mut infeasible: Option<String> = None;
    let mut total = 0;
    let mut proofs = 0;
    for _ in 0..3 + c.rng.below(3) {
        let a = Args { width: Some(*c.rng.pick(&[1, 1, 1, 2, 5])), threads: Some(1 + c.rng.below(4)), solver: *c.rng.pick(&[Some("parallel"), Some("barrier")]), cutset: *c.rng.pick(&[Some("lel"), Some("frontier")]), timeout: None };
        let polls = if c.rng.chance(50) { u64::MAX } else { c.rng.next() % (1 << c.rng.below(10)) };
        let limit = std::time::Duration::from_millis(50 + c.rng.next() % 700);
        c.describe(&format!("{name} / {a:?} until poll {polls} or {limit:?}"));
        let x = run(&a, polls, limit);
        total += x.explored;
        let w = format!("{name} / {a:?} until poll {polls} or {limit:?}: value {:?}, bounds [{}, {}], proved: {}", x.value, x.lb, x.ub, x.proved);
        match (x.value, &x.sol) {
            (Some(v), Some(s)) => { let t = worth(p, s, &w)?; if t != v { return viol(format!("{w}: its solution is worth {t}")) } if x.lb != v { return viol(format!("{w}: the lower bound is not the best value")) } }
            (None, None) => {}
            _ => return viol(format!("{w}: a value without a solution or the reverse")),
        }
        if x.value.is_some() && x.lb > x.ub { return viol(format!("{w}: the bounds are crossed")) }
        if x.proved && x.value.is_some() && x.lb != x.ub { return viol(format!("{w}: proved, but the bounds differ")) }
        if let Some(o) = known { if (x.lb as i128) > o || (x.ub as i128) < o { return viol(format!("{w}: the optimum is {o}")) } }
        if x.proved && x.value.is_none() { infeasible = Some(w.clone()) }
        if x.value.is_some() && x.lb as i128 > lo.0 { lo = (x.lb as i128, w.clone()) }
        if (x.ub as i128) < hi.0 { hi = (x.ub as i128, w.clone()) }
        if lo.0 > hi.0 { return viol(format!("two runs contradict one another: {} // {}", lo.1, hi.1)) }
        if let (Some(i), true) = (&infeasible, lo.0 > i128::MIN) { return viol(format!("one run finds a solution, another proves that there is none: {} // {i}", lo.1)) }
        proofs += x.proved as u64;
        c.st.add("runs", 1);
        c.st.add(&format!("runs_{}_{}", a.solver.unwrap(), a.cutset.unwrap()), 1);
        c.st.add("runs_proved", x.proved as u64);
        c.st.add("runs_with_several_threads", (a.threads != Some(1)) as u64);
        c.st.add("subproblems", x.explored as u64);
    }
    let h = mix(c.seed, total as u64);
    if total > 3 { let n = name.to_string(); let (l, u) = (lo.0, hi.0); c.nontrivial(h, || format!("{n}: {total} subproblems, {proofs} proofs, bounds [{l}, {u}], known optimum {known:?}")) }
    Ok(())
}
/// the first number of a file
pub fn size_of(f: &str) -> usize { std::fs::read_to_string(f).ok().and_then(|t| t.split_whitespace().next().and_then(|w| w.parse().ok())).unwrap_or(usize::MAX) }
/// one of the shipped instances
pub fn shipped(c: &mut Case, ex: &str, ok: &dyn Fn(&str) -> bool) -> Option<String> {
    fn walk(d: &std::path::Path, v: &mut Vec<String>) { if let Ok(r) = std::fs::read_dir(d) { for e in r.flatten() { let p = e.path(); if p.is_dir() { walk(&p, v) } else { v.push(p.to_string_lossy().into_owned()) } } } }
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| { let mut v = vec![]; walk(std::path::Path::new(&format!("{}/resources/{ex}", std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()))), &mut v); v.sort(); v });
    for _ in 0..200 { if all.is_empty() { return None } let f = c.rng.pick(&all[..]).clone(); if ok(&f) { return Some(f) } }
    None
}

/// What the library relies on in a model, on a walk down its layers among genuine and merged states: the same question gets
/// the same answer, one variable per layer, an order that is one, a merge that does not depend on the order of its states.
pub fn wellformed<P, R, O, W>(c: &mut Case, p: &P, relax: &R, rank: &O, width: &W, label: &str) -> Res
where P: Problem, R: Relaxation<State = P::State>, O: StateRanking<State = P::State>, W: WidthHeuristic<P::State>, P::State: Eq + Hash + Clone + Debug {
    use std::cmp::Ordering::*;
    let hash = |s: &P::State| { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() };
    let n = p.nb_variables();
    let (a, b) = (p.initial_state(), p.initial_state());
    if a != b || hash(&a) != hash(&b) || p.initial_value() != p.initial_value() { return viol(format!("{label}: the initial state is {a:?} once and {b:?} another time")) }
    let mut layer = vec![a];
    let mut merged = vec![false];
    let mut vars: HashSet<usize> = HashSet::new();
    let (mut states, mut merges, mut met) = (0u64, 0u64, 0u64);
    let cap = 4 + c.rng.below(30);
    for depth in 0.. {
        let var = p.next_variable(&mut layer.iter());
        let alone = layer.iter().map(|s| p.next_variable(&mut std::iter::once(s))).collect::<Vec<_>>();
        if let Some(k) = alone.iter().position(|v| *v != var) { return viol(format!("{label}: the variable of layer {depth} is {var:?}, but {:?} when asked for {:?} alone", alone[k], layer[k])) }
        let var = match var { Some(v) => v, None => {
            if depth != n { return viol(format!("{label}: {depth} layers are decided, although there are {n} variables")) }
            break
        } };
        if depth >= n { return viol(format!("{label}: a variable is named after {depth} layers, although there are only {n} variables")) }
        if var.id() >= n || !vars.insert(var.id()) { return viol(format!("{label}: layer {depth} decides {var:?}, which is none or was decided before")) }
        for s in &layer {
            states += 1;
            if width.max_width(s) == 0 { return viol(format!("{label}: the width for {s:?} is zero")) }
            let e = p.estimate(s);
            if e != p.estimate(&s.clone()) { return viol(format!("{label}: two bounds for {s:?}")) }
            if rank.compare(s, s) != Equal { return viol(format!("{label}: {s:?} is not ranked equal to itself")) }
        }
        for _ in 0..8 {
            let (x, y, z) = (c.rng.pick(&layer).clone(), c.rng.pick(&layer).clone(), c.rng.pick(&layer).clone());
            let (xy, yz, xz) = (rank.compare(&x, &y), rank.compare(&y, &z), rank.compare(&x, &z));
            if rank.compare(&y, &x) != xy.reverse() { return viol(format!("{label}: the ranking of {x:?} and {y:?} depends on which comes first")) }
            if (xy != Greater && yz != Greater && xz == Greater) || (xy == Equal && yz == Equal && xz != Equal) { return viol(format!("{label}: the ranking of {x:?}, {y:?} and {z:?} is no order")) }
        }
        let mut next: Vec<(P::State, bool, Vec<(P::State, Decision, isize)>)> = vec![];
        let mut idx: HashMap<P::State, usize> = HashMap::new();
        for (s, m) in layer.iter().zip(&merged) {
            let (mut ds, mut again) = (vec![], vec![]);
            p.for_each_in_domain(var, s, |d| ds.push(d));
            p.for_each_in_domain(var, &s.clone(), |d| again.push(d));
            if ds != again { return viol(format!("{label}: the domain of {s:?} is {ds:?} once and {again:?} another time")) }
            let vals: HashSet<isize> = ds.iter().map(|d| d.value).collect();
            if vals.len() != ds.len() || ds.iter().any(|d| d.var != var) { return viol(format!("{label}: the domain of {s:?} for {var:?} is {ds:?}")) }
            for d in ds {
                let (t, u) = (p.transition(s, d), p.transition(&s.clone(), d));
                let (x, y) = (p.transition_cost(s, d), p.transition_cost(&s.clone(), d));
                if t != u || hash(&t) != hash(&u) || x != y { return viol(format!("{label}: {d:?} leads from {s:?} to {t:?} at {x} once and to {u:?} at {y} another time")) }
                let i = match idx.get(&t) {
                    Some(i) => { met += 1; if hash(&next[*i].0) != hash(&t) { return viol(format!("{label}: {t:?} is equal to {:?}, but not for the hash table", next[*i].0)) } *i }
                    None => { idx.insert(t.clone(), next.len()); next.push((t, false, vec![])); next.len() - 1 }
                };
                next[i].1 |= m;
                next[i].2.push((s.clone(), d, x));
            }
        }
        if next.is_empty() { break }
        c.rng.shuffle(&mut next);
        let mut kept: Vec<(P::State, bool)> = vec![];
        if depth + 1 < n { for _ in 0..c.rng.below(3) {
            if next.len() < 2 { break }
            let k = (2 + c.rng.below(next.len() - 1)).min(next.len()).min(12);
            let mut grp: Vec<_> = next.drain(..k).collect();
            let m = relax.merge(&mut grp.iter().map(|g| &g.0));
            merges += 1;
            let cost: Vec<isize> = grp.iter().flat_map(|g| g.2.iter().map(|(s, d, x)| relax.relax(s, &g.0, &m, *d, *x)).collect::<Vec<_>>()).collect();
            let again: Vec<isize> = grp.iter().flat_map(|g| g.2.iter().map(|(s, d, x)| relax.relax(s, &g.0, &m, *d, *x)).collect::<Vec<_>>()).collect();
            if cost != again { return viol(format!("{label}: relaxed transitions to {m:?} cost {cost:?} once and {again:?} another time")) }
            c.rng.shuffle(&mut grp);
            let o = relax.merge(&mut grp.iter().map(|g| &g.0));
            if m != o || hash(&m) != hash(&o) { return viol(format!("{label}: the states {:?} merge into {o:?}, in another order into {m:?}", grp.iter().map(|g| &g.0).collect::<Vec<_>>())) }
            kept.push((m, true));
        } }
        kept.extend(next.into_iter().map(|x| (x.0, x.1)));
        let mut seen = HashSet::new();
        kept.retain(|x| seen.insert(x.0.clone()));
        kept.truncate(cap);
        merged = kept.iter().map(|x| x.1).collect();
        layer = kept.into_iter().map(|x| x.0).collect();
    }
    for (k, x) in [("states", states), ("merges", merges), ("states_met_again", met), ("layers", vars.len() as u64)] { c.st.add(k, x) }
    if merges > 0 && vars.len() > 1 {
        let h = mix(mix(c.seed, states), met);
        c.nontrivial(h, || format!("{label}: {states} states in {} layers, {merges} merges, {met} states met again", vars.len()));
    }
    Ok(())
}
