//! Checks on single decision diagrams, compiled from arbitrary reachable subproblems.
use crate::common::{fam::*, rng::*, run::*};
use crate::solvers::size_dd;
use engineering::*;
use parking_lot::RwLock;
use rustc_hash::FxHashMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

type Tab<S> = Arc<Vec<RwLock<FxHashMap<Arc<S>, BarrierInfo>>>>;
pub fn table<S: Eq + Hash>(n: usize) -> Tab<S> { Arc::new((0..=n).map(|_| RwLock::new(Default::default())).collect()) }

macro_rules! with_problem {
    ($c:expr, $p:ident => $body:expr) => {{
        let sz = size_dd($c);
        if $c.rng.chance(75) { let $p = Graph::gen(&mut $c.rng, sz); $body } else { let $p = Knap::gen(&mut $c.rng, sz); $body }
    }};
}

/// a genuine subproblem: a random partial assignment, its state and value
pub fn subproblem<P: Fam>(r: &mut Rng, p: &P) -> SubProblem<<P as Problem>::State>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let mut s = p.initial_state();
    let mut v = p.initial_value();
    let mut path = vec![];
    let huge = p.nb_variables() > 500;
    let goal = match r.below(if huge { 7 } else { 10 }) { 0..=4 => 0, 5..=7 => r.below(p.nb_variables().min(3) + 1), _ => r.below(p.nb_variables() + 1) };
    for _ in 0..goal {
        let nx = p.succ(&s);
        let keep: Vec<_> = nx.iter().filter(|x| p.opt_from(&x.1).is_some()).cloned().collect();
        let pool = if keep.is_empty() || r.chance(5) { nx } else { keep };
        if pool.is_empty() { break }
        let (d, t, c) = r.pick(&pool).clone();
        path.push(d);
        s = t;
        v += c;
    }
    if r.chance(30) { r.shuffle(&mut path) }
    let ub = match (r.below(4), p.opt_from(&s)) {
        (0, Some(o)) => v + o,
        (1, Some(o)) => v + o + r.range(0, 5),
        _ => isize::MAX,
    };
    SubProblem { state: Arc::new(s), value: v, path, ub }
}
/// an incumbent: none, or some value around the optimum of the subproblem
pub fn incumbent<P: Fam>(r: &mut Rng, p: &P, sp: &SubProblem<<P as Problem>::State>) -> isize
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    match (r.below(10), p.opt_from(&sp.state)) {
        (0..=4, _) => isize::MIN,
        (5, Some(o)) => sp.value + o,
        (6, Some(o)) => sp.value + o - 1,
        (7, Some(o)) => sp.value + o - r.range(0, 20),
        (8, Some(o)) => sp.value + o + r.range(0, 5),
        _ => sp.value - r.range(0, 30),
    }
}

/// the two diagram implementations behind one face
pub enum Dd<S: Eq + Hash + Clone> { A(All<S>), B(Barrier<S>, Tab<S>) }
impl<S: Eq + Hash + Clone> Dd<S> {
    pub fn gen(r: &mut Rng, n: usize, cs: CutsetType) -> Self {
        if r.chance(50) { Dd::A(All::new(cs)) } else { let t = table(n); Dd::B(Barrier::new(t.clone(), cs), t) }
    }
    pub fn name(&self) -> &'static str { match self { Dd::A(_) => "All", Dd::B(..) => "Barrier" } }
    pub fn compile<P, R, O>(&mut self, i: &CompilationInput<P, R, O>) where P: Problem<State = S>, R: Relaxation<State = S>, O: StateRanking<State = S> {
        match self { Dd::A(d) => d.compile(i), Dd::B(d, _) => d.compile(i) }
    }
    pub fn is_exact(&self) -> bool { match self { Dd::A(d) => d.is_exact(), Dd::B(d, _) => d.is_exact() } }
    pub fn best_value(&self) -> Option<isize> { match self { Dd::A(d) => d.best_value(), Dd::B(d, _) => d.best_value() } }
    pub fn best_solution(&self) -> Option<Vec<Decision>> { match self { Dd::A(d) => d.best_solution(), Dd::B(d, _) => d.best_solution() } }
    pub fn explored(&self) -> usize { match self { Dd::A(d) => d.get_explored(), Dd::B(d, _) => d.get_explored() } }
    pub fn drain(&mut self) -> Vec<SubProblem<S>> {
        let mut v = vec![];
        match self { Dd::A(d) => d.drain_cutset(|n| v.push(n)), Dd::B(d, _) => d.drain_cutset(|n| v.push(n)) }
        v
    }
    pub fn forget(&self) { if let Dd::B(_, t) = self { for l in t.iter() { l.write().clear() } } }
    pub fn table(&self) -> Option<&Tab<S>> { match self { Dd::A(_) => None, Dd::B(_, t) => Some(t) } }
}
pub fn pick_width(r: &mut Rng) -> usize { match r.below(10) { 0..=2 => 1, 3..=4 => 2, 5 => 3, 6..=7 => 2 + r.below(8), 8 => 10 + r.below(30), _ => *r.pick(&[100_000, 100_000, usize::MAX]) } }

/// checks that a diagram's best solution is genuine: completes the residual path, worth the reported value
fn genuine<P: Fam>(p: &P, sp: &SubProblem<<P as Problem>::State>, v: isize, sol: &Option<Vec<Decision>>) -> Result<(), Bad>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let sol = match sol { Some(s) => s, None => return viol(format!("best value {v} comes without a solution")) };
    let got = check_solution(p, sol).map_err(Bad::Violation)?;
    if got != v { return viol(format!("best value {v} but the best solution {sol:?} is worth {got}")) }
    for d in &sp.path { if !sol.iter().any(|x| x == d) { return viol(format!("best solution {sol:?} does not extend the residual path {:?}", sp.path)) } }
    Ok(())
}
fn hs<P: Oracle>(p: &P, xs: &[u64]) -> u64 { let mut h = 3; for b in p.describe().bytes() { h = mix(h, b as u64) } for x in xs { h = mix(h, *x) } h }

pub struct Setup { pub cs: CutsetType, pub w: usize }

/// Restricted and exact diagrams.
pub fn restricted(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
        let mut dd = Dd::gen(&mut c.rng, p.nb_variables(), cs);
        for _ in 0..4 {
            let sp = subproblem(&mut c.rng, p);
            let whole = p.nb_variables() > 500 && c.rng.chance(60); // as many nodes and transitions as it has
            let lb = if whole { isize::MIN } else { incumbent(&mut c.rng, p, &sp) };
            let w = if whole { *c.rng.pick(&[100, 119, 100_000, usize::MAX]) } else { pick_width(&mut c.rng) };
            // the same diagram object is reused across modes, as the solvers do
            let comp_type = match c.rng.below(10) { 0..=5 => CompilationType::Restricted, 6..=8 => CompilationType::Exact, _ => CompilationType::Relaxed };
            dd.forget();
            c.describe(&format!("{} / {} {comp_type} cutset={cs} width={w} residual={sp:?} best_lb={lb}", p.describe(), dd.name()));
            let true_best = p.opt_from(&sp.state).map(|o| o + sp.value);
            dd.compile(&CompilationInput { comp_type, max_width: w, problem: p, relaxation: p, ranking: p, residual: sp.clone(), best_lb: lb });
            if comp_type == CompilationType::Relaxed { continue }
            let (v, s, e) = (dd.best_value(), dd.best_solution(), dd.is_exact());
            c.st.add(&format!("{comp_type}_{}", dd.name()), 1);
            match v {
                Some(v) => {
                    genuine(p, &sp, v, &s)?;
                    match true_best { Some(t) if v <= t => {}, _ => return viol(format!("{comp_type} diagram claims {v} but the best completion is {true_best:?}")) }
                }
                None => if s.is_some() { return viol("a solution is reported without a value") },
            }
            if comp_type == CompilationType::Exact && !e { return viol("an exact diagram says it is not exact") }
            if e { if let Some(t) = true_best { if t > lb && v != Some(t) { return viol(format!("{comp_type} diagram says it is exact with best value {v:?}, but the best completion is {t} (incumbent {lb})")) } } }
            if w >= 100_000 && !e { return viol("the width limit was never exceeded, yet the diagram says it is not exact") }
            if !e { c.st.add("inexact", 1) }
            if v.is_some() && sp.path.len() < p.nb_variables() {
                let h = hs(p, &[v.unwrap() as u64, w as u64, sp.path.len() as u64, dd.explored() as u64, lb as u64]);
                let d = p.describe();
                c.nontrivial(h, || format!("{d} / {comp_type} width={w} depth={} best_lb={lb} -> {v:?} exact={e}", sp.path.len()));
            }
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// Relaxed diagrams: bound and exactness claim.
pub fn relaxed(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
        let mut dd = Dd::gen(&mut c.rng, p.nb_variables(), cs);
        for _ in 0..4 {
            let sp = subproblem(&mut c.rng, p);
            let whole = p.nb_variables() > 500 && c.rng.chance(60);
            let lb = if whole { isize::MIN } else { incumbent(&mut c.rng, p, &sp) };
            let w = if whole { *c.rng.pick(&[60, 100, 119, 100_000]) } else { pick_width(&mut c.rng) };
            dd.forget();
            c.describe(&format!("{} / {} relaxed cutset={cs} width={w} residual={sp:?} best_lb={lb}", p.describe(), dd.name()));
            let true_best = p.opt_from(&sp.state).map(|o| o + sp.value);
            p.mon().reset();
            dd.compile(&CompilationInput { comp_type: CompilationType::Relaxed, max_width: w, problem: p, relaxation: p, ranking: p, residual: sp.clone(), best_lb: lb });
            let (v, s, e) = (dd.best_value(), dd.best_solution(), dd.is_exact());
            let merges = p.mon().merge.load(SeqCst);
            c.st.add(if e { "exact" } else { "inexact" }, 1);
            if let Some(t) = true_best { if t > lb && !v.map_or(false, |v| v >= t) { return viol(format!("relaxed diagram bounds the subproblem by {v:?}, but a completion is worth {t} (incumbent {lb})")) } }
            if e {
                if let Some(v) = v {
                    genuine(p, &sp, v, &s)?;
                    if Some(v) > true_best { return viol(format!("relaxed diagram claims the exact value {v} but the best completion is {true_best:?}")) }
                }
                if let Some(t) = true_best { if t > lb && v != Some(t) { return viol(format!("relaxed diagram claims exactness with {v:?} but the best completion is {t}")) } }
                if merges > 0 { c.st.add("exact_despite_merging", 1) }
            }
            if merges == 0 && !e { return viol("no node was merged, yet the diagram says it is not exact") }
            if merges > 0 {
                c.st.add("with_merges", 1);
                let h = hs(p, &[v.unwrap_or(-9) as u64, w as u64, sp.path.len() as u64, dd.explored() as u64, lb as u64]);
                let d = p.describe();
                c.nontrivial(h, || format!("{d} / relaxed {} width={w} depth={} best_lb={lb} -> bound {v:?} (true {true_best:?}) exact={e} merges={merges}", dd.name(), sp.path.len()));
            }
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}

/// potential (value + best completion) of a node
fn pot<P: Fam>(p: &P, s: &<P as Problem>::State, v: isize) -> Option<isize>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync { p.opt_from(s).map(|o| v.saturating_add(o)) }

/// Cutsets of inexact relaxed diagrams.
pub fn cutset(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
        let mut dd = Dd::gen(&mut c.rng, p.nb_variables(), cs);
        for _ in 0..4 {
            let sp = subproblem(&mut c.rng, p);
            let lb = incumbent(&mut c.rng, p, &sp);
            let w = pick_width(&mut c.rng);
            dd.forget();
            c.describe(&format!("{} / {} relaxed cutset={cs} width={w} residual={sp:?} best_lb={lb}", p.describe(), dd.name()));
            let true_best = p.opt_from(&sp.state).map(|o| o + sp.value);
            if c.rng.chance(50) {
                dd.compile(&CompilationInput { comp_type: CompilationType::Restricted, max_width: w, problem: p, relaxation: p, ranking: p, residual: sp.clone(), best_lb: lb });
            }
            dd.compile(&CompilationInput { comp_type: CompilationType::Relaxed, max_width: w, problem: p, relaxation: p, ranking: p, residual: sp.clone(), best_lb: lb });
            if dd.is_exact() { c.st.add("exact_no_cutset_needed", 1); continue }
            let nodes = dd.drain();
            check_cutset(p, &sp, lb, true_best, &nodes)?;
            c.st.add("cutset_nodes", nodes.len() as u64);
            c.st.add(&format!("cutsets_{}_{cs}", dd.name()), 1);
            let h = hs(p, &[nodes.len() as u64, w as u64, sp.path.len() as u64, dd.explored() as u64, lb as u64]);
            let d = p.describe();
            c.nontrivial(h, || format!("{d} / {} {cs} width={w} depth={} best_lb={lb} -> cutset of {} nodes", dd.name(), sp.path.len(), nodes.len()));
        }
        Ok(())
    }
    with_problem!(c, p => go(c, &p))
}
fn check_cutset<P: Fam>(p: &P, sp: &SubProblem<<P as Problem>::State>, lb: isize, true_best: Option<isize>, nodes: &[SubProblem<<P as Problem>::State>]) -> Res
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let mut covered = None;
    for n in nodes {
        if n.path.len() <= sp.path.len() { return viol(format!("cutset node {n:?} is not deeper than the subproblem it comes from")) }
        for d in &sp.path { if !n.path.iter().any(|x| x == d) { return viol(format!("cutset node {n:?} does not extend the residual path")) } }
        match p.replay(&n.path) {
            Err(e) => return viol(format!("cutset node {n:?} is not reachable: {e}")),
            Ok((s, v)) => {
                if s != *n.state { return viol(format!("the path of cutset node {n:?} leads to {s:?}")) }
                if v != n.value { return viol(format!("the path of cutset node {n:?} is worth {v}")) }
            }
        }
        if let Some(t) = pot(p, &n.state, n.value) {
            if t > lb && n.ub < t { return viol(format!("cutset node {n:?} has a completion worth {t}, above its upper bound")) }
            covered = covered.max(Some(t));
        }
    }
    if let Some(t) = true_best { if t > lb && covered < Some(t) { return viol(format!("the subproblem has a completion worth {t} (incumbent {lb}) but its cutset only leads to {covered:?}: {nodes:?}")) } }
    Ok(())
}

/// The width limit is respected.
pub fn width_check<P: Fam>(c: &mut Case, p: &P) -> Res
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let mut dd = Dd::gen(&mut c.rng, p.nb_variables(), cs);
    p.mon().record_layers.store(true, SeqCst);
    for _ in 0..4 {
        let sp = subproblem(&mut c.rng, p);
        let lb = incumbent(&mut c.rng, p, &sp);
        let w = pick_width(&mut c.rng);
        let comp_type = *c.rng.pick(&[CompilationType::Restricted, CompilationType::Relaxed]);
        dd.forget();
        p.mon().reset();
        c.describe(&format!("{} / {} {comp_type} cutset={cs} width={w} residual={sp:?} best_lb={lb}", p.describe(), dd.name()));
        dd.compile(&CompilationInput { comp_type, max_width: WidthHeuristic::<<P as Problem>::State>::max_width(&Fixed(w), &sp.state), problem: p, relaxation: p, ranking: p, residual: sp.clone(), best_lb: lb });
        let ls = p.mon().layers.lock().unwrap().clone();
        let root = p.layer(&sp.state);
        let mut full = 0;
        for (l, &n) in ls.iter().enumerate() {
            if n == 0 { continue }
            let limited = match comp_type { CompilationType::Restricted => true, _ => l > root + 1 };
            if limited && n > w as u64 { return viol(format!("layer {l} of a {comp_type} diagram rooted in layer {root} has {n} expanded states, width limit {w}")) }
            if n == w as u64 { full += 1 }
        }
        let tot: u64 = ls.iter().sum();
        if dd.explored() as u64 != tot { return viol(format!("the diagram reports {} expanded nodes, {} were", dd.explored(), tot)) }
        c.st.add("layers_at_the_limit", full);
        c.st.add("layers", ls.iter().filter(|x| **x > 0).count() as u64);
        if full > 0 {
            let h = hs(p, &[tot, w as u64, sp.path.len() as u64, lb as u64]);
            let d = p.describe();
            c.nontrivial(h, || format!("{d} / {comp_type} width={w} expanded per layer {ls:?}"));
        }
    }
    p.mon().record_layers.store(false, SeqCst);
    Ok(())
}
pub fn width(c: &mut Case) -> Res { with_problem!(c, p => width_check(c, &p)) }

/// Expansion thresholds: whatever table of sound thresholds a barrier diagram starts from, nothing better than
/// what is accounted for elsewhere is lost, and the thresholds it adds are sound.
pub fn thresholds(c: &mut Case) -> Res {
    let sz = size_dd(c);
    let p = Graph::gen(&mut c.rng, sz);
    let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let t: Tab<GSt> = table(p.n);
    let mut dd = Barrier::new(t.clone(), cs);
    // `acc`: the best value accounted for so far by the incumbent or by open subproblems
    let sp = subproblem(&mut c.rng, &p);
    let best = pot(&p, &sp.state, sp.value);
    let lb = incumbent(&mut c.rng, &p, &sp);
    let mut acc = lb;
    let prefill = c.rng.chance(60);
    if prefill {
        if c.rng.chance(50) { if let Some(b) = best { acc = acc.max(b.saturating_add(c.rng.range(-12, 3))) } }
        let root = sp.state.layer as usize;
        for l in root + 1..p.n { for s in 0..p.k[l] {
            if !c.rng.chance(40) { continue }
            let th = match p.opt[l][s] { Some(o) if acc > isize::MIN => acc.saturating_sub(o).saturating_sub(c.rng.range(0, 3)), Some(_) => continue, None => if c.rng.chance(50) { isize::MAX } else { c.rng.range(-50, 50) } };
            t[l].write().insert(Arc::new(GSt { layer: l as u16, set: 1u128 << s }), BarrierInfo { theta: th, explored: c.rng.chance(50) });
        } }
    }
    let w = pick_width(&mut c.rng);
    c.describe(&format!("{} / Barrier cutset={cs} width={w} residual={sp:?} best_lb={lb} accounted={acc} prefilled={prefill}", p.describe()));
    let before: usize = t.iter().map(|l| l.read().len()).sum();
    if c.rng.chance(50) {
        let ty = if c.rng.chance(60) { CompilationType::Restricted } else { CompilationType::Exact };
        dd.compile(&CompilationInput { comp_type: ty, max_width: w, problem: &p, relaxation: &p, ranking: &p, residual: sp.clone(), best_lb: lb });
        if let Some(v) = dd.best_value() {
            genuine(&p, &sp, v, &dd.best_solution())?;
            if Some(v) > best { return viol(format!("{ty} diagram under thresholds claims {v}, best completion {best:?}")) }
        }
        if dd.is_exact() { if let Some(b) = best { if b > acc && dd.best_value() != Some(b) { return viol(format!("{ty} diagram under sound thresholds says it is exact with {:?}; a completion is worth {b}, only {acc} is accounted for", dd.best_value())) } } }
        check_table(&p, &t, if dd.is_exact() { dd.best_value().map_or(acc, |v| v.max(acc)) } else { acc })?;
    }
    dd.compile(&CompilationInput { comp_type: CompilationType::Relaxed, max_width: w, problem: &p, relaxation: &p, ranking: &p, residual: sp.clone(), best_lb: lb });
    let v = dd.best_value();
    let exact = dd.is_exact();
    let mut nodes = vec![];
    if exact {
        if let Some(v) = v { genuine(&p, &sp, v, &dd.best_solution())?; acc = acc.max(v) }
        if Some(acc) < best && best > Some(lb) { return viol(format!("relaxed diagram under sound thresholds says it is exact with {v:?}; a completion is worth {best:?}, only {acc} is accounted for")) }
    } else {
        dd.drain_cutset(|n| nodes.push(n));
        for n in &nodes {
            match p.replay(&n.path) {
                Ok((s, v)) if s == *n.state && v == n.value => {}
                r => return viol(format!("cutset node {n:?} is not genuine: {r:?}")),
            }
            if n.path.len() <= sp.path.len() { return viol(format!("cutset node {n:?} is not deeper than its subproblem")) }
        }
        // open subproblems count for what their upper bound lets the solver find
        for n in &nodes { if let Some(t) = pot(&p, &n.state, n.value) { acc = acc.max(t.min(n.ub)) } }
        if let Some(b) = best { if b > acc { return viol(format!("a completion is worth {b} but after the relaxed diagram only {acc} is accounted for (cutset {nodes:?})")) } }
    }
    check_table(&p, &t, acc)?;
    let entries: usize = t.iter().map(|l| l.read().len()).sum();
    c.st.add("thresholds_checked", entries as u64);
    c.st.add("thresholds_added", entries.saturating_sub(before) as u64);
    c.st.add(if exact { "exact" } else { "inexact" }, 1);
    if entries > 0 && p.mon.merge.load(SeqCst) > 0 {
        let h = hs(&p, &[entries as u64, nodes.len() as u64, w as u64, acc as u64]);
        let d = p.describe();
        c.nontrivial(h, || format!("{d} / width={w} {cs} depth={} best_lb={lb} prefilled={before} -> {entries} thresholds, cutset {}", sp.path.len(), nodes.len()));
    }
    Ok(())
}
fn check_table(p: &Graph, t: &Tab<GSt>, acc: isize) -> Res {
    for (d, l) in t.iter().enumerate() {
        for (s, i) in l.read().iter() {
            if p.is_merged(s) { return viol(format!("a threshold is kept for the merged state {s:?}")) }
            if s.layer as usize != d { return viol(format!("the threshold of {s:?} is filed at depth {d}")) }
            if let Some(o) = p.opt_from(s) {
                let lost = i.theta.saturating_add(o);
                if lost > acc { return viol(format!("threshold {} of {s:?} would prune a completion worth {lost}, but only {acc} is accounted for", i.theta)) }
            }
        }
    }
    Ok(())
}
