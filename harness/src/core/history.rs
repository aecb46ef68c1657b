//! What diagrams keep from one compilation to the next: nothing but the table of thresholds they share.
use crate::common::{fam::*, mon::*, rng::*, run::*};
use crate::dds::{incumbent, pick_width, subproblem, table, Dd};
use crate::solvers::size_dd;
use engineering::*;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::Hash;

/// The problem with costs spread so that no two paths have the same length, under a ranking without ties: then the
/// diagram does not depend on the order in which equals are considered. (The relaxation is only as good up to the spread.)
struct Spread<'a, P>(&'a P);
const M: isize = 1 << 40;
impl<P: Fam> Spread<'_, P> where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    fn h(&self, s: &<P as Problem>::State, d: Decision) -> isize { (mix(state_hash(s), (d.var.id() as u64) << 32 ^ d.value as u64) % (1 << 36)) as isize }
}
fn big(x: isize) -> isize { if x == isize::MAX || x == isize::MIN { x } else { x.saturating_mul(M) } }
impl<P: Fam> Problem for Spread<'_, P> where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    type State = <P as Problem>::State;
    fn nb_variables(&self) -> usize { self.0.nb_variables() }
    fn initial_state(&self) -> Self::State { self.0.initial_state() }
    fn initial_value(&self) -> isize { big(self.0.initial_value()) }
    fn transition(&self, s: &Self::State, d: Decision) -> Self::State { self.0.transition(s, d) }
    fn transition_cost(&self, s: &Self::State, d: Decision) -> isize { big(self.0.transition_cost(s, d)) + self.h(s, d) }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Option<Variable> { self.0.next_variable(it) }
    fn for_each_in_domain<F>(&self, v: Variable, s: &Self::State, f: F) where F: FnMut(Decision) { self.0.for_each_in_domain(v, s, f) }
    fn estimate(&self, s: &Self::State) -> isize { big(self.0.estimate(s).saturating_add(1)) }
}
impl<P: Fam> Relaxation for Spread<'_, P> where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    type State = <P as Problem>::State;
    fn merge(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Self::State { self.0.merge(it) }
    fn relax(&self, s: &Self::State, d: &Self::State, m: &Self::State, dec: Decision, c: isize) -> isize { big(self.0.relax(s, d, m, dec, c.div_euclid(M))) + c.rem_euclid(M) }
}
impl<P: Fam> StateRanking for Spread<'_, P> where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    type State = <P as Problem>::State;
    fn compare(&self, a: &Self::State, b: &Self::State) -> Ordering { self.0.compare(a, b).then_with(|| format!("{a:?}").cmp(&format!("{b:?}"))) }
}

#[derive(PartialEq, Debug)]
struct Outcome { value: Option<isize>, solution: Option<Vec<(usize, isize)>>, exact: bool, explored: usize, cutset: Option<Vec<(String, isize, isize, Vec<(usize, isize)>)>>, table: Option<BTreeMap<(usize, String), (isize, bool)>> }
fn decs(v: &[Decision]) -> Vec<(usize, isize)> { let mut x: Vec<_> = v.iter().map(|d| (d.var.id(), d.value)).collect(); x.sort(); x }
fn outcome<S: Eq + Hash + Clone + Debug>(r: &mut Rng, dd: &mut Dd<S>, relaxed: bool, drain: bool) -> Result<Outcome, Bad> {
    let (value, solution, exact, explored) = (dd.best_value(), dd.best_solution(), dd.is_exact(), dd.explored());
    // asking changes nothing
    for _ in 0..r.below(3) {
        if dd.best_solution() != solution || dd.best_value() != value || dd.is_exact() != exact || dd.explored() != explored { return viol("asked again, the diagram answers otherwise") }
    }
    let cutset = (relaxed && drain).then(|| { let mut v: Vec<_> = dd.drain().into_iter().map(|n| (format!("{:?}", n.state), n.value, n.ub, decs(&n.path))).collect(); v.sort(); v });
    if cutset.is_some() && (dd.best_value() != value || dd.best_solution() != solution || dd.is_exact() != exact) { return viol("once its cutset has been handed out, the diagram answers otherwise") }
    let table = dd.table().map(|t| t.iter().enumerate().flat_map(|(l, m)| m.read().iter().map(|(s, i)| ((l, format!("{s:?}")), (i.theta, i.explored))).collect::<Vec<_>>()).collect());
    Ok(Outcome { value, solution: solution.map(|s| decs(&s)), exact, explored, cutset, table })
}

/// A diagram that has been used before answers like a new one; with no threshold recorded, both kinds of diagrams answer alike.
pub fn fresh(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
        let m = Spread(p);
        let n = p.nb_variables();
        let barrier = c.rng.chance(60);
        let (t1, t2) = (table(n), table(n));
        let mut used = if barrier { Dd::B(Barrier::new(t1.clone(), cs), t1.clone()) } else { Dd::A(All::new(cs)) };
        let (mut total, mut cut) = (0, 0);
        let k = 2 + c.rng.below(5);
        for step in 0..k {
            let sp = subproblem(&mut c.rng, p);
            let lb = big(incumbent(&mut c.rng, p, &sp));
            let w = pick_width(&mut c.rng);
            let comp_type = match c.rng.below(20) { 0..=5 => CompilationType::Restricted, 6..=18 => CompilationType::Relaxed, _ => CompilationType::Exact };
            let value = p.replay(&sp.path).map_or(0, |_| { let mut s = m.initial_state(); let mut v = m.initial_value(); let mut left = sp.path.clone();
                while !left.is_empty() { let var = match m.next_variable(&mut std::iter::once(&s)) { Some(v) => v, None => break }; let k = match left.iter().position(|d| d.var == var) { Some(k) => k, None => break }; let d = left.swap_remove(k); v += m.transition_cost(&s, d); s = m.transition(&s, d) } v });
            let sp = SubProblem { value, ub: if sp.ub == isize::MAX { sp.ub } else { big(sp.ub.saturating_add(1)) }, ..sp };
            let forget = c.rng.chance(20);
            if forget { for t in [&t1, &t2] { for l in t.iter() { l.write().clear() } } }
            c.describe(&format!("{} / {} {comp_type} cutset={cs} width={w} residual={sp:?} best_lb={lb}, compilation {step} of the diagram", p.describe(), if barrier { "Barrier" } else { "All" }));
            let empty = t1.iter().all(|l| l.read().is_empty());
            let input = CompilationInput { comp_type, max_width: w, problem: &m, relaxation: &m, ranking: &m, residual: sp, best_lb: lb };
            let drain = c.rng.chance(70);
            let relaxed = comp_type == CompilationType::Relaxed;
            used.compile(&input);
            let a = outcome(&mut c.rng, &mut used, relaxed, drain)?;
            let mut new = if barrier { Dd::B(Barrier::new(t2.clone(), cs), t2.clone()) } else { Dd::A(All::new(cs)) };
            new.compile(&input);
            let b = outcome(&mut c.rng, &mut new, relaxed, drain)?;
            // a relaxed diagram without thresholds may or may not notice that its best path is genuine, depending on the order of its nodes
            let unsure = !barrier && relaxed && a.exact != b.exact;
            if unsure { c.st.add("exactness_noticed_once", 1) }
            let same = if unsure { (a.value, &a.solution, a.explored) == (b.value, &b.solution, b.explored) } else { a == b };
            if !same { return viol(format!("a diagram used {step} times before answers {a:?}, a new one {b:?}")) }
            c.st.add("compared_with_a_new_one", 1);
            if empty {
                let t3 = table(n);
                let mut other = if barrier { Dd::A(All::new(cs)) } else { Dd::B(Barrier::new(t3.clone(), cs), t3) };
                other.compile(&input);
                let o = outcome(&mut c.rng, &mut other, relaxed, drain)?;
                // a node of the barrier diagram counts as exact when its best path is, so that frontiers and claims of exactness differ
                let both = !o.exact && !b.exact && cs == CutsetType::LastExactLayer;
                let cut = |x: Outcome| Outcome { table: None, exact: false, cutset: if both { x.cutset } else { None }, ..x };
                let (o, b) = (cut(o), cut(b));
                if o != b { return viol(format!("without thresholds the other kind of diagram answers {o:?}, this one {b:?}")) }
                c.st.add("compared_with_the_other_kind", 1);
            }
            total += a.explored;
            cut += a.cutset.as_ref().map_or(0, |x| x.len());
            c.st.add("cutset_nodes_compared", a.cutset.as_ref().map_or(0, |x| x.len()) as u64);
            c.st.add("thresholds_compared", a.table.as_ref().map_or(0, |x| x.len()) as u64);
            c.st.add(&format!("{}{comp_type}", if a.exact { "exact_" } else { "inexact_" }), 1);
        }
        if total > 5 {
            let d = p.describe();
            let h = mix(mix(state_hash(&d), total as u64), cut as u64);
            c.nontrivial(h, || format!("{d} / {} {cs}, {k} compilations of {total} nodes, {cut} cutset nodes", if barrier { "Barrier" } else { "All" }));
        }
        Ok(())
    }
    let sz = size_dd(c);
    if c.rng.chance(75) {
        // room for the spread
        let mut p = Graph::gen(&mut c.rng, sz);
        while !p.label.contains("scale=1 ") && !p.label.contains("scale=13 ") { p = Graph::gen(&mut c.rng, sz) }
        go(c, &p)
    } else { let p = Knap::gen(&mut c.rng, sz); go(c, &p) }
}

/// Thresholds only rise, and what a relaxed diagram has expanded has one.
pub fn rising(c: &mut Case) -> Res {
    fn go<P: Fam>(c: &mut Case, p: &P) -> Res
    where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
        set_hook(None);
        let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
        let n = p.nb_variables();
        let t = table(n);
        let two = c.rng.chance(50);
        let mut dds = [Dd::B(Barrier::new(t.clone(), cs), t.clone()), Dd::B(Barrier::new(t.clone(), cs), t.clone())];
        let (mut raised, mut needed, mut merges) = (0, 0, 0);
        let start = subproblem(&mut c.rng, p);
        let mut before: BTreeMap<usize, std::collections::HashMap<<P as Problem>::State, isize>> = BTreeMap::new();
        for _ in 0..3 + c.rng.below(4) {
            // often the same root again, so that thresholds meet
            let sp = if c.rng.chance(60) { start.clone() } else { subproblem(&mut c.rng, p) };
            let lb = incumbent(&mut c.rng, p, &sp);
            let w = pick_width(&mut c.rng);
            let comp_type = match c.rng.below(20) { 0..=3 => CompilationType::Restricted, 4..=18 => CompilationType::Relaxed, _ => CompilationType::Exact };
            let dd = &mut dds[if two { c.rng.below(2) } else { 0 }];
            c.describe(&format!("{} / Barrier {comp_type} cutset={cs} width={w} residual={sp:?} best_lb={lb} thresholds={}", p.describe(), before.values().map(|m| m.len()).sum::<usize>()));
            let spy = crate::layers::Spy::new(p);
            let input = CompilationInput { comp_type, max_width: w, problem: &spy, relaxation: &spy, ranking: p, residual: sp.clone(), best_lb: lb };
            dd.compile(&input);
            let layers = crate::layers::above_first_merge(p, &input, &spy)?;
            if comp_type == CompilationType::Relaxed && c.rng.chance(50) { dd.drain(); }
            let after: BTreeMap<usize, std::collections::HashMap<_, isize>> = t.iter().enumerate().map(|(l, m)| (l, m.read().iter().map(|(s, i)| ((**s).clone(), i.theta)).collect())).collect();
            for (l, m) in &before { for (s, x) in m {
                match after[l].get(s) {
                    None => return viol(format!("the threshold {x} of {s:?} in layer {l} has been lost")),
                    Some(y) if y < x => return viol(format!("the threshold of {s:?} in layer {l} has fallen from {x} to {y}")),
                    Some(y) => raised += (y > x) as u64,
                }
            } }
            if comp_type == CompilationType::Relaxed {
                merges += layers.1;
                for (l, s, v) in layers.0 {
                    needed += 1;
                    match after[&l].get(&s) {
                        Some(x) if *x >= v => {}
                        x => return viol(format!("{s:?} in layer {l} has been expanded with value {v} above the first merge, but the threshold left for it is {x:?}")),
                    }
                }
            }
            before = after;
        }
        for (k, x) in [("thresholds_raised", raised), ("expanded_nodes_with_threshold", needed), ("merges", merges)] { c.st.add(k, x) }
        if raised > 0 || (needed > 3 && merges > 0) {
            let d = p.describe();
            let h = mix(mix(mix(state_hash(&d), needed), raised), merges);
            c.nontrivial(h, || format!("{d} / {cs}: {needed} expanded nodes with a threshold, {raised} thresholds raised, {merges} merges"));
        }
        Ok(())
    }
    let sz = size_dd(c);
    if c.rng.chance(75) { let p = Graph::gen(&mut c.rng, sz); go(c, &p) } else { let p = Knap::gen(&mut c.rng, sz); go(c, &p) }
}
