//! Checks on how diagrams are made, layer by layer. The calls a compilation makes to the user's model (which nodes were
//! expanded, what was merged into what) are recorded, and the diagram they imply is rebuilt with the same model.
use crate::common::{fam::*, mon::*, rng::*, run::*};
use crate::dds::{incumbent, pick_width, subproblem, Dd};
use crate::solvers::size_dd;
use engineering::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Mutex;

pub enum Ev<S> { Expand(S, Variable), Merge(Vec<S>, S) }
/// the model, remembering what it is asked
pub struct Spy<'a, P: Problem> { p: &'a P, log: Mutex<Vec<Ev<P::State>>> }
impl<'a, P: Problem> Spy<'a, P> { pub fn new(p: &'a P) -> Self { Spy { p, log: Mutex::new(vec![]) } } }
impl<P: Problem> Problem for Spy<'_, P> where P::State: Clone {
    type State = P::State;
    fn nb_variables(&self) -> usize { self.p.nb_variables() }
    fn initial_state(&self) -> P::State { self.p.initial_state() }
    fn initial_value(&self) -> isize { self.p.initial_value() }
    fn transition(&self, s: &P::State, d: Decision) -> P::State { self.p.transition(s, d) }
    fn transition_cost(&self, s: &P::State, d: Decision) -> isize { self.p.transition_cost(s, d) }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &P::State>) -> Option<Variable> { self.p.next_variable(it) }
    fn for_each_in_domain<F>(&self, v: Variable, s: &P::State, f: F) where F: FnMut(Decision) {
        self.log.lock().unwrap().push(Ev::Expand(s.clone(), v));
        self.p.for_each_in_domain(v, s, f)
    }
    fn estimate(&self, s: &P::State) -> isize { self.p.estimate(s) }
}
impl<P> Relaxation for Spy<'_, P> where P: Problem + Relaxation<State = <P as Problem>::State>, <P as Problem>::State: Clone {
    type State = <P as Problem>::State;
    fn merge(&self, it: &mut dyn Iterator<Item = &Self::State>) -> Self::State {
        let v: Vec<_> = it.cloned().collect();
        let m = self.p.merge(&mut v.iter());
        self.log.lock().unwrap().push(Ev::Merge(v, m.clone()));
        m
    }
    fn relax(&self, s: &Self::State, d: &Self::State, m: &Self::State, dec: Decision, c: isize) -> isize { self.p.relax(s, d, m, dec, c) }
}

struct Node<S> { value: isize, inb: Vec<(S, Decision, isize)>, touched: bool }
/// the diagram that the recorded calls imply
struct Rebuilt<S> {
    root: usize,
    /// for each layer: the nodes left in it
    layers: BTreeMap<usize, HashMap<S, Node<S>>>,
    expanded: BTreeMap<usize, HashSet<S>>,
    first_merge: Option<usize>,
    last: usize,
    best: Option<isize>,
}
pub struct Facts { pub left_out: u64, pub merges: u64, pub recycled: u64, pub by_threshold: u64, pub by_bound: u64, pub nodes: u64 }

#[derive(Clone, Copy, PartialEq, Eq)]
enum Judge { Selection, Paths, Useless }

/// how promising: value, then ranking
fn order<P: Fam>(p: &P, a: (&<P as Problem>::State, isize), b: (&<P as Problem>::State, isize)) -> Ordering
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync { a.1.cmp(&b.1).then_with(|| p.compare(a.0, b.0)) }

fn rebuild<P: Fam>(p: &P, i: &CompilationInput<Spy<P>, Spy<P>, P>, log: Vec<Ev<<P as Problem>::State>>, theta: &dyn Fn(usize, &<P as Problem>::State) -> Option<isize>, j: Judge, f: &mut Facts) -> Result<Rebuilt<<P as Problem>::State>, Bad>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    type St<P> = <P as Problem>::State;
    let root = p.layer(&i.residual.state);
    let mut expands: BTreeMap<usize, HashMap<St<P>, Variable>> = BTreeMap::new();
    let mut merges: BTreeMap<usize, (Vec<St<P>>, St<P>)> = BTreeMap::new();
    for e in log {
        match e {
            Ev::Expand(s, v) => {
                let l = p.layer(&s);
                if expands.entry(l).or_default().insert(s.clone(), v).is_some() && j == Judge::Useless { return viol(format!("the state {s:?} is expanded twice in one diagram")) }
            }
            Ev::Merge(v, m) => { let l = p.layer(&m); if merges.insert(l, (v, m)).is_some() { return skip("two merges in one layer") } }
        }
    }
    let mut r = Rebuilt { root, layers: BTreeMap::new(), expanded: BTreeMap::new(), first_merge: None, last: root, best: None };
    let mut cur: HashMap<St<P>, Node<St<P>>> = HashMap::new();
    cur.insert((*i.residual.state).clone(), Node { value: i.residual.value, inb: vec![], touched: false });
    let w = i.max_width;
    let mut l = root;
    let n = p.nb_variables();
    loop {
        f.nodes += cur.len() as u64;
        if l == n || cur.is_empty() { break }
        let ex = expands.remove(&l).unwrap_or_default();
        let touched_before = r.first_merge.is_some();
        // nodes that the thresholds recorded before this compilation discard; below a merge this is for the diagram to decide
        let low: HashSet<St<P>> = if l == root { HashSet::new() } else { cur.iter().filter(|(s, x)| theta(l, s).map_or(false, |t| x.value <= t)).map(|x| x.0.clone()).collect() };
        if j == Judge::Useless && !touched_before { for s in &low { if ex.contains_key(s) && merges.get(&l).map_or(true, |m| m.1 != *s) {
            return viol(format!("the node {s:?} of value {} in layer {l} is expanded although its threshold {:?} says it is of no use", cur[s].value, theta(l, s))) } } }
        let mut out = None;
        if let Some((ins, m)) = merges.remove(&l) {
            f.merges += 1;
            if i.comp_type != CompilationType::Relaxed { return viol(format!("nodes are merged in a {} diagram", i.comp_type)) }
            let set: HashSet<St<P>> = ins.iter().cloned().collect();
            if set.len() != ins.len() && j == Judge::Selection { return viol(format!("a state is merged with itself in layer {l}: {ins:?}")) }
            for s in &set { if !cur.contains_key(s) { return skip("merge of a state that no expansion leads to") } }
            if j == Judge::Selection {
                if l <= root + 1 { return viol(format!("nodes are merged in layer {l} of a diagram whose root is in layer {root}")) }
                let (most, least) = (cur.len(), cur.len() - low.len());
                if touched_before { if most <= w { return viol(format!("{} nodes of layer {l} are merged although it has only {most}, for a width of {w}", set.len())) } }
                else if least <= w { return viol(format!("{} nodes of layer {l} are merged although it has only {least}, for a width of {w}", set.len())) }
                if set.len() + (w - 1) > most { return viol(format!("{} nodes of {most} are merged in layer {l}, more than the width of {w} demands", set.len())) }
                if !touched_before && set.len() + (w - 1) != least { return viol(format!("{} nodes of {least} are merged in layer {l}, for a width of {w}", set.len())) }
                if !touched_before { if let Some(s) = set.iter().find(|s| low.contains(s)) { return viol(format!("the node {s:?} of layer {l}, which its threshold discards, is merged")) } }
                for (s, x) in cur.iter() {
                    if set.contains(s) || low.contains(s) { continue }
                    for d in &ins { if order(p, (s, x.value), (d, cur[d].value)) == Ordering::Less {
                        return viol(format!("in layer {l} the node {d:?} of value {} is merged while {s:?} of value {}, which is less promising, is kept", cur[d].value, x.value)) } }
                }
            }
            if r.first_merge.is_none() { r.first_merge = Some(l) }
            let mut val = isize::MIN;
            let mut inb = vec![];
            for d in &set {
                for (src, dec, c) in &cur[d].inb {
                    let rc = p.relax(src, d, &m, *dec, *c);
                    let sv = r.layers[&(l - 1)][src].value;
                    val = val.max(sv.saturating_add(rc));
                    inb.push((src.clone(), *dec, rc));
                }
            }
            if low.contains(&m) && !set.contains(&m) {
                // a merge that gives a state which its threshold discards: another node than the one discarded
                if touched_before { return skip("whether the merged node is the discarded one is for the diagram to decide") }
                cur.remove(&m);
            }
            let kept = cur.contains_key(&m) && !set.contains(&m);
            // when the merge gives a kept state there is room for one of the merged nodes beside it
            let spared = if kept { ins.iter().filter(|s| ex.contains_key(*s)).cloned().collect::<Vec<_>>() } else { vec![] };
            if kept { f.recycled += 1 }
            if spared.len() > 1 && j == Judge::Selection { return viol(format!("{} of the merged nodes of layer {l} are expanded all the same", spared.len())) }
            cur.retain(|s, _| !set.contains(s) || spared.contains(s));
            match cur.get_mut(&m) {
                Some(x) => { x.value = x.value.max(val); x.inb.extend(inb); x.touched = true }
                None => { cur.insert(m.clone(), Node { value: val, inb, touched: true }); }
            }
            out = Some(m);
        }
        for (s, x) in &cur {
            let est = p.estimate(s);
            let promising = est.saturating_add(x.value) > i.best_lb;
            if ex.contains_key(s) {
                if j == Judge::Useless && !promising { return viol(format!("the node {s:?} of value {} in layer {l} is expanded although its bound {est} cannot beat the incumbent {}", x.value, i.best_lb)) }
            } else if !promising { f.by_bound += 1 }
            else if low.contains(s) { f.by_threshold += 1 }
            else {
                // left out for want of room
                f.left_out += 1;
                if j == Judge::Selection {
                    if i.comp_type != CompilationType::Restricted { return viol(format!("the node {s:?} of value {} in layer {l} is left out of a {} diagram although it could beat the incumbent {}", x.value, i.comp_type, i.best_lb)) }
                    let room = cur.iter().filter(|(t, y)| *t != s && !low.contains(*t) && order(p, (t, y.value), (s, x.value)) != Ordering::Less).count();
                    if room < w { return viol(format!("the node {s:?} of value {} in layer {l} is left out although only {room} others are as promising, for a width of {w}", x.value)) }
                }
            }
        }
        if out.is_none() && i.comp_type == CompilationType::Restricted && j == Judge::Selection {
            // of two nodes that could improve, the more promising one is kept
            for (s, x) in &cur {
                if ex.contains_key(s) || low.contains(s) || p.estimate(s).saturating_add(x.value) <= i.best_lb { continue }
                for t in ex.keys() { if let Some(y) = cur.get(t) { if order(p, (t, y.value), (s, x.value)) == Ordering::Less {
                    return viol(format!("in layer {l} the node {t:?} of value {} is kept while {s:?} of value {}, which is more promising, is left out", y.value, x.value)) } } }
            }
        }
        let mut next: HashMap<St<P>, Node<St<P>>> = HashMap::new();
        let mut done = HashSet::new();
        for (s, var) in ex {
            let x = match cur.get(&s) { Some(x) => x, None => return skip("expansion of a state that nothing leads to") };
            let mut ds = vec![];
            p.for_each_in_domain(var, &s, |d| ds.push(d));
            for d in ds {
                let t = p.transition(&s, d);
                let c = p.transition_cost(&s, d);
                let v = x.value.saturating_add(c);
                let e = next.entry(t).or_insert_with(|| Node { value: isize::MIN, inb: vec![], touched: false });
                e.value = e.value.max(v);
                e.touched |= x.touched;
                e.inb.push((s.clone(), d, c));
            }
            done.insert(s);
        }
        r.expanded.insert(l, done);
        r.layers.insert(l, std::mem::replace(&mut cur, next));
        l += 1;
    }
    r.last = l;
    if l == n { r.best = cur.values().map(|x| x.value).max() }
    r.layers.insert(l, cur);
    if !expands.is_empty() || !merges.is_empty() { return skip("calls below the last layer") }
    Ok(r)
}

/// the nodes expanded in layers above the first merge, with their values, and how many merges there were
pub fn above_first_merge<P: Fam>(p: &P, i: &CompilationInput<Spy<P>, Spy<P>, P>, spy: &Spy<P>) -> Result<(Vec<(usize, <P as Problem>::State, isize)>, u64), Bad>
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    let mut f = Facts { left_out: 0, merges: 0, recycled: 0, by_threshold: 0, by_bound: 0, nodes: 0 };
    let log = std::mem::take(&mut *spy.log.lock().unwrap());
    let r = rebuild(p, i, log, &|_, _| None, Judge::Paths, &mut f)?;
    let mut v = vec![];
    for (l, ex) in &r.expanded { if r.first_merge.map_or(true, |m| *l < m) { for s in ex { v.push((*l, s.clone(), r.layers[l][s].value)) } } }
    Ok((v, f.merges))
}
fn suffixes<S: Eq + Hash + Clone>(r: &Rebuilt<S>, n: usize) -> BTreeMap<usize, HashMap<S, isize>> {
    let mut suf: BTreeMap<usize, HashMap<S, isize>> = BTreeMap::new();
    if r.last == n { suf.insert(n, r.layers[&n].keys().map(|s| (s.clone(), 0)).collect()); }
    for l in (r.root + 1..=r.last).rev() {
        let mut up: HashMap<S, isize> = HashMap::new();
        if let Some(here) = suf.get(&l) {
            for (s, b) in here { for (src, _, c) in &r.layers[&l][s].inb {
                let v = b.saturating_add(*c);
                let e = up.entry(src.clone()).or_insert(v);
                *e = (*e).max(v);
            } }
        }
        suf.insert(l - 1, up);
    }
    suf
}

fn go<P: Fam>(c: &mut Case, p: &P, j: Judge) -> Res
where <P as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {
    set_hook(None);
    let cs = *c.rng.pick(&[CutsetType::LastExactLayer, CutsetType::Frontier]);
    let mut dd: Dd<<P as Problem>::State> = Dd::gen(&mut c.rng, p.nb_variables(), cs);
    let spy = Spy::new(p);
    for _ in 0..5 {
        let sp = subproblem(&mut c.rng, p);
        let lb = incumbent(&mut c.rng, p, &sp);
        let w = pick_width(&mut c.rng);
        let comp_type = match c.rng.below(20) { 0..=8 => CompilationType::Restricted, 9..=18 => CompilationType::Relaxed, _ => CompilationType::Exact };
        // a table left by earlier compilations is part of the input
        if c.rng.chance(if j == Judge::Paths { 60 } else { 35 }) { dd.forget() }
        let table: Vec<HashMap<<P as Problem>::State, isize>> = dd.table().map_or(vec![], |t| t.iter().map(|l| l.read().iter().map(|(s, i)| ((**s).clone(), i.theta)).collect()).collect());
        let held: usize = table.iter().map(|l| l.len()).sum();
        let theta = |l: usize, s: &<P as Problem>::State| table.get(l).and_then(|t| t.get(s)).copied();
        c.describe(&format!("{} / {} {comp_type} cutset={cs} width={w} residual={sp:?} best_lb={lb} thresholds={held}", p.describe(), dd.name()));
        spy.log.lock().unwrap().clear();
        let input = CompilationInput { comp_type, max_width: w, problem: &spy, relaxation: &spy, ranking: p, residual: sp.clone(), best_lb: lb };
        dd.compile(&input);
        let log = std::mem::take(&mut *spy.log.lock().unwrap());
        let mut f = Facts { left_out: 0, merges: 0, recycled: 0, by_threshold: 0, by_bound: 0, nodes: 0 };
        let r = rebuild(p, &input, log, &theta, j, &mut f)?;
        let (v, exact) = (dd.best_value(), dd.is_exact());
        let mut cut = 0;
        if j == Judge::Paths {
            if v != r.best { return viol(format!("the best value of the {comp_type} diagram is {v:?}, but its longest path is worth {:?}", r.best)) }
            if comp_type == CompilationType::Relaxed && !exact {
                let suf = suffixes(&r, p.nb_variables());
                let nodes = dd.drain();
                cut = nodes.len();
                let first = match r.first_merge { Some(l) => l, None => return viol("nothing was merged, yet there is a cutset") };
                for x in &nodes {
                    let l = p.layer(&x.state);
                    if x.ub > v.unwrap_or(isize::MIN) { return viol(format!("the bound of the cutset node {x:?} exceeds that of the diagram, {v:?}")) }
                    if cs == CutsetType::LastExactLayer && l + 1 != first { return viol(format!("the first merge is in layer {first}, yet {x:?} of layer {l} is in the cutset (last exact layer)")) }
                    if cs == CutsetType::Frontier && l + 1 < first { return viol(format!("the first merge is in layer {first}, yet {x:?} of layer {l} is in the cutset (frontier)")) }
                    let node = match r.layers.get(&l).and_then(|m| m.get(&*x.state)) { Some(n) => n, None => return viol(format!("the cutset node {x:?} is not in the diagram")) };
                    if node.value != x.value { return viol(format!("the cutset node {x:?} is worth {} in the diagram", node.value)) }
                    if l < p.nb_variables() { let e = p.estimate(&x.state); if x.ub > x.value.saturating_add(e) { return viol(format!("the bound of the cutset node {x:?} exceeds its value plus its estimate {e}")) } }
                    match suf.get(&l).and_then(|m| m.get(&*x.state)) {
                        None => return viol(format!("the cutset node {x:?} leads nowhere in the diagram")),
                        Some(b) => if x.ub > x.value.saturating_add(*b) { return viol(format!("the bound of the cutset node {x:?} exceeds that of the longest path through it, {}", x.value.saturating_add(*b))) },
                    }
                }
                let distinct: HashSet<_> = nodes.iter().map(|x| (*x.state).clone()).collect();
                if distinct.len() != nodes.len() { return viol(format!("a state occurs twice in the cutset {nodes:?}")) }
                c.st.add("cutset_nodes", cut as u64);
            }
            c.st.add(if v.is_some() { "longest_paths_compared" } else { "without_a_path" }, 1);
        } else if j == Judge::Useless || comp_type != CompilationType::Relaxed { /* only the layers were to be judged */ }
        c.st.add(&format!("diagrams_{}_{comp_type}", dd.name()), 1);
        for (k, n) in [("merges", f.merges), ("merges_that_gave_a_kept_state", f.recycled), ("left_out_for_want_of_room", f.left_out), ("discarded_by_threshold", f.by_threshold), ("discarded_by_bound", f.by_bound), ("nodes", f.nodes)] { c.st.add(k, n) }
        let interesting = match j { Judge::Selection => f.merges + f.left_out > 0, Judge::Paths => v.is_some() && (comp_type != CompilationType::Relaxed || f.merges > 0), Judge::Useless => f.by_bound + f.by_threshold > 0 };
        if interesting {
            let d = p.describe();
            let mut h = state_hash(&d);
            for x in [w as u64, sp.path.len() as u64, lb as u64, f.nodes, f.merges, v.unwrap_or(-3) as u64, cut as u64] { h = mix(h, x) }
            c.nontrivial(h, || format!("{d} / {} {comp_type} {cs} width={w} depth={} best_lb={lb}: {} nodes, {} merges, {} left out, {} discarded by bound, {} by threshold, cutset of {cut}", dd.name(), sp.path.len(), f.nodes, f.merges, f.left_out, f.by_bound, f.by_threshold));
        }
    }
    Ok(())
}
macro_rules! with_problem {
    ($c:expr, $p:ident => $body:expr) => {{
        let sz = size_dd($c);
        if $c.rng.chance(75) { let $p = Graph::gen(&mut $c.rng, sz); $body } else { let $p = Knap::gen(&mut $c.rng, sz); $body }
    }};
}
/// who is dropped or merged
pub fn selection(c: &mut Case) -> Res { with_problem!(c, p => go(c, &p, Judge::Selection)) }
/// values and bounds are those of longest paths
pub fn paths(c: &mut Case) -> Res { with_problem!(c, p => go(c, &p, Judge::Paths)) }
/// nothing useless is expanded
pub fn useless(c: &mut Case) -> Res { with_problem!(c, p => go(c, &p, Judge::Useless)) }
