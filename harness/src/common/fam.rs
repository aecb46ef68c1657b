//! Generated optimisation problems with exact oracles.
//!
//! Each family implements the four user traits of the library (problem, relaxation, ranking and, through
//! `Wd`, width heuristic) on purely harness-owned data, honours their contracts by construction, and knows its
//! own exact optimum from every state by an independent dynamic program.
use super::mon::*;
use super::rng::*;
use engineering::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

pub trait Oracle: Problem + Sync + Send {
    fn mon(&self) -> &Mon;
    /// optimum of the completions of a genuine (non merged) state; None: infeasible
    fn opt_from(&self, s: &Self::State) -> Option<isize>;
    /// upper bound on the number of distinct states
    fn is_terminal(&self, s: &Self::State) -> bool;
    fn layer(&self, s: &Self::State) -> usize;
    fn is_merged(&self, s: &Self::State) -> bool;
    /// genuine successors, in decision order
    fn succ(&self, s: &Self::State) -> Vec<(Decision, Self::State, isize)>;
    /// a genuine walk: interprets the decisions (a map variable -> value, at most one per variable) from the
    /// initial state and returns the state reached and the value accumulated
    fn replay(&self, ds: &[Decision]) -> Result<(Self::State, isize), String>;
    /// distinct values of the genuine paths reaching the state (capped)
    fn describe(&self) -> String;
    fn opt_total(&self) -> Option<isize> {
        self.opt_from(&self.initial_state()).map(|o| o + self.initial_value())
    }
}

pub trait Fam: Oracle + Relaxation<State = <Self as Problem>::State> + StateRanking<State = <Self as Problem>::State>
where <Self as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {}
impl<T> Fam for T where T: Oracle + Relaxation<State = <T as Problem>::State> + StateRanking<State = <T as Problem>::State>,
    <T as Problem>::State: Eq + Hash + Clone + Debug + Send + Sync {}

/// replays a complete solution and checks it is one: every variable exactly once, feasible
pub fn check_solution<P: Oracle>(p: &P, sol: &[Decision]) -> Result<isize, String> {
    if sol.len() != p.nb_variables() {
        return Err(format!("solution has {} decisions for {} variables: {:?}", sol.len(), p.nb_variables(), sol));
    }
    let (s, v) = p.replay(sol)?;
    if !p.is_terminal(&s) { return Err(format!("solution does not reach a terminal state: {:?}", sol)); }
    Ok(v)
}

pub fn state_hash<S: Hash>(s: &S) -> u64 {
    // independent of the hooks: Hash impl fires callbacks, so bypass with a plain hasher
    let mut h = std::collections::hash_map::DefaultHasher::new();
    struct Back;
    impl Drop for Back { fn drop(&mut self) { WHOLE.with(|w| w.set(false)) } }
    WHOLE.with(|w| w.set(true));
    let _back = Back;
    s.hash(&mut h);
    h.finish()
}

/// How much of a state its hash depends on in this case. A hash that tells few states apart, or none, is legal: equal
/// states must have equal hashes, not the converse.
pub static COARSE: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
thread_local! { static WHOLE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn coarseness(seed: u64) { COARSE.store(match mix(seed, 0xC0A5) % 100 { 0..=3 => 1, 4..=7 => 2, 8..=13 => 3, _ => 0 }, std::sync::atomic::Ordering::SeqCst) }
pub fn coarse() -> u8 { if WHOLE.with(|w| w.get()) { 0 } else { COARSE.load(std::sync::atomic::Ordering::Relaxed) } }

// ------------------------------------------------------------------------------------------------
// Family 1: random layered graphs, states = sets of graph nodes (singletons are the genuine ones)
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct GSt { pub layer: u16, pub set: u128 }
impl PartialEq for GSt { fn eq(&self, o: &Self) -> bool { self.layer == o.layer && self.set == o.set } }
impl Eq for GSt {}
impl Hash for GSt {
    fn hash<H: Hasher>(&self, h: &mut H) {
        fire(Cb::Hash);
        match coarse() {
            0 => {}
            1 => return h.write_u64(7),
            2 => return h.write_u64(self.layer as u64),
            _ => return h.write_u64((self.layer as u64) << 2 | self.set as u64 & 3),
        }
        h.write_u64(self.layer as u64);
        h.write_u64(self.set as u64);
        h.write_u64((self.set >> 64) as u64);
    }
}

#[derive(Clone, Debug)]
pub struct Arc_ { pub val: isize, pub dst: u8, pub cost: isize }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EstMode { None, Exact, Noisy, Layer }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MergeMode { Union, Top, Noise }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RankMode { Equal, HashR, SetR }

pub struct Graph {
    pub n: usize,
    pub vars: Vec<usize>,
    pub k: Vec<usize>,
    pub arcs: Vec<Vec<Vec<Arc_>>>,
    pub init_value: isize,
    pub est: EstMode,
    pub merge_mode: MergeMode,
    pub rank: RankMode,
    pub slack: isize,
    pub pi: isize,
    pub noise: isize,
    pub salt: u64,
    pub opt: Vec<Vec<Option<isize>>>,
    pub layer_best: Vec<Option<isize>>,
    pub mon: Mon,
    pub check_contract: bool,
    pub label: String,
}

/// values near the ends of their type, for the checks that do not judge answers
pub static EXTREME: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Size { Tiny, Small, Medium, Large, Long, Huge }

impl Graph {
    pub fn gen(r: &mut Rng, size: Size) -> Graph {
        let (n, kmax, dmax) = match size {
            Size::Tiny => (r.below(5), 1 + r.below(3), 1 + r.below(3)),
            Size::Small => (2 + r.below(5), 2 + r.below(5), 2 + r.below(3)),
            Size::Medium => (4 + r.below(6), 3 + r.below(10), 2 + r.below(4)),
            Size::Large => (6 + r.below(12), 8 + r.below(56), 2 + r.below(5)),
            // more variables than a byte can number; more nodes in one diagram than two bytes can
            Size::Long => (250 + r.below(400), 1 + r.below(3), 1 + r.below(2)),
            Size::Huge => (560 + r.below(60), 120, 3),
        };
        let vast = matches!(size, Size::Long | Size::Huge);
        // problems whose bounds leave much to search
        let hard = !vast && r.chance(45);
        let kmax = if hard { kmax.max(3) } else { kmax };
        let dmax = if hard { dmax.max(2) } else { dmax };
        let cmax: isize = if hard { *r.pick(&[3, 5, 10, 20, 100]) } else { *r.pick(&[0, 1, 2, 3, 5, 10, 20, 100]) };
        // the last scale makes total values reach about 2^57
        let scale: isize = match r.below(10) { 0..=4 => 1, 5..=6 => 13, 7 => 1_000_003, 8 => 1 << 40, _ => (1isize << 57) / ((n as isize + 4) * (cmax + 21)) };
        let scale = if EXTREME.load(std::sync::atomic::Ordering::Relaxed) { (1isize << 61) / ((n as isize + 4) * (cmax + 21)) } else { scale };
        let sign = r.below(4); // 0: mixed, 1: nonneg, 2: nonpos, 3: potential costs (every path to a state has one value)
        let mut k = vec![1usize];
        for l in 1..=n {
            let kk = if l == n && r.chance(35) { 1 } else { 1 + r.below(kmax) };
            k.push(kk.min(120));
        }
        if hard || size == Size::Huge || r.chance(70) { for l in 1..n { k[l] = k[l].max(kmax.min(120)); } }
        let dead = if vast { 0 } else if hard { *r.pick(&[0, 0, 0, 5, 15]) } else { *r.pick(&[0, 0, 0, 5, 15, 30]) };
        let phi: Vec<Vec<isize>> = k.iter().map(|&kk| (0..kk).map(|_| r.range(-cmax, cmax)).collect()).collect();
        let ndec = dmax + r.below(3);
        let mut decs: Vec<isize> = (0..ndec as isize).map(|i| if r.chance(20) { -i - 1 } else { i }).collect();
        // values beyond 32 bits that agree in their lower half
        if r.chance(8) { for d in decs.iter_mut() { *d <<= 33 } }
        r.shuffle(&mut decs);
        let local = r.chance(40); // successors close to the source: fewer collisions across the layer
        let mut arcs: Vec<Vec<Vec<Arc_>>> = vec![];
        for l in 0..n {
            let mut layer = vec![];
            for s in 0..k[l] {
                let mut out = vec![];
                if !(r.chance(dead)) || (l == 0 && r.chance(80)) {
                    let d = 1 + r.below(dmax);
                    let mut ds = decs.clone();
                    r.shuffle(&mut ds);
                    for &v in ds.iter().take(d) {
                        let dst = if local { (s * k[l + 1] / k[l] + r.below(3)) % k[l + 1] } else { r.below(k[l + 1]) };
                        let cost = scale * match sign {
                            0 => r.range(-cmax, cmax),
                            1 => r.range(0, cmax),
                            2 => -r.range(0, cmax),
                            _ => phi[l + 1][dst] - phi[l][s],
                        };
                        out.push(Arc_ { val: v, dst: dst as u8, cost });
                    }
                }
                layer.push(out);
            }
            arcs.push(layer);
        }
        // what looks good at first leads to what is worst in the end: the incumbents stay poor for long
        let deceptive = hard && n <= 16 && scale <= 1 << 40 && sign != 3 && !EXTREME.load(std::sync::atomic::Ordering::Relaxed) && r.chance(30);
        if deceptive {
            let times = 1 + r.below(2) as isize;
            let mut after: Vec<isize> = vec![0; k[n]];
            let mut psi_after = after.clone();
            for l in (0..n).rev() {
                let togo: Vec<isize> = (0..k[l]).map(|s| arcs[l][s].iter().map(|a: &Arc_| a.cost + after[a.dst as usize]).max().unwrap_or(0)).collect();
                let psi: Vec<isize> = togo.iter().map(|g| if l == 0 { 0 } else { -g * times }).collect();
                for s in 0..k[l] { for a in arcs[l][s].iter_mut() { a.cost += psi_after[a.dst as usize] - psi[s] } }
                (after, psi_after) = (togo, psi);
            }
        }
        let mut opt: Vec<Vec<Option<isize>>> = vec![vec![Some(0); k[n]]];
        for l in (0..n).rev() {
            let next = opt.last().unwrap().clone();
            opt.push((0..k[l]).map(|s| arcs[l][s].iter().filter_map(|a: &Arc_| next[a.dst as usize].map(|o| o + a.cost)).max()).collect());
        }
        opt.reverse();
        let layer_best = opt.iter().map(|l| l.iter().filter_map(|x| *x).max()).collect();
        let mut vars: Vec<usize> = (0..n).collect();
        if r.chance(50) { r.shuffle(&mut vars) }
        let init_value = match r.below(6) { 0 => scale.saturating_mul(r.range(-20, 20)), 1 => -scale, 2 => 7, _ => 0 };
        let est = if hard { *r.pick(&[EstMode::None, EstMode::None, EstMode::Noisy, EstMode::Layer]) } else { *r.pick(&[EstMode::None, EstMode::Exact, EstMode::Noisy, EstMode::Noisy, EstMode::Layer]) };
        let merge_mode = *r.pick(&[MergeMode::Union, MergeMode::Union, MergeMode::Top, MergeMode::Noise]);
        let rank = *r.pick(&[RankMode::Equal, RankMode::HashR, RankMode::SetR]);
        let slack = if r.chance(50) { 0 } else { scale * r.range(0, cmax.max(1)) };
        let pi = if r.chance(60) { 0 } else { scale * r.range(1, cmax.max(1) + 1) };
        let noise = scale * if deceptive { n as isize } else { 1 } * if hard { r.range(cmax, 2 * cmax + 1) } else { r.range(0, cmax.max(1)) };
        let label = format!("graph n={n} k={:?} scale={scale} cmax={cmax} sign={sign} deceptive={deceptive} est={est:?} merge={merge_mode:?} rank={rank:?} slack={slack} pi={pi} init={init_value}", k);
        Graph { n, vars, k, arcs, init_value, est, merge_mode, rank, slack, pi, noise, salt: r.next(), opt, layer_best, mon: Mon::default(), check_contract: false, label }
    }
    /// models that name a variable even for an empty layer, rather than none
    pub fn eager(&self) -> bool { self.salt % 3 == 0 }
    pub fn potential(&self) -> bool { self.label.contains("sign=3") }
    fn h(&self, a: u64, b: u64) -> u64 { mix(self.salt ^ a, b) }
    fn pi_of(&self, layer: usize, set: u128) -> isize {
        if self.pi == 0 || set.count_ones() <= 1 { 0 } else { (self.h(layer as u64 + 1, set as u64 ^ (set >> 64) as u64) % (self.pi as u64 + 1)) as isize }
    }
    fn members(set: u128) -> impl Iterator<Item = usize> {
        let mut s = set;
        std::iter::from_fn(move || {
            if s == 0 { None } else { let i = s.trailing_zeros() as usize; s &= s - 1; Some(i) }
        })
    }
    fn arc(&self, l: usize, s: usize, val: isize) -> Option<&Arc_> { self.arcs[l][s].iter().find(|a| a.val == val) }
    fn step(&self, st: &GSt, val: isize) -> (u128, Option<isize>) {
        let l = st.layer as usize;
        let mut set = 0u128;
        let mut cost = None;
        if l >= self.n { return (0, None) }
        for m in Self::members(st.set) {
            if let Some(a) = self.arc(l, m, val) {
                set |= 1u128 << a.dst;
                cost = Some(cost.map_or(a.cost, |c: isize| c.max(a.cost)));
            }
        }
        (set, cost.map(|c| c - self.pi_of(l, st.set) + self.pi_of(l + 1, set)))
    }
    fn bad(&self, what: String) { if self.check_contract { self.mon.error(what) } }
    fn var_ok(&self, st: &GSt, var: Variable) -> bool { (st.layer as usize) < self.n && self.vars[st.layer as usize] == var.0 }
    pub fn values_to(&self) -> Vec<Vec<Vec<isize>>> {
        // distinct values of genuine paths reaching each graph node, capped at 64 per node
        let mut out: Vec<Vec<Vec<isize>>> = self.k.iter().map(|&k| vec![vec![]; k]).collect();
        out[0][0].push(self.init_value);
        for l in 0..self.n {
            for s in 0..self.k[l] {
                let vs = out[l][s].clone();
                for a in &self.arcs[l][s] {
                    let d = &mut out[l + 1][a.dst as usize];
                    for v in &vs {
                        let nv = v + a.cost;
                        if !d.contains(&nv) && d.len() < 64 { d.push(nv) }
                    }
                }
            }
        }
        out
    }
}

impl Problem for Graph {
    type State = GSt;
    fn nb_variables(&self) -> usize { self.n }
    fn initial_state(&self) -> GSt { GSt { layer: 0, set: 1 } }
    fn initial_value(&self) -> isize { self.init_value }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &GSt>) -> Option<Variable> {
        self.mon.on(Cb::NextVar);
        let first = match it.next() {
            Some(s) => s,
            None => return if self.eager() && self.n > 0 { Some(Variable(self.vars[self.n - 1])) } else { None },
        };
        let l = first.layer as usize;
        if self.check_contract { for s in it { if s.layer as usize != l { self.bad(format!("next_variable was given states of layers {} and {}", l, s.layer)) } } }
        if l < self.n { Some(Variable(self.vars[l])) } else { None }
    }
    fn for_each_in_domain<F>(&self, var: Variable, st: &GSt, mut f: F) where F: FnMut(Decision) {
        self.mon.on(Cb::Domain);
        let l = st.layer as usize;
        self.mon.on_layer(l);
        if !self.var_ok(st, var) { self.bad(format!("domain of variable {:?} asked in layer {}", var, l)) }
        if l >= self.n { return }
        let mut vals: Vec<isize> = vec![];
        for m in Self::members(st.set) { for a in &self.arcs[l][m] { if !vals.contains(&a.val) { vals.push(a.val) } } }
        for v in vals { f(Decision { var, value: v }) }
    }
    fn transition(&self, st: &GSt, d: Decision) -> GSt {
        self.mon.on(Cb::Transition);
        let (set, c) = self.step(st, d.value);
        if c.is_none() || !self.var_ok(st, d.var) { self.bad(format!("transition called with decision {:?} outside the domain of state {:?}", d, st)) }
        GSt { layer: st.layer + 1, set }
    }
    fn transition_cost(&self, st: &GSt, d: Decision) -> isize {
        self.mon.on(Cb::Cost);
        let (_, c) = self.step(st, d.value);
        if c.is_none() || !self.var_ok(st, d.var) { self.bad(format!("transition_cost called with decision {:?} outside the domain of state {:?}", d, st)) }
        c.unwrap_or(0)
    }
    fn estimate(&self, st: &GSt) -> isize {
        self.mon.on(Cb::Estimate);
        let l = st.layer as usize;
        if self.est == EstMode::None { return isize::MAX }
        let best = if self.est == EstMode::Layer { self.layer_best[l] } else { Self::members(st.set).filter_map(|m| self.opt[l][m]).max() };
        let h = self.h(0x55 + l as u64, st.set as u64 ^ (st.set >> 64) as u64);
        match best {
            None => match h % 3 { 0 => isize::MIN, 1 => isize::MAX, _ => 0 },
            Some(b) => {
                let nz = if self.est == EstMode::Noisy { (h % (self.noise as u64 + 1)) as isize } else { 0 };
                if self.est == EstMode::Noisy && h % 11 == 0 { return isize::MAX }
                b - self.pi_of(l, st.set) + nz
            }
        }
    }
}
impl Relaxation for Graph {
    type State = GSt;
    fn merge(&self, it: &mut dyn Iterator<Item = &GSt>) -> GSt {
        self.mon.on(Cb::Merge);
        let mut set = 0u128;
        let mut layer = None;
        let mut n = 0;
        for s in it {
            n += 1;
            set |= s.set;
            match layer { None => layer = Some(s.layer), Some(l) => if l != s.layer { self.bad(format!("merge of states of layers {} and {}", l, s.layer)) } }
        }
        if n == 0 { self.bad("merge of an empty collection of states".into()) }
        let l = layer.unwrap_or(0) as usize;
        let k = self.k[l];
        let full = if k == 128 { u128::MAX } else { (1u128 << k) - 1 };
        match self.merge_mode {
            MergeMode::Union => {}
            MergeMode::Top => set = full,
            MergeMode::Noise => {
                let h = self.h(0x77, set as u64 ^ (set >> 64) as u64);
                if h % 2 == 0 { set |= ((h as u128) | ((h as u128) << 64)) & full & ((h.rotate_left(17) as u128) | ((h.rotate_left(29) as u128) << 64)) }
            }
        }
        GSt { layer: l as u16, set }
    }
    fn relax(&self, src: &GSt, dest: &GSt, new: &GSt, d: Decision, cost: isize) -> isize {
        self.mon.on(Cb::Relax);
        if self.check_contract {
            let (set, c) = self.step(src, d.value);
            if src.layer + 1 != dest.layer || dest.layer != new.layer { self.bad(format!("relax called across layers: {:?} -> {:?} / {:?}", src, dest, new)) }
            else if c.is_none() { self.bad(format!("relax called with decision {:?} outside the domain of its source {:?}", d, src)) }
            else if set != dest.set { self.bad(format!("relax called with destination {:?} which is not the successor of {:?} by {:?}", dest, src, d)) }
            else if c != Some(cost) { self.bad(format!("relax called with cost {} instead of {:?} for {:?} by {:?}", cost, c, src, d)) }
            else if dest.set & !new.set != 0 { self.bad(format!("relax called with merged state {:?} that does not cover {:?}", new, dest)) }
        }
        let extra = if self.slack == 0 { 0 } else { (self.h(src.set as u64, dest.set as u64) % (self.slack as u64 + 1)) as isize };
        let l = dest.layer as usize;
        cost - self.pi_of(l, dest.set) + self.pi_of(l, new.set) + extra
    }
}
impl StateRanking for Graph {
    type State = GSt;
    fn compare(&self, a: &GSt, b: &GSt) -> Ordering {
        self.mon.on(Cb::Compare);
        match self.rank {
            RankMode::Equal => Ordering::Equal,
            RankMode::HashR => self.h(a.layer as u64, a.set as u64).cmp(&self.h(b.layer as u64, b.set as u64)),
            RankMode::SetR => a.set.cmp(&b.set).then(a.layer.cmp(&b.layer)),
        }
    }
}
impl Oracle for Graph {
    fn mon(&self) -> &Mon { &self.mon }
    fn opt_from(&self, s: &GSt) -> Option<isize> {
        assert_eq!(s.set.count_ones(), 1);
        self.opt[s.layer as usize][s.set.trailing_zeros() as usize]
    }
    fn is_terminal(&self, s: &GSt) -> bool { s.layer as usize == self.n }
    fn layer(&self, s: &GSt) -> usize { s.layer as usize }
    fn is_merged(&self, s: &GSt) -> bool { s.set.count_ones() != 1 }
    fn succ(&self, s: &GSt) -> Vec<(Decision, GSt, isize)> {
        let l = s.layer as usize;
        if l >= self.n { return vec![] }
        self.arcs[l][s.set.trailing_zeros() as usize].iter()
            .map(|a| (Decision { var: Variable(self.vars[l]), value: a.val }, GSt { layer: s.layer + 1, set: 1u128 << a.dst }, a.cost)).collect()
    }
    fn replay(&self, ds: &[Decision]) -> Result<(GSt, isize), String> {
        let mut m: HashMap<usize, isize> = HashMap::new();
        for d in ds { if m.insert(d.var.0, d.value).is_some() { return Err(format!("variable {} decided twice in {:?}", d.var.0, ds)) } }
        let mut s = self.initial_state();
        let mut v = self.init_value;
        for l in 0..ds.len() {
            if l >= self.n { return Err(format!("more decisions than variables: {:?}", ds)) }
            let val = *m.get(&self.vars[l]).ok_or_else(|| format!("variable {} (layer {}) undecided in {:?}", self.vars[l], l, ds))?;
            let a = self.arc(l, s.set.trailing_zeros() as usize, val).ok_or_else(|| format!("decision {} of variable {} not allowed in layer {} state {:?}", val, self.vars[l], l, s))?;
            v += a.cost;
            s = GSt { layer: s.layer + 1, set: 1u128 << a.dst };
        }
        Ok((s, v))
    }
    fn describe(&self) -> String { format!("{} eager={}", self.label, self.eager()) }
}

// ------------------------------------------------------------------------------------------------
// Family 2: knapsack with side profit tables and a variable order chosen from the content of each layer
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct KSt { pub mask: u32, pub cap: usize }
impl PartialEq for KSt { fn eq(&self, o: &Self) -> bool { self.mask == o.mask && self.cap == o.cap } }
impl Eq for KSt {}
impl Hash for KSt {
    fn hash<H: Hasher>(&self, h: &mut H) {
        fire(Cb::Hash);
        match coarse() {
            0 => {}
            1 => return h.write_u64(7),
            2 => return h.write_u32(self.mask.count_ones()),
            _ => return h.write_usize(self.cap & 3),
        }
        h.write_u32(self.mask);
        h.write_usize(self.cap)
    }
}
pub struct Knap {
    pub n: usize,
    pub cap: usize,
    /// (weight, profit) options per item; the option index is the decision value
    pub items: Vec<Vec<(usize, isize)>>,
    pub dynamic: bool,
    /// merged capacities are rounded up to a multiple of this, within the capacity
    pub round: usize,
    pub est: EstMode,
    pub rank: RankMode,
    pub init_value: isize,
    pub salt: u64,
    pub mon: Mon,
    cache: Vec<std::sync::Mutex<HashMap<(u32, usize), Option<isize>>>>,
    pub label: String,
}
impl Knap {
    pub fn gen(r: &mut Rng, size: Size) -> Knap {
        let n = match size { Size::Tiny => r.below(4), Size::Small => 2 + r.below(4), Size::Medium => 4 + r.below(5), _ => 7 + r.below(6) };
        let wmax = 1 + r.below(8);
        let forced = r.chance(25); // no zero-weight option for some items: infeasible sub-trees
        let pmax = *r.pick(&[1isize, 3, 10, 50]);
        let items: Vec<Vec<(usize, isize)>> = (0..n).map(|_| {
            let mut o = vec![];
            if !(forced && r.chance(50)) { o.push((0, if r.chance(20) { -r.range(0, pmax) } else { 0 })) }
            for _ in 0..1 + r.below(2) { o.push((1 + r.below(wmax), r.range(-1, pmax))) }
            if r.chance(20) { o.push((0, r.range(-pmax, 0))) }
            o
        }).collect();
        let cap = r.below(wmax * n.max(1) + 1);
        let dynamic = r.chance(60);
        let round = *r.pick(&[1, 1, 2, 3, 4, 1000]);
        let est = *r.pick(&[EstMode::None, EstMode::Exact, EstMode::Noisy, EstMode::Layer]);
        let rank = *r.pick(&[RankMode::Equal, RankMode::SetR, RankMode::HashR]);
        let init_value = if r.chance(30) { r.range(-10, 10) } else { 0 };
        let label = format!("knapsack n={n} cap={cap} items={items:?} dynamic={dynamic} round={round} est={est:?} rank={rank:?} init={init_value}");
        Knap { n, cap, items, dynamic, round, est, rank, init_value, salt: r.next(), mon: Mon::default(), cache: (0..8).map(|_| Default::default()).collect(), label }
    }
    fn best(&self, mask: u32, cap: usize) -> Option<isize> {
        if mask == (1u32 << self.n) - 1 { return Some(0) }
        let sh = &self.cache[(mask as usize ^ cap) & 7];
        if let Some(v) = sh.lock().unwrap().get(&(mask, cap)) { return *v }
        let i = (!mask).trailing_zeros() as usize;
        let v = self.items[i].iter().filter(|(w, _)| *w <= cap).filter_map(|(w, p)| self.best(mask | (1 << i), cap - w).map(|b| b + p)).max();
        sh.lock().unwrap().insert((mask, cap), v);
        v
    }
}
impl Problem for Knap {
    type State = KSt;
    fn nb_variables(&self) -> usize { self.n }
    fn initial_state(&self) -> KSt { KSt { mask: 0, cap: self.cap } }
    fn initial_value(&self) -> isize { self.init_value }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &KSt>) -> Option<Variable> {
        self.mon.on(Cb::NextVar);
        let first = match it.next() {
            Some(s) => s,
            None => return if self.salt % 3 == 0 && self.n > 0 { Some(Variable(0)) } else { None },
        };
        let mask = first.mask;
        let left: Vec<usize> = (0..self.n).filter(|i| mask & (1 << i) == 0).collect();
        if left.is_empty() { return None }
        if !self.dynamic { return Some(Variable(left[0])) }
        let mut sum = first.cap;
        for s in it { sum += s.cap; if s.mask != mask { self.mon.error(format!("next_variable was given states with different assigned variables {:b} {:b}", mask, s.mask)) } }
        Some(Variable(left[sum % left.len()]))
    }
    fn for_each_in_domain<F>(&self, var: Variable, st: &KSt, mut f: F) where F: FnMut(Decision) {
        self.mon.on(Cb::Domain);
        self.mon.on_layer(st.mask.count_ones() as usize);
        for (i, (w, _)) in self.items[var.0].iter().enumerate() { if *w <= st.cap { f(Decision { var, value: i as isize }) } }
    }
    fn transition(&self, st: &KSt, d: Decision) -> KSt {
        self.mon.on(Cb::Transition);
        KSt { mask: st.mask | (1 << d.var.0), cap: st.cap - self.items[d.var.0][d.value as usize].0 }
    }
    fn transition_cost(&self, _: &KSt, d: Decision) -> isize {
        self.mon.on(Cb::Cost);
        self.items[d.var.0][d.value as usize].1
    }
    fn estimate(&self, st: &KSt) -> isize {
        self.mon.on(Cb::Estimate);
        match self.est {
            EstMode::None => isize::MAX,
            EstMode::Layer => (0..self.n).filter(|i| st.mask & (1 << i) == 0).map(|i| self.items[i].iter().map(|x| x.1).max().unwrap_or(0)).sum(),
            EstMode::Exact => self.best(st.mask, st.cap).unwrap_or(isize::MIN),
            EstMode::Noisy => self.best(st.mask, st.cap).map_or(isize::MIN, |b| b + (mix(self.salt ^ st.mask as u64, st.cap as u64) % 4) as isize),
        }
    }
}
impl Relaxation for Knap {
    type State = KSt;
    fn merge(&self, it: &mut dyn Iterator<Item = &KSt>) -> KSt {
        self.mon.on(Cb::Merge);
        let mut out: Option<KSt> = None;
        for s in it { match out.as_mut() { None => out = Some(s.clone()), Some(o) => o.cap = o.cap.max(s.cap) } }
        let mut out = out.expect("merge of an empty collection");
        out.cap = ((out.cap + self.round - 1) / self.round * self.round).min(self.cap).max(out.cap);
        out
    }
    fn relax(&self, _: &KSt, _: &KSt, _: &KSt, _: Decision, cost: isize) -> isize { self.mon.on(Cb::Relax); cost }
}
impl StateRanking for Knap {
    type State = KSt;
    fn compare(&self, a: &KSt, b: &KSt) -> Ordering {
        self.mon.on(Cb::Compare);
        match self.rank { RankMode::Equal => Ordering::Equal, RankMode::SetR => a.cap.cmp(&b.cap), RankMode::HashR => mix(a.cap as u64, a.mask as u64).cmp(&mix(b.cap as u64, b.mask as u64)) }
    }
}
impl Oracle for Knap {
    fn mon(&self) -> &Mon { &self.mon }
    fn opt_from(&self, s: &KSt) -> Option<isize> { self.best(s.mask, s.cap) }
    fn is_terminal(&self, s: &KSt) -> bool { s.mask == (1u32 << self.n) - 1 }
    fn layer(&self, s: &KSt) -> usize { s.mask.count_ones() as usize }
    fn is_merged(&self, _: &KSt) -> bool { false }
    fn succ(&self, s: &KSt) -> Vec<(Decision, KSt, isize)> {
        if self.is_terminal(s) { return vec![] }
        let i = (!s.mask).trailing_zeros() as usize;
        self.items[i].iter().enumerate().filter(|(_, x)| x.0 <= s.cap)
            .map(|(k, x)| (Decision { var: Variable(i), value: k as isize }, KSt { mask: s.mask | 1 << i, cap: s.cap - x.0 }, x.1)).collect()
    }
    fn replay(&self, ds: &[Decision]) -> Result<(KSt, isize), String> {
        let mut mask = 0u32; let mut w = 0; let mut v = self.init_value;
        for d in ds {
            if d.var.0 >= self.n { return Err(format!("unknown variable in {:?}", ds)) }
            if mask & (1 << d.var.0) != 0 { return Err(format!("variable {} decided twice in {:?}", d.var.0, ds)) }
            mask |= 1 << d.var.0;
            let o = self.items[d.var.0].get(d.value as usize).ok_or_else(|| format!("value outside of the domain in {:?}", ds))?;
            w += o.0; v += o.1;
        }
        if w > self.cap { return Err(format!("capacity exceeded: {} > {} by {:?}", w, self.cap, ds)) }
        Ok((KSt { mask, cap: self.cap - w }, v))
    }
    fn describe(&self) -> String { format!("{} eager={}", self.label, self.salt % 3 == 0) }
}

// ------------------------------------------------------------------------------------------------
/// width heuristics: constant, or varying with the state
#[derive(Clone, Copy, Debug)]
pub enum WMode { Fixed(usize), PerState(usize) }
pub struct Wd<'a, P> { pub p: &'a P, pub mode: WMode }
impl<P: Oracle> WidthHeuristic<P::State> for Wd<'_, P> where P::State: Hash {
    fn max_width(&self, s: &P::State) -> usize {
        let m = self.p.mon();
        m.begin(state_hash(s));
        match self.mode { WMode::Fixed(w) => w, WMode::PerState(k) => 1 + (state_hash(s) % k as u64) as usize }
    }
}
