//! A small layered-graph problem with a brute-force oracle, for demonstrations.
#![allow(dead_code)]
use engineering::*;
use std::cmp::Ordering;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    pub fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
}

pub const DEAD: isize = -1_000_000;

/// A state is a set of the vertices of one layer; only merging makes sets of more than one vertex.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct St { pub layer: u32, pub set: u32 }

pub struct Graph {
    pub n: usize,
    /// arcs[layer][vertex] = (value, target, cost)
    pub arcs: Vec<Vec<Vec<(isize, usize, isize)>>>,
    pub rest: Vec<Vec<isize>>,
    pub slack: isize,
    pub tight_values: bool,
}
impl Graph {
    pub fn random(r: &mut Rng, n: usize, w: usize, vals: i64, cost: (i64, i64), slack: isize) -> Graph {
        let mut arcs = vec![];
        for l in 0..n {
            let here = if l == 0 { 1 } else { w };
            let mut layer = vec![];
            for _ in 0..here {
                let mut out = vec![];
                for v in 0..vals {
                    if r.below(6) > 0 { out.push((v as isize, r.below(w as u64) as usize, r.range(cost.0, cost.1) as isize)) }
                }
                layer.push(out);
            }
            arcs.push(layer);
        }
        let mut rest = vec![vec![0; w]; n + 1];
        for l in (0..n).rev() {
            for i in 0..arcs[l].len() {
                rest[l][i] = arcs[l][i].iter().map(|(_, t, c)| if rest[l + 1][*t] <= DEAD / 2 { DEAD } else { c + rest[l + 1][*t] }).max().unwrap_or(DEAD);
            }
        }
        Graph { n, arcs, rest, slack, tight_values: false }
    }
    pub fn members(set: u32) -> impl Iterator<Item = usize> { (0..32).filter(move |i| set & (1 << i) != 0) }
    pub fn optimum(&self) -> Option<isize> { if self.rest[0][0] <= DEAD / 2 { None } else { Some(self.rest[0][0]) } }
    pub fn best_from(&self, st: &St) -> isize { Self::members(st.set).map(|m| self.rest[st.layer as usize][m]).max().unwrap() }
    /// The value of a complete, feasible assignment
    pub fn value(&self, sol: &[Decision]) -> Option<isize> {
        let mut by = vec![None; self.n];
        for d in sol { if d.var.0 >= self.n || by[d.var.0].replace(d.value).is_some() { return None } }
        let (mut at, mut total) = (0, 0);
        for l in 0..self.n {
            let v = by[l]?;
            let (_, t, c) = self.arcs[l][at].iter().find(|a| a.0 == v)?;
            at = *t;
            total += c;
        }
        Some(total)
    }
}
impl Problem for Graph {
    type State = St;
    fn nb_variables(&self) -> usize { self.n }
    fn initial_state(&self) -> St { St { layer: 0, set: 1 } }
    fn initial_value(&self) -> isize { 0 }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &St>) -> Option<Variable> {
        let l = it.next()?.layer as usize;
        if l < self.n { Some(Variable(l)) } else { None }
    }
    fn for_each_in_domain<F>(&self, var: Variable, st: &St, mut f: F) where F: FnMut(Decision) {
        let mut vals = vec![];
        for m in Self::members(st.set) { for a in &self.arcs[st.layer as usize][m] { if !vals.contains(&a.0) { vals.push(a.0) } } }
        for value in vals { f(Decision { var, value }) }
    }
    fn transition(&self, st: &St, d: Decision) -> St {
        let mut set = 0;
        for m in Self::members(st.set) { for a in &self.arcs[st.layer as usize][m] { if a.0 == d.value { set |= 1 << a.1 } } }
        St { layer: st.layer + 1, set }
    }
    fn transition_cost(&self, st: &St, d: Decision) -> isize {
        Self::members(st.set).flat_map(|m| self.arcs[st.layer as usize][m].iter()).filter(|a| a.0 == d.value).map(|a| a.2).max().unwrap()
    }
    fn estimate(&self, st: &St) -> isize {
        let h = (st.set.wrapping_mul(2654435761) >> 16) as isize;
        self.best_from(st).saturating_add(if self.slack > 0 { h % (self.slack + 1) } else { 0 })
    }
}
pub struct GRelax;
impl Relaxation for GRelax {
    type State = St;
    fn merge(&self, it: &mut dyn Iterator<Item = &St>) -> St {
        let mut m = St { layer: 0, set: 0 };
        for s in it { m.layer = s.layer; m.set |= s.set }
        m
    }
    fn relax(&self, _: &St, _: &St, _: &St, _: Decision, cost: isize) -> isize { cost }
}
pub struct GRank;
impl StateRanking for GRank {
    type State = St;
    fn compare(&self, a: &St, b: &St) -> Ordering { a.cmp(b) }
}

/// Runs `f` and reports a failure when it has not ended after `secs` seconds.
pub fn within<F: FnOnce() + Send + 'static>(secs: u64, f: F) {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || { f(); let _ = tx.send(()); });
    match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
        Ok(()) => {}
        Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => { let _ = h.join(); fail("a thread panicked".into()) }
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => fail("still running: blocked".into()),
    }
}
pub fn fail(msg: String) -> ! { println!("FAIL: {}", msg); std::process::exit(1) }
