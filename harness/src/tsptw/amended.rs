//! The shipped model amended in the three places where it is known to be wrong (see /verif/known-findings.txt), so
//! that the rest of it and the library are still judged, and a model that watches what those places do in a run.
//! The amended parts are written from scratch; everything else is the shipped code.
use crate::model::Tsptw;
use crate::relax::TsptwRelax;
use crate::state::{ElapsedTime, Position, State};
use crate::vm;
use bitset_fixed::BitSet;
use engineering::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const LOOKAHEAD: &str = "tsptw-lookahead";
pub const EXTRA: &str = "tsptw-bound-extra-city";
pub const WAITING: &str = "tsptw-merge-waiting";

pub struct AmendedModel<'a> { pub p: &'a Tsptw, pub n: usize, direct: Vec<Vec<usize>>, paths: Vec<Vec<usize>>, cheapest: Vec<usize> }
fn earliest(e: &ElapsedTime) -> usize { match e { ElapsedTime::FixedAmount { duration } => *duration, ElapsedTime::FuzzyAmount { earliest, .. } => *earliest } }
fn bits(b: &BitSet, n: usize) -> Vec<usize> { (0..n).filter(|i| b[*i]).collect() }

impl<'a> AmendedModel<'a> {
    pub fn new(p: &'a Tsptw) -> Self {
        let n = p.instance.nb_nodes as usize;
        let direct: Vec<Vec<usize>> = (0..n).map(|i| (0..n).map(|j| p.instance.distances[(i, j)]).collect()).collect();
        let mut paths = direct.clone();
        for k in 1..n { for i in 0..n { for j in 0..n { let v = paths[i][k] + paths[k][j]; if v < paths[i][j] { paths[i][j] = v } } } }
        let cheapest = (0..n).map(|j| (0..n).filter(|i| *i != j).map(|i| direct[i][j]).min().unwrap_or(usize::MAX)).collect();
        AmendedModel { p, n, direct, paths, cheapest }
    }
    fn from(&self, s: &State) -> Vec<usize> { match &s.position { Position::Node(x) => vec![*x as usize], Position::Virtual(b) => bits(b, self.n) } }
    fn dist(&self, m: &[Vec<usize>], s: &State, j: usize) -> usize { self.from(s).into_iter().map(|i| m[i][j]).min().unwrap() }
    fn in_time(&self, m: &[Vec<usize>], s: &State, j: usize) -> bool { earliest(&s.elapsed) + self.dist(m, s, j) <= self.p.instance.timewindows[j].latest }
    /// the decisions of a state; `asis`: with the look-ahead over direct distances only
    pub fn domain(&self, s: &State, asis: bool) -> Vec<isize> {
        if s.depth as usize == self.n - 1 { return if self.in_time(&self.direct, s, 0) { vec![0] } else { vec![] } }
        let must = bits(&s.must_visit, self.n);
        if must.iter().any(|j| !self.in_time(if asis { &self.direct } else { &self.paths }, s, *j)) { return vec![] }
        let mut v: Vec<isize> = must.iter().filter(|j| asis || self.in_time(&self.direct, s, **j)).map(|j| *j as isize).collect();
        if let Some(m) = &s.maybe_visit { v.extend(bits(m, self.n).into_iter().filter(|j| self.in_time(&self.direct, s, *j)).map(|j| j as isize)) }
        v
    }
    /// the bound of a state; `asis`: with the return to the depot counted among the cities to pick
    pub fn bound(&self, s: &State, asis: bool) -> isize {
        let tw = &self.p.instance.timewindows;
        let now = earliest(&s.elapsed);
        let must = bits(&s.must_visit, self.n);
        let left = self.n - s.depth as usize;
        let pick = if asis { left.wrapping_sub(must.len()) } else { left.saturating_sub(1).saturating_sub(must.len()) };
        if must.iter().any(|j| now + self.cheapest[*j] > tw[*j].latest) { return isize::MIN }
        let mut total: usize = must.iter().map(|j| self.cheapest[*j]).sum();
        let mut back = must.iter().map(|j| self.direct[*j][0]).min().unwrap_or(usize::MAX);
        if let Some(m) = &s.maybe_visit {
            let m = bits(m, self.n);
            if m.iter().filter(|j| now + self.cheapest[**j] <= tw[**j].latest).count() < pick { return isize::MIN }
            let mut c: Vec<usize> = m.iter().map(|j| self.cheapest[*j]).collect();
            c.sort();
            total += c.iter().take(pick).sum::<usize>();
            back = back.min(m.iter().map(|j| self.direct[*j][0]).min().unwrap_or(usize::MAX));
        }
        if total == 0 { back = back.min(self.dist(&self.direct, s, 0)) }
        total = total.wrapping_add(back);
        if now.wrapping_add(total) > tw[0].latest { isize::MIN } else { -(total as isize) }
    }
    pub fn gained(&self, dst: &State, merged: &State) -> isize { earliest(&dst.elapsed) as isize - earliest(&merged.elapsed) as isize }
}
impl Problem for AmendedModel<'_> {
    type State = State;
    fn nb_variables(&self) -> usize { self.p.nb_variables() }
    fn initial_state(&self) -> State { self.p.initial_state() }
    fn initial_value(&self) -> isize { self.p.initial_value() }
    fn transition(&self, s: &State, d: Decision) -> State { self.p.transition(s, d) }
    fn transition_cost(&self, s: &State, d: Decision) -> isize { self.p.transition_cost(s, d) }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &State>) -> Option<Variable> { self.p.next_variable(it) }
    fn for_each_in_domain<F>(&self, var: Variable, s: &State, mut f: F) where F: FnMut(Decision) {
        for value in self.domain(s, false) { f(Decision { var, value }) }
    }
    fn estimate(&self, s: &State) -> isize { self.bound(s, false) }
}
impl vm::Amend<State> for AmendedModel<'_> {
    fn estimate(&self, s: &State, shipped: isize) -> Option<(isize, &'static str)> { if shipped == self.bound(s, true) { Some((self.bound(s, false), EXTRA)) } else { None } }
    fn relax(&self, dst: &State, merged: &State, cost: isize, shipped: isize) -> Option<(isize, &'static str)> { if shipped == cost { Some((cost + self.gained(dst, merged), WAITING)) } else { None } }
}
pub struct AmendedRelax<'a> { pub f: &'a AmendedModel<'a>, pub r: &'a TsptwRelax<'a> }
impl Relaxation for AmendedRelax<'_> {
    type State = State;
    fn merge(&self, states: &mut dyn Iterator<Item = &State>) -> State { self.r.merge(states) }
    fn relax(&self, _: &State, dst: &State, merged: &State, _: Decision, cost: isize) -> isize { cost + self.f.gained(dst, merged) }
}
/// the shipped model, and how often the defective places made a difference
#[derive(Default, Debug)]
pub struct Seen { pub lookahead: AtomicU64, pub extra: AtomicU64, pub waiting: AtomicU64, pub unexplained: AtomicU64 }
pub struct Spied<'a> { pub f: &'a AmendedModel<'a>, pub r: &'a TsptwRelax<'a>, pub seen: Seen }
impl Problem for Spied<'_> {
    type State = State;
    fn nb_variables(&self) -> usize { self.f.p.nb_variables() }
    fn initial_state(&self) -> State { self.f.p.initial_state() }
    fn initial_value(&self) -> isize { self.f.p.initial_value() }
    fn transition(&self, s: &State, d: Decision) -> State { self.f.p.transition(s, d) }
    fn transition_cost(&self, s: &State, d: Decision) -> isize { self.f.p.transition_cost(s, d) }
    fn next_variable(&self, it: &mut dyn Iterator<Item = &State>) -> Option<Variable> { self.f.p.next_variable(it) }
    fn for_each_in_domain<F>(&self, var: Variable, s: &State, mut f: F) where F: FnMut(Decision) {
        let mut v = vec![];
        self.f.p.for_each_in_domain(var, s, |d| { v.push(d.value); f(d) });
        let mut asis = self.f.domain(s, true);
        let mut good = self.f.domain(s, false);
        v.sort();
        asis.sort();
        good.sort();
        if v != good { if v == asis { &self.seen.lookahead } else { &self.seen.unexplained }.fetch_add(1, Relaxed); }
    }
    fn estimate(&self, s: &State) -> isize {
        let e = self.f.p.estimate(s);
        if e < self.f.bound(s, false) { if e == self.f.bound(s, true) { &self.seen.extra } else { &self.seen.unexplained }.fetch_add(1, Relaxed); }
        e
    }
}
impl Relaxation for Spied<'_> {
    type State = State;
    fn merge(&self, states: &mut dyn Iterator<Item = &State>) -> State { self.r.merge(states) }
    fn relax(&self, src: &State, dst: &State, merged: &State, d: Decision, cost: isize) -> isize {
        let x = self.r.relax(src, dst, merged, d, cost);
        if x < cost + self.f.gained(dst, merged) { if x == cost { &self.seen.waiting } else { &self.seen.unexplained }.fetch_add(1, Relaxed); }
        x
    }
}
