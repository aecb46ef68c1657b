//! Frontiers and utilities against reference models.
use crate::common::{mon::*, rng::*, run::*};
use bitset_fixed::BitSet;
use engineering::*;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::Arc;

/// A state, whose hash may tell few of them apart.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct St(u64);
impl std::hash::Hash for St {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u64(match crate::common::fam::coarse() { 0 => self.0, 1 => 7, 2 => self.0 / 4, _ => self.0 % 3 }) }
}
struct Rk { mode: usize, salt: u64 }
impl Rk { fn cmp(&self, a: u64, b: u64) -> Ordering { self.compare(&St(a), &St(b)) } }
impl StateRanking for Rk {
    type State = St;
    fn compare(&self, a: &St, b: &St) -> Ordering {
        let (a, b) = (&a.0, &b.0);
        fire(Cb::Compare);
        match self.mode { 0 => Ordering::Equal, 1 => a.cmp(b), 2 => (a % 3).cmp(&(b % 3)), _ => mix(self.salt, *a).cmp(&mix(self.salt, *b)) }
    }
}
#[derive(Clone, Debug)]
struct Ent { state: u64, value: isize, ub: isize, paths: Vec<(isize, isize)> } // (value, id)

/// Any sequence of operations on a frontier behaves like a multiset (or, without duplicates, a map by state)
/// popped by decreasing upper bound then ranking.
pub fn frontier(c: &mut Case) -> Res {
    if c.rng.below(6000) == 0 { return huge_frontier(c) }
    let rk = Rk { mode: c.rng.below(4), salt: c.rng.next() };
    let nodup = c.rng.chance(65);
    let nstates = *c.rng.pick(&[1u64, 2, 4, 10, 50, 1000]);
    let span = *c.rng.pick(&[1isize, 3, 20, 1000]);
    let vspan = *c.rng.pick(&[1isize, 4, 100]);
    let len = if c.thorough && c.rng.chance(10) { 3000 } else { let m = if c.rng.chance(10) { 600 } else { 80 }; 1 + c.rng.below(m) };
    let popw = 10 + c.rng.below(60);
    let mut simple = SimpleFrontier::new(&rk);
    let mut nod = NoDupFrontier::new(&rk);
    let mut model: Vec<Ent> = vec![];
    let mut log: Vec<String> = vec![];
    let (mut pops, mut merges, mut maxlen, mut clears) = (0u64, 0u64, 0usize, 0u64);
    let mut h = 5u64;
    let drain_at = if c.rng.chance(70) { len } else { usize::MAX };
    let mut step = 0usize;
    let mut id = 0isize;
    loop {
        let draining = step >= drain_at;
        if step >= len && (!draining || model.is_empty()) { break }
        step += 1;
        let op = if draining { 0 } else if c.rng.chance(popw) { 0 } else if c.rng.below(400) == 0 { 2 } else { 1 };
        match op {
            0 => {
                let got = if nodup { nod.pop() } else { simple.pop() };
                log.push("pop".into());
                let got = match (got, model.is_empty()) {
                    (None, true) => continue,
                    (None, false) => { c.describe(&log.join("; ")); return viol(format!("pop gives nothing but {} nodes are in", model.len())) }
                    (Some(g), true) => { c.describe(&log.join("; ")); return viol(format!("pop gives {g:?} from an empty frontier")) }
                    (Some(g), false) => g,
                };
                pops += 1;
                let key = |e: &Ent| (e.ub, e.state);
                let best = model.iter().map(key).reduce(|a, b| if a.0.cmp(&b.0).then_with(|| rk.cmp(a.1, b.1)) == Ordering::Less { b } else { a }).unwrap();
                let pid = got.path.get(0).map(|d| d.value).unwrap_or(-1);
                let pos = model.iter().position(|e| e.state == got.state.0 && e.paths.iter().any(|x| x.1 == pid && x.0 == got.value) && e.ub == got.ub && e.value == got.value);
                let pos = match pos { Some(x) => x, None => { c.describe(&log.join("; ")); return viol(format!("pop gives {got:?} which is not in the frontier: {:?}", model.iter().filter(|e| e.state == got.state.0).collect::<Vec<_>>())) } };
                if got.ub.cmp(&best.0).then_with(|| rk.cmp(got.state.0, best.1)) == Ordering::Less {
                    c.describe(&log.join("; "));
                    return viol(format!("pop gives {got:?} while a better node (ub {}, state {}) is in", best.0, best.1));
                }
                h = mix(h, got.ub as u64 ^ got.state.0);
                model.swap_remove(pos);
            }
            1 => {
                id += 1;
                let s = c.rng.next() % nstates;
                let v = c.rng.range(-vspan, vspan);
                let ub = if c.rng.chance(3) { *c.rng.pick(&[isize::MAX, isize::MIN]) } else { c.rng.range(-span, span) };
                let node = SubProblem { state: Arc::new(St(s)), value: v, path: vec![Decision { var: Variable(0), value: id }], ub };
                log.push(format!("push state={s} value={v} ub={ub} id={id}"));
                if nodup { nod.push(node) } else { simple.push(node) }
                if nodup {
                    if let Some(e) = model.iter_mut().find(|e| e.state == s) {
                        merges += 1;
                        e.ub = e.ub.max(ub);
                        e.value = e.value.max(v);
                        e.paths.push((v, id));
                        let m = e.value;
                        e.paths.retain(|x| x.0 == m);
                    } else { model.push(Ent { state: s, value: v, ub, paths: vec![(v, id)] }) }
                } else { model.push(Ent { state: s, value: v, ub, paths: vec![(v, id)] }) }
            }
            _ => { log.push("clear".into()); clears += 1; if nodup { nod.clear() } else { simple.clear() } model.clear() }
        }
        maxlen = maxlen.max(model.len());
        let (l, e) = if nodup { (Frontier::len(&nod), Frontier::is_empty(&nod)) } else { (simple.len(), simple.is_empty()) };
        if l != model.len() || e != model.is_empty() { c.describe(&log.join("; ")); return viol(format!("the frontier says it holds {l} nodes (empty: {e}), it should hold {}", model.len())) }
    }
    c.st.add("pops", pops);
    c.st.add("operations", step as u64);
    c.st.add("pushes_onto_a_present_state", merges);
    c.st.add("clears", clears);
    c.st.max("length", maxlen as u64);
    if pops > 2 { c.nontrivial(h, || log.iter().take(30).cloned().collect::<Vec<_>>().join("; ")) }
    Ok(())
}

/// Tens of thousands of subproblems at a time: in phases of pushes and pops, everything comes back once, in order.
fn huge_frontier(c: &mut Case) -> Res {
    // that many states of the same hash would take minutes
    crate::common::fam::COARSE.store(0, std::sync::atomic::Ordering::SeqCst);
    let rk = Rk { mode: c.rng.below(4), salt: c.rng.next() };
    let nodup = c.rng.chance(75);
    let total = 66_000 + c.rng.below(70_000);
    let nstates = if c.rng.chance(50) { u64::MAX } else { total as u64 };
    let span = *c.rng.pick(&[50isize, 1_000_000, 1 << 40]);
    c.describe(&format!("{total} subproblems over {nstates} states, bounds within {span}, ranking {}, duplicates {}", rk.mode, if nodup { "merged" } else { "kept" }));
    let mut simple = SimpleFrontier::new(&rk);
    let mut nod = NoDupFrontier::new(&rk);
    let mut inside: HashMap<u64, Vec<(isize, isize)>> = HashMap::new(); // (value, bound)
    let mut count = 0usize;
    let mut pops = 0u64;
    let mut pushed = 0usize;
    let mut h = 9u64;
    while pushed < total || count > 0 {
        let more = if pushed == 0 { total * 95 / 100 } else { (total - pushed).min(1 + c.rng.below(2000)) };
        for _ in 0..more {
            let s = c.rng.next() % nstates;
            let (v, ub) = (c.rng.range(-1000, 1000), c.rng.range(-span, span));
            let node = SubProblem { state: Arc::new(St(s)), value: v, path: vec![], ub };
            if nodup { nod.push(node) } else { simple.push(node) }
            let e = inside.entry(s).or_default();
            if nodup && !e.is_empty() { e[0] = (e[0].0.max(v), e[0].1.max(ub)) } else { e.push((v, ub)); count += 1 }
        }
        pushed += more;
        let out = if pushed >= total { usize::MAX } else { c.rng.below(4000) };
        let mut last: Option<(isize, u64)> = None;
        for _ in 0..out {
            let got = match if nodup { nod.pop() } else { simple.pop() } { Some(g) => g, None => { if count > 0 { return viol(format!("pop gives nothing but {count} subproblems are in")) } break } };
            pops += 1;
            if let Some((ub, s)) = last {
                if ub.cmp(&got.ub).then_with(|| rk.cmp(s, got.state.0)) == Ordering::Less { return viol(format!("state {} of bound {} comes after state {s} of bound {ub}", got.state.0, got.ub)) }
            }
            last = Some((got.ub, got.state.0));
            let e = inside.get_mut(&got.state.0);
            let at = e.as_ref().and_then(|e| e.iter().position(|x| *x == (got.value, got.ub)));
            match (e, at) { (Some(e), Some(at)) => { e.swap_remove(at); }, (e, _) => return viol(format!("pop gives state {} of value {} and bound {}; of that state {:?} is in", got.state.0, got.value, got.ub, e)) }
            count -= 1;
            if pops % 1000 == 0 { h = mix(h, got.ub as u64 ^ got.state.0) }
        }
        let l = if nodup { Frontier::len(&nod) } else { simple.len() };
        if l != count { return viol(format!("the frontier says it holds {l} subproblems, it should hold {count}")) }
    }
    c.st.add("pops", pops);
    c.st.add("huge_queues", 1);
    c.st.max("length", (total * 95 / 100) as u64);
    c.nontrivial(h, || format!("a queue of {total}"));
    Ok(())
}

pub fn utils(c: &mut Case) -> Res {
    // sets
    let n = match c.rng.below(8) { 0 => c.rng.below(3), 1 => 63 + c.rng.below(3), 2 => 127 + c.rng.below(3), 3 => 64 * (1 + c.rng.below(4)), _ => 1 + c.rng.below(300) };
    let gen = |r: &mut Rng, n: usize| { let dens = *r.pick(&[0usize, 2, 10, 50, 90, 100]); (0..n).map(|_| r.chance(dens)).collect::<Vec<bool>>() };
    let mk = |v: &[bool]| { let mut b = BitSet::new(v.len()); for (i, x) in v.iter().enumerate() { b.set(i, *x) } b };
    let a = gen(&mut c.rng, n);
    let ba = mk(&a);
    c.describe(&format!("set of capacity {n}: {:?}", (0..n).filter(|i| a[*i]).collect::<Vec<_>>()));
    let want: Vec<usize> = (0..n).filter(|i| a[*i]).collect();
    let mut it = BitSetIter::new(&ba);
    let mut got = vec![];
    for _ in 0..want.len() + 3 { match it.next() { Some(x) => got.push(x), None => break } }
    if got != want { return viol(format!("iterating over {want:?} yields {got:?}")) }
    if it.next().is_some() || it.next().is_some() { return viol("an exhausted iterator yields again") }
    c.st.add("set_members_iterated", want.len() as u64);
    // lexical order
    let mut b = gen(&mut c.rng, n);
    if c.rng.chance(60) { b = a.clone(); for _ in 0..c.rng.below(4) { if n > 0 { let i = c.rng.below(n); b[i] = c.rng.chance(50) } } }
    let d = gen(&mut c.rng, n);
    let (bb, bd) = (mk(&b), mk(&d));
    // sets of other capacities: what a set has no room for is not in it
    let n2 = match c.rng.below(4) { 0 => n, 1 => n + 1 + c.rng.below(3), 2 => n + 64 * (1 + c.rng.below(2)), _ => c.rng.below(n + 70) };
    let mut f: Vec<bool> = if c.rng.chance(70) { (0..n2).map(|i| i < n && a[i]).collect() } else { gen(&mut c.rng, n2) };
    if n2 > 0 { for _ in 0..c.rng.below(3) { let i = if c.rng.chance(50) { n2 - 1 - c.rng.below(n2.min(8)) } else { c.rng.below(n2) }; f[i] = !f[i] } }
    let bf = mk(&f);
    let pad = |v: &[bool], m: usize| { let mut v = v.to_vec(); v.resize(m, false); v };
    for (x, y, bx, by) in [(&a, &f, &ba, &bf), (&f, &a, &bf, &ba), (&d, &f, &bd, &bf)] {
        let m = x.len().max(y.len());
        let want = pad(x, m).cmp(&pad(y, m));
        let got = LexBitSet(bx).cmp(&LexBitSet(by));
        let ix = |v: &[bool]| (0..v.len()).filter(|i| v[*i]).collect::<Vec<_>>();
        if want != got { return viol(format!("comparing {:?} (capacity {}) with {:?} (capacity {}) lexically gives {got:?}, expected {want:?}", ix(x), x.len(), ix(y), y.len())) }
        if (LexBitSet(bx) == LexBitSet(by)) != (want == Ordering::Equal) { return viol(format!("lexical equality of {:?} (capacity {}) and {:?} (capacity {}) disagrees with the order, which is {want:?}", ix(x), x.len(), ix(y), y.len())) }
        if LexBitSet(bx).partial_cmp(&LexBitSet(by)) != Some(want) { return viol("the partial order disagrees with the total order") }
        if x.len() != y.len() { c.st.add("comparisons_across_capacities", 1) }
    }
    for (x, y, bx, by) in [(&a, &b, &ba, &bb), (&b, &a, &bb, &ba), (&a, &d, &ba, &bd), (&b, &d, &bb, &bd), (&a, &a, &ba, &ba)] {
        let want = x.cmp(y);
        let got = LexBitSet(bx).cmp(&LexBitSet(by));
        if want != got { return viol(format!("comparing {:?} with {:?} lexically gives {got:?}, expected {want:?}", x, y)) }
        if (LexBitSet(bx) == LexBitSet(by)) != (want == Ordering::Equal) { return viol("lexical equality disagrees with the order") }
        if LexBitSet(bx).partial_cmp(&LexBitSet(by)) != Some(want) { return viol("the partial order disagrees with the total order") }
        c.st.add("comparisons", 1);
    }
    // every cell of a matrix of n rows and m columns is its own
    let m = 1 + c.rng.below(12);
    let nr = if c.rng.chance(50) { m } else { 1 + c.rng.below(12) };
    let mut mat = Matrix::new_default(m, nr, 0i64);
    let mut z: Matrix<i64> = Matrix::new(m, nr);
    for x in [&mat, &z] { if x.m != m || x.n != nr { return viol(format!("a matrix made for {m} columns and {nr} rows says it has {} and {}", x.m, x.n)) } }
    let mut model: HashMap<(usize, usize), i64> = HashMap::new();
    for k in 0..60 {
        let ix = (c.rng.below(nr), c.rng.below(m));
        let v = c.rng.range(-1000, 1000) as i64 * 64 + k;
        mat[ix] = v;
        z[ix] = v;
        model.insert(ix, v);
    }
    for i in 0..nr { for j in 0..m {
        let w = model.get(&(i, j)).copied().unwrap_or(0);
        if mat[(i, j)] != w || z[(i, j)] != w { return viol(format!("cell {:?} of a matrix of {nr} rows and {m} columns holds {} / {}, last written {w}", (i, j), mat[(i, j)], z[(i, j)])) }
    } }
    c.st.add("cells", (m * nr) as u64);
    let h = a.iter().chain(b.iter()).fold(mix(n as u64, m as u64), |h, x| mix(h, *x as u64));
    if !want.is_empty() { c.nontrivial(h, || format!("capacity {n}: {want:?}")) }
    Ok(())
}
