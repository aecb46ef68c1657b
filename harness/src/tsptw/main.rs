#![allow(clippy::all)]
#[path = "../common/mod.rs"]
mod common;
include!(concat!(env!("OUT_DIR"), "/tsptw_mods.rs"));
mod amended;

use common::{cli, model as vm, rng::*, run::*};
use engineering::*;
use amended::*;
use std::collections::HashMap;
use std::fs::File;
use std::sync::atomic::Ordering::SeqCst;

/// An instance, in hundredths of a time unit.
#[derive(Clone, Debug)]
struct Inst { n: usize, d: Vec<Vec<u64>>, tw: Vec<(u64, u64)> }
const UNIT: u64 = 100; // the program holds 10000 per unit

impl Inst {
    /// `exact`: only multiples of a quarter, which the program's single precision reading holds exactly
    fn gen(r: &mut Rng, nmax: usize, exact: bool) -> Inst {
        let n = 2 + r.below(nmax - 1);
        let dmax = *r.pick(&[3u64, 10, 50, 150]);
        let step = if exact { *r.pick(&[100u64, 100, 50, 25]) } else { *r.pick(&[1u64, 10, 100]) };
        let q = |x: u64| x / step * step;
        let style = r.below(4);
        let mut d = vec![vec![0u64; n]; n];
        if style == 0 {
            let pts: Vec<(f64, f64)> = (0..n).map(|_| ((r.next() % 1000) as f64, (r.next() % 1000) as f64)).collect();
            for i in 0..n { for j in 0..n {
                let e = ((pts[i].0 - pts[j].0).powi(2) + (pts[i].1 - pts[j].1).powi(2)).sqrt() / 1414.0;
                d[i][j] = q((e * (dmax * UNIT) as f64) as u64);
            } }
        } else {
            for i in 0..n { for j in 0..n { if i != j { d[i][j] = q(r.next() % (dmax * UNIT + 1)) } } }
            if style == 1 { for i in 0..n { for j in 0..i { d[i][j] = d[j][i] } } }
            if style <= 2 { // triangle inequality by closure
                for k in 0..n { for i in 0..n { for j in 0..n { d[i][j] = d[i][j].min(d[i][k] + d[k][j]) } } }
            }
            if r.chance(15) { for j in 0..n { d[0][j] = 0 } }
        }
        // windows around a random tour
        let mut tour: Vec<usize> = (1..n).collect();
        r.shuffle(&mut tour);
        let slack = dmax * UNIT * *r.pick(&[0u64, 1, 2, 6]) + r.next() % (dmax * UNIT + 1);
        let wait = r.below(3);
        let mut tw = vec![(0, 0); n];
        let (mut t, mut pos) = (0u64, 0usize);
        for &x in &tour {
            t += d[pos][x];
            let a = if wait == 2 && r.chance(40) { let w = q(r.next() % (2 * dmax * UNIT + 1)); t += w; t } else { q(t.saturating_sub(r.next() % (slack + 1))) };
            let a = if wait == 0 { 0 } else { a };
            let mut b = q(t + r.next() % (slack + 1)).max(a);
            if b < t { b = t }
            tw[x] = (a, b);
            pos = x;
        }
        t += d[pos][0];
        tw[0] = (0, q(t + r.next() % (slack + 1)).max(t));
        // spoil it now and then
        if r.chance(25) {
            let x = r.below(n);
            let (a, b) = tw[x];
            let nb = q(b * (r.next() % 100) / 100);
            tw[x] = (a.min(nb), nb);
        }
        if r.chance(10) { tw[0].0 = q(r.next() % (tw[0].1 + 1)); }
        // long times now and then: powers of two, which change nothing to what single precision holds exactly
        if exact && r.chance(12) {
            let by = 1u64 << (1 + r.below(20));
            for x in d.iter_mut().flatten() { *x *= by }
            for x in tw.iter_mut() { *x = (x.0 * by, x.1 * by) }
        }
        Inst { n, d, tw }
    }
    /// more nodes than a machine word has bits, with windows tight enough for few tours to be feasible
    fn large(r: &mut Rng) -> Inst {
        let span = if r.chance(20) { 65 } else { 12 };
        let n = 63 + r.below(span);
        let dmax = (2 + r.below(8)) as u64;
        let q = |x: u64| x / 25 * 25;
        let d: Vec<Vec<u64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 0 } else { q(dmax * UNIT / 2 + r.next() % (dmax * UNIT / 2 + 1)) }).collect()).collect();
        let mut tour: Vec<usize> = (1..n).collect();
        r.shuffle(&mut tour);
        let slack = dmax * UNIT * *r.pick(&[25u64, 50, 75, 100]) / 100;
        let mut tw = vec![(0, 0); n];
        let (mut t, mut pos) = (0u64, 0usize);
        for &x in &tour {
            t += d[pos][x];
            let a = q(t.saturating_sub(r.next() % (slack + 1)));
            tw[x] = (a, q(t + r.next() % (slack + 1)).max(t));
            pos = x;
        }
        t += d[pos][0];
        tw[0] = (0, t + slack);
        Inst { n, d, tw }
    }
    /// many nodes and wide windows: only ever explored near the end of the tours
    fn wide(r: &mut Rng) -> Inst {
        let span = if r.chance(30) { 70 } else { 8 };
        let n = 65 + r.below(span);
        let dmax = (2 + r.below(8)) as u64;
        let q = |x: u64| x / 25 * 25;
        let metric = r.chance(70);
        let d: Vec<Vec<u64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 0 } else if metric { q(dmax * UNIT / 2 + r.next() % (dmax * UNIT / 2 + 1)) } else { q(r.next() % (dmax * UNIT + 1)) }).collect()).collect();
        let total = n as u64 * dmax * UNIT;
        let pct = *r.pick(&[60u64, 75, 80, 100]);
        let tw = (0..n).map(|_| (if r.chance(10) { q(r.next() % (total / 2)) } else { 0 }, q(total * pct / 100 + r.next() % (total / 10)))).collect();
        Inst { n, d, tw }
    }
    /// the direct way from the depot to a city is too long for its window, the way through another is not
    fn detour() -> Inst { Inst { n: 3, d: vec![vec![0, 100, 900], vec![100, 0, 100], vec![100, 100, 0]], tw: vec![(0, 10_000), (0, 10_000), (0, 500)] } }
    /// the narrowest diagrams lose the optimum to the bound of a merged state, with any solver and cutset
    fn missed() -> Inst {
        let u = |v: &[u64]| v.iter().map(|x| x * UNIT).collect::<Vec<u64>>();
        Inst { n: 4, d: vec![u(&[0, 60, 53, 23]), u(&[60, 0, 47, 54]), u(&[53, 47, 0, 32]), u(&[23, 54, 32, 0])],
               tw: [(139, 385), (0, 248), (0, 349), (32, 312)].iter().map(|(a, b)| (a * UNIT, b * UNIT)).collect() }
    }
    /// as below, for many nodes: layer by layer, keeping the states that were reached
    fn opt_large(&self) -> Result<Option<u64>, ()> {
        let n = self.n;
        let mut cur: HashMap<(u128, usize), u64> = HashMap::new();
        cur.insert((0, 0), 0);
        // no city is entered by less than its shortest incoming way
        let least: Vec<u64> = (0..n).map(|y| (0..n).filter(|x| *x != y).map(|x| self.d[x][y]).min().unwrap()).collect();
        for k in 1..=n {
            let mut nx: HashMap<(u128, usize), u64> = HashMap::new();
            for (&(set, x), &t) in &cur {
                let open: Vec<usize> = if k == n { vec![0] } else { (1..n).filter(|y| set >> y & 1 == 0).collect() };
                if open.iter().any(|y| t + least[*y] > self.tw[*y].1) { continue }
                for y in open {
                    let t = t + self.d[x][y];
                    if t > self.tw[y].1 { continue }
                    let t = t.max(self.tw[y].0);
                    let e = nx.entry((set | 1 << y, y)).or_insert(t);
                    *e = (*e).min(t);
                }
            }
            cur = nx;
            if cur.len() > 400 { return Err(()) }
        }
        Ok(cur.values().min().copied())
    }
    /// earliest return to the depot, by dynamic programming over (visited set, last city): arriving earlier is
    /// never worse, since waiting for a window is allowed
    fn opt(&self) -> Option<u64> {
        let n = self.n;
        assert!(n <= 16);
        let m = n - 1;
        let enter = |t: u64, x: usize| -> Option<u64> { if t > self.tw[x].1 { None } else { Some(t.max(self.tw[x].0)) } };
        let mut f = vec![vec![u64::MAX; n]; 1 << m];
        let mut best = u64::MAX;
        for s in 0..(1usize << m) {
            let full = s == (1 << m) - 1;
            let starts: Vec<(usize, u64)> = if s == 0 { vec![(0, 0)] } else { (1..n).filter(|x| f[s][*x] != u64::MAX).map(|x| (x, f[s][x])).collect() };
            for (x, t) in starts {
                if full {
                    if let Some(t) = enter(t + self.d[x][0], 0) { best = best.min(t) }
                } else {
                    for y in 1..n { if s >> (y - 1) & 1 == 0 {
                        if let Some(t) = enter(t + self.d[x][y], y) { let g = &mut f[s | 1 << (y - 1)][y]; *g = (*g).min(t) }
                    } }
                }
            }
        }
        if best == u64::MAX { None } else { Some(best) }
    }
    fn value(&self) -> Option<i128> { self.opt().map(|t| -((t * (10_000 / UNIT)) as i128)) }
    fn text(&self, r: &mut Rng, fancy: bool) -> String {
        let num = |r: &mut Rng, v: u64| {
            let s = if v % UNIT == 0 { format!("{}", v / UNIT) } else { format!("{}.{:02}", v / UNIT, v % UNIT) };
            if fancy { match r.below(6) { 0 if v % UNIT == 0 => s + ".0", 1 if v % UNIT == 0 => s + ".", 2 if v % UNIT != 0 => s + "0", 3 => format!("0{s}"), 4 => format!("+{s}"), _ => s } } else { s }
        };
        let sep = |r: &mut Rng| if fancy { r.pick(&[" ", "  ", "\t", "      ", " \t "]).to_string() } else { " ".to_string() };
        let mut o = String::new();
        let noise = |r: &mut Rng, o: &mut String| if fancy { while r.chance(25) { *o += r.pick(&["\n", "# a comment 1 2 3\n", "  \t\n", "#\n", "   # 7 7 7\n"]); } };
        let eol = if fancy && r.chance(20) { "\r\n" } else { "\n" };
        noise(r, &mut o);
        o += &format!("{}{}{eol}", if fancy && r.chance(20) { "  " } else { "" }, self.n);
        for row in &self.d {
            noise(r, &mut o);
            if fancy && r.chance(20) { o += "   " }
            for (j, v) in row.iter().enumerate() { if j > 0 { o += &sep(r) } o += &num(r, *v) }
            if fancy && r.chance(40) { o += " " }
            o += eol;
        }
        for (a, b) in &self.tw {
            noise(r, &mut o);
            let (a, s, b) = (num(r, *a), sep(r), num(r, *b));
            o += &format!("{a}{s}{b}");
            if fancy && r.chance(40) { o += "     " }
            o += eol;
        }
        if fancy && r.chance(30) { o += "\n# end\n" }
        o
    }
    /// reads the text through the program's own reader
    fn load(&self, text: &str) -> model::Tsptw {
        let dir = cli::scratch();
        let f = format!("{dir}/tsptw-in-{}", std::process::id());
        std::fs::write(&f, text).unwrap();
        let inst = instance::TsptwInstance::from(File::open(&f).unwrap());
        let _ = std::fs::remove_file(&f);
        model::Tsptw::new(inst)
    }
    /// walks a tour; the times of arrival (in our units), or None when a window is missed
    fn walk(&self, tour: &[usize]) -> Vec<Option<u64>> {
        let (mut t, mut pos) = (Some(0u64), 0);
        let mut v = vec![];
        for &x in tour {
            t = t.and_then(|t| { let a = t + self.d[pos][x]; if a > self.tw[x].1 { None } else { Some(a.max(self.tw[x].0)) } });
            v.push(t);
            pos = x;
        }
        v
    }
}

/// The resolution with the amended model, in process: everything but the known defects is judged by its answer.
fn amended(i: &Inst, p: &model::Tsptw, a: &cli::Args, opt: Option<i128>) -> Result<vm::InProc, Bad> {
    let f = AmendedModel::new(p);
    let r = relax::TsptwRelax::new(p);
    let w = heuristics::TsptwWidth::new(p.nb_variables(), a.width.unwrap_or(1));
    let x = vm::in_process(&f, &AmendedRelax { f: &f, r: &r }, &heuristics::TsptwRanking, &w, a.barrier(), a.cutset(), a.threads.unwrap_or(4));
    vm::check_in_process(&f, &x, opt, "the resolution of the amended model")?;
    let _ = i;
    Ok(x)
}
/// A missed optimum is put down to a known defect when its place makes a difference in that resolution, when every
/// such difference is exactly the known one, and when amending it alone restores the optimum.
fn excused(c: &mut Case, i: &Inst, p: &model::Tsptw, a: &cli::Args, found: Option<i128>, opt: Option<i128>) -> Result<Option<&'static str>, Bad> {
    match (found, opt) { (None, Some(_)) => {} (Some(b), Some(o)) if b < o => {} _ => return Ok(None) }
    for _ in 0..3 { amended(i, p, a, opt)?; }
    let f = AmendedModel::new(p);
    let r = relax::TsptwRelax::new(p);
    let s = Spied { f: &f, r: &r, seen: Seen::default() };
    let w = heuristics::TsptwWidth::new(p.nb_variables(), a.width.unwrap_or(1));
    let mut again = 0;
    for _ in 0..6 {
        let x = vm::in_process(&s, &s, &heuristics::TsptwRanking, &w, a.barrier(), a.cutset(), a.threads.unwrap_or(4));
        again += (x.value.map(|x| x as i128) == found) as u64;
        if again > 0 { break }
    }
    c.st.add("excused_runs_reproduced", again.min(1));
    let _ = again;
    if s.seen.unexplained.load(SeqCst) > 0 { return Ok(None) }
    if s.seen.lookahead.load(SeqCst) > 0 { return Ok(Some(LOOKAHEAD)) }
    if s.seen.extra.load(SeqCst) + s.seen.waiting.load(SeqCst) > 0 { return Ok(Some("tsptw-merged-states")) }
    Ok(None)
}
fn e2e(c: &mut Case) -> Res {
    let nmax = *c.rng.pick(&[4, 6, 7, 8, 8, 9]);
    let i = if c.index == 0 { Inst::detour() } else if c.index == 1 { Inst::missed() } else if c.rng.chance(6) { Inst::large(&mut c.rng) } else { Inst::gen(&mut c.rng, nmax, true) };
    let opt = if i.n > 16 { match i.opt_large() { Ok(o) => o.map(|t| -((t * (10_000 / UNIT)) as i128)), Err(()) => return skip("too many states for the reference") } } else { i.value() };
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text);
    for _ in 0..if i.n > 16 { 1 } else { 2 } {
        let mut a = cli::Args::gen(&mut c.rng);
        if c.index == 1 { (a.width, a.threads) = (Some(1), Some(1)) }
        c.describe(&format!("{a:?}\n{text}"));
        let row = cli::solve(c, "tsptw", "i.tw", &text, &a)?;
        if row.status() == "Proved" && row.best()? != opt {
            match excused(c, &i, &p, &a, row.best()?, opt)? {
                Some(id) => c.known(id, || format!("the optimum {opt:?} is missed: {a:?} -> {row:?} on {text:?}")),
                None => cli::check_answer(&row, opt)?,
            }
        } else { cli::check_answer(&row, opt)? }
        if row.int(9)? > 1 { let h = mix(c.seed, row.int(10)? as u64); c.nontrivial(h, || format!("n={} optimum {opt:?} / {a:?} -> {row:?}", i.n)) }
    }
    for _ in 0..if i.n > 16 { 1 } else { 6 } {
        let a = cli::Args::gen(&mut c.rng);
        c.describe(&format!("{a:?}\n{text}"));
        let x = amended(&i, &p, &a, opt)?;
        c.st.add("amended_resolutions", 1);
        if x.explored > 1 { let h = mix(c.seed, x.explored_dd as u64); c.nontrivial(h, || format!("n={} optimum {opt:?} / amended {a:?} -> {x:?}", i.n)) }
    }
    if i.n > 64 { c.st.add("more_than_64_nodes", 1) }
    c.st.add(if opt.is_some() { "feasible" } else { "infeasible" }, 1);
    Ok(())
}
fn admissible(c: &mut Case) -> Res {
    let nmax = *c.rng.pick(&[4, 5, 6, 7]);
    let wide = c.rng.chance(10);
    let i = if wide { Inst::wide(&mut c.rng) } else { Inst::gen(&mut c.rng, nmax, true) };
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text);
    let r = relax::TsptwRelax::new(&p);
    let deep = if wide { i.n - 3 - c.rng.below(5) } else { 0 };
    if wide { c.st.add("more_than_64_nodes", 1) }
    vm::admissible(c, &p, &r, "tsptw", deep, &AmendedModel::new(&p))
}
/// Every tour walked through the model that was read costs what the data in the file says.
fn parse(c: &mut Case) -> Res {
    let nmax = *c.rng.pick(&[3, 6, 10, 20, 70]);
    let exact = c.rng.chance(60);
    let i = Inst::gen(&mut c.rng, nmax, exact);
    let text = i.text(&mut c.rng, true);
    c.describe(&text);
    let p = i.load(&text);
    if p.nb_variables() != i.n { return viol(format!("{} nodes were read as {}", i.n, p.nb_variables())) }
    // single precision holds 24 bits; a value is truncated to the fixed precision after it was rounded
    let scale = 10_000 / UNIT;
    let vmax = i.d.iter().flatten().chain(i.tw.iter().flat_map(|t| [&t.0, &t.1])).max().copied().unwrap_or(0) * scale;
    let tol_of = |hops: u64| if exact && vmax < (1 << 24) { 0 } else { (hops + 1) * (2 + (vmax >> 23)) };
    let mut steps = 0u64;
    for _ in 0..12 {
        let mut tour: Vec<usize> = (1..i.n).collect();
        c.rng.shuffle(&mut tour);
        tour.push(0);
        let want = i.walk(&tour);
        let mut s = p.initial_state();
        let mut t: isize = -p.initial_value();
        for (k, &x) in tour.iter().enumerate() {
            let var = match p.next_variable(&mut std::iter::once(&s)) { Some(v) => v, None => return viol("the tour ends early") };
            let mut ds = vec![];
            p.for_each_in_domain(var, &s, |d| ds.push(d.value));
            let tol = tol_of(k as u64 + 1) as i128;
            let slackiest = want[k].map(|w| {
                // distance of the raw arrival to its deadline, for the rounding tolerance
                let pos = if k == 0 { 0 } else { tour[k - 1] };
                let before = if k == 0 { 0 } else { want[k - 1].unwrap() };
                let _ = w;
                (i.tw[x].1 as i128 - (before + i.d[pos][x]) as i128) * scale as i128
            });
            match slackiest {
                None => break, // late: whether the move is offered depends on look-ahead
                Some(sl) => {
                    // the tour so far is on time; if it stays so it must be allowed, but for the known defect of the
                    // look-ahead, which gives up as soon as one of the other cities is too far to go to next
                    let (pos, before) = if k == 0 { (0, 0) } else { (tour[k - 1], want[k - 1].unwrap()) };
                    let whole = want.iter().all(|w| w.is_some()) && (x == 0 || tour[k..i.n - 1].iter().all(|y| before + i.d[pos][*y] <= i.tw[*y].1));
                    if whole && tol == 0 && sl >= 0 && !ds.contains(&(x as isize)) { return viol(format!("tour {tour:?} is feasible but step {k} is not allowed")) }
                    if !ds.contains(&(x as isize)) { break }
                }
            }
            let d = Decision { var, value: x as isize };
            t -= p.transition_cost(&s, d);
            s = p.transition(&s, d);
            steps += 1;
            let w = want[k].unwrap() * scale;
            if (t as i128 - w as i128).abs() > tol { return viol(format!("after step {k} of tour {tour:?} the data say {w} but the model that was read says {t} (tolerance {tol})")) }
        }
        // a move that is late must never be offered at the step where it becomes late
        if let Some(k) = want.iter().position(|w| w.is_none()) {
            let mut s = p.initial_state();
            let mut ok = true;
            for (j, &x) in tour.iter().enumerate().take(k + 1) {
                let var = p.next_variable(&mut std::iter::once(&s)).unwrap();
                let mut ds = vec![];
                p.for_each_in_domain(var, &s, |d| ds.push(d));
                match ds.iter().find(|d| d.value == x as isize) {
                    None => { ok = false; break }
                    Some(d) => {
                        if j == k && exact && vmax < (1 << 24) {
                            let full: Vec<isize> = ds.iter().map(|d| d.value).collect();
                            return viol(format!("step {k} of tour {tour:?} misses its window but is offered: {full:?}"));
                        }
                        s = p.transition(&s, *d);
                    }
                }
            }
            let _ = ok;
        }
    }
    c.st.add("model_steps_compared", steps);
    if steps > 0 { let h = c.seed; let n = i.n; c.nontrivial(h, || format!("{n} nodes, exact={exact}, {steps} steps compared; {}", text.chars().take(200).collect::<String>())) }
    Ok(())
}
fn report(c: &mut Case) -> Res {
    let i = if c.rng.chance(10) { let n = 2 + c.rng.below(4); Inst { n, d: vec![vec![0; n]; n], tw: vec![(0, 500); n] } } else { Inst::gen(&mut c.rng, 7, true) };
    let opt = i.value();
    let text = i.text(&mut c.rng, false);
    let p = i.load(&text);
    cli::report_case(c, "tsptw", &text, opt, &format!("tsptw n={}", i.n), |c, a, found| Ok(excused(c, &i, &p, a, found, opt)?.is_some()), |a| {
        let w = heuristics::TsptwWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let r = vm::in_process(&p, &relax::TsptwRelax::new(&p), &heuristics::TsptwRanking, &w, a.barrier(), a.cutset(), 1);
        Some((r.explored as u64, r.explored_dd as u64))
    })
}
fn config(c: &mut Case) -> Res {
    let i = Inst::gen(&mut c.rng, 8, true);
    let text = i.text(&mut c.rng, false);
    let p = i.load(&text);
    cli::config_case(c, "tsptw", &text, &format!("tsptw n={}", i.n), |a| {
        let w = heuristics::TsptwWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let r = vm::in_process(&p, &relax::TsptwRelax::new(&p), &heuristics::TsptwRanking, &w, a.barrier(), a.cutset(), 1);
        (r.explored as u64, r.explored_dd as u64, r.value.map(|x| x as i128))
    })
}
/// The shipped instances, with the model amended in the places of the known defects.
fn bench(c: &mut Case) -> Res {
    let max = if c.rng.chance(85) { 21 } else { 41 };
    let f = match vm::shipped(c, "tsptw", &|f| vm::size_of(f) <= max) { Some(f) => f, None => return skip("no shipped instances") };
    let p = model::Tsptw::new(instance::TsptwInstance::from(File::open(&f).unwrap()));
    let m = AmendedModel::new(&p);
    let r = relax::TsptwRelax::new(&p);
    vm::bench_case(c, &m, &f, None, |a, polls, limit| {
        let w = heuristics::TsptwWidth::new(p.nb_variables(), a.width.unwrap());
        vm::in_process_until(&m, &AmendedRelax { f: &m, r: &r }, &heuristics::TsptwRanking, &w, a.barrier(), a.cutset(), a.threads.unwrap(), polls, limit)
    })
}
/// The model itself, on random and shipped instances.
fn wellformed(c: &mut Case) -> Res {
    let w = 1 + c.rng.below(3);
    if c.rng.chance(30) {
        let f = match vm::shipped(c, "tsptw", &|_| true) { Some(f) => f, None => return skip("no shipped instances") };
        c.describe(&f);
        let p = model::Tsptw::new(instance::TsptwInstance::from(File::open(&f).unwrap()));
        c.st.add("shipped_instances", 1);
        return vm::wellformed(c, &p, &relax::TsptwRelax::new(&p), &heuristics::TsptwRanking, &heuristics::TsptwWidth::new(p.nb_variables(), w), &f)
    }
    let nmax = *c.rng.pick(&[3, 6, 10, 20, 70]);
    let i = Inst::gen(&mut c.rng, nmax, true);
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text);
    vm::wellformed(c, &p, &relax::TsptwRelax::new(&p), &heuristics::TsptwRanking, &heuristics::TsptwWidth::new(p.nb_variables(), w), "tsptw")
}
fn main() { main_loop(&[("e2e", e2e), ("admissible", admissible), ("parse", parse), ("report", report), ("config", config), ("bench", bench), ("wellformed", wellformed)]) }
