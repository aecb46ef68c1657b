#![allow(clippy::all)]
#[path = "../common/mod.rs"]
mod common;
include!(concat!(env!("OUT_DIR"), "/srflp_mods.rs"));

use common::{cli, model as vm, rng::*, run::*};
use engineering::*;
use std::fs::File;

#[derive(Clone, Debug)]
struct Inst { n: usize, len: Vec<i64>, written: Vec<Vec<i64>>, flow: Vec<Vec<i64>> }

impl Inst {
    /// `huge`: flows beyond what the bound's single precision ratios tell apart (a known finding), for the reader only
    fn gen(r: &mut Rng, nmax: usize, huge: bool) -> Inst {
        let n = if r.chance(4) { 1 } else { 2 + r.below(nmax.max(2) - 1) };
        Inst::gen_n(r, n, huge)
    }
    fn gen_n(r: &mut Rng, n: usize, huge: bool) -> Inst {
        let lmax = *r.pick(&[1i64, 3, 10, 100, 997]);
        // total flow to a department times a length stays below 2^22: distinct ratios differ in single precision
        let top = ((1i64 << 22) / (2 * n as i64 * lmax) - 5).max(1);
        let fmax = if huge { *r.pick(&[1i64, 5, 20, 1000, 1_000_003, 30_000_001]) } else { (*r.pick(&[1i64, 5, 20, 1000, 100_003])).min(top) };
        let len: Vec<i64> = (0..n).map(|_| 1 + (r.next() % lmax as u64) as i64).collect();
        let zero = *r.pick(&[0usize, 30, 70]);
        let base = if r.chance(20) { fmax } else { 0 }; // large, nearly equal flows: nearly equal ratios
        let mut w = vec![vec![0; n]; n];
        let sym = r.below(3);
        for i in 0..n { for j in 0..n { if i != j && !r.chance(zero) { w[i][j] = base + (r.next() % (if base > 0 { 5 } else { fmax as u64 + 1 })) as i64 } } }
        for i in 0..n { for j in 0..i { match sym {
            0 => w[i][j] = w[j][i],
            1 => if r.chance(50) { w[i][j] = w[j][i] },
            _ => w[i][j] = 0, // triangular
        } } }
        // great flows and lengths now and then: by powers of two, which keep the ratios apart
        let mut len = len;
        if !huge && r.chance(12) {
            let (a, b) = (1i64 << r.below(20), 1i64 << r.below(11));
            for x in w.iter_mut().flatten() { *x *= a }
            for x in len.iter_mut() { *x *= b }
        }
        let mut f = w.clone();
        for i in 0..n { for j in 0..n { f[i][j] = if w[i][j] == w[j][i] { w[i][j] } else { w[i][j] + w[j][i] } } }
        for i in 0..n { f[i][i] = 0 }
        Inst { n, len, written: w, flow: f }
    }
    /// more departments than a machine word has bits; only neighbours along short chains exchange anything, so the optimum is zero
    fn chains(r: &mut Rng) -> Inst {
        let n = 63 + r.below(*r.clone().pick(&[5usize, 5, 70]));
        let len: Vec<i64> = (0..n).map(|_| 1 + (r.next() % 100) as i64).collect();
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let mut f = vec![vec![0; n]; n];
        let (links, most) = (*r.pick(&[0usize, 20, 50]), 1 + r.below(2));
        let mut run = 0;
        for k in 1..n {
            if run < most && r.chance(links) { let x = 1 + (r.next() % 1000) as i64; (f[order[k - 1]][order[k]], f[order[k]][order[k - 1]]) = (x, x); run += 1 } else { run = 0 }
        }
        Inst { n, len, written: f.clone(), flow: f }
    }
    /// as many departments, of which three exchange something two by two: one of them is between the others
    fn triangle(r: &mut Rng) -> (Inst, i128) {
        let n = 63 + r.below(6);
        let len: Vec<i64> = (0..n).map(|_| 1 + (r.next() % 100) as i64).collect();
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let (a, b, x) = (if r.chance(70) { n - 1 } else { order[0] }, order[1], order[2]);
        let mut f = vec![vec![0; n]; n];
        if a == b || a == x { return (Inst { n, len, written: f.clone(), flow: f }, 0) }
        for (i, j) in [(a, b), (b, x), (x, a)] { let y = 1 + (r.next() % 1000) as i64; (f[i][j], f[j][i]) = (y, y) }
        let best = (f[a][b] * len[x]).min(f[b][x] * len[a]).min(f[x][a] * len[b]) as i128;
        (Inst { n, len, written: f.clone(), flow: f }, best)
    }
    /// least sum of flow times the total length strictly in between: departments are laid from the left, and
    /// whenever one is laid it separates every pair of an earlier and a later one
    fn opt(&self) -> i128 {
        let n = self.n;
        let full = (1usize << n) - 1;
        let mut g = vec![i128::MAX; 1 << n];
        g[0] = 0;
        for s in 0..full {
            if g[s] == i128::MAX { continue }
            for x in 0..n { if s >> x & 1 == 0 {
                let mut cut = 0i128;
                for a in 0..n { if s >> a & 1 == 1 { for b in 0..n { if b != x && s >> b & 1 == 0 { cut += self.flow[a][b] as i128 } } } }
                let t = g[s] + cut * self.len[x] as i128;
                if t < g[s | 1 << x] { g[s | 1 << x] = t }
            } }
        }
        g[full]
    }
    fn cost(&self, order: &[usize]) -> i128 {
        let mut t = 0i128;
        for i in 0..order.len() { for j in i + 1..order.len() {
            let between: i64 = order[i + 1..j].iter().map(|&x| self.len[x]).sum();
            t += self.flow[order[i]][order[j]] as i128 * between as i128;
        } }
        t
    }
    fn text(&self, r: &mut Rng, fancy: bool) -> String {
        let style = if fancy { r.below(5) } else { 0 };
        let sep = |r: &mut Rng| match style { 0 => " ".to_string(), 1 => ",".into(), 2 => "\t".into(), 3 => r.pick(&[" ", ", ", "  ", "\t", " ,\t"]).to_string(), _ => ", ".into() };
        let mut o = String::new();
        let noise = |r: &mut Rng, o: &mut String| if fancy { while r.chance(20) { *o += r.pick(&["\n", "   \n", "\t\n"]) } };
        noise(r, &mut o);
        o += &format!("{}", self.n);
        if fancy && r.chance(20) { o += " " }
        o += "\n";
        noise(r, &mut o);
        let line = |r: &mut Rng, v: &[i64]| {
            let mut s = String::new();
            if fancy && r.chance(20) { s += "  " }
            for (i, x) in v.iter().enumerate() { if i > 0 { s += &sep(r) } s += &x.to_string() }
            if fancy && r.chance(30) { s += " " }
            if fancy && r.chance(10) { s += "," }
            s + "\n"
        };
        o += &line(r, &self.len);
        for row in &self.written { noise(r, &mut o); o += &line(r, row) }
        if fancy && r.chance(40) { o += "\n\n" }
        o
    }
    fn load(&self, text: &str) -> model::Srflp {
        let f = format!("{}/srflp-in-{}", cli::scratch(), std::process::id());
        std::fs::write(&f, text).unwrap();
        let inst = instance::SrflpInstance::from(File::open(&f).unwrap());
        let _ = std::fs::remove_file(&f);
        model::Srflp::new(inst)
    }
}
fn e2e(c: &mut Case) -> Res {
    if c.index == 0 {
        let f = vec![vec![0, 2, 1], vec![2, 0, 3], vec![1, 3, 0]];
        let i = Inst { n: 3, len: vec![1, 2, 1], written: f.clone(), flow: f };
        let (text, opt) = (i.text(&mut c.rng, false), Some(-i.opt()));
        return cli::checked_build(c, "srflp", &text, opt, "srflp-bound-underflow", "examples/srflp/model.rs", "attempt to subtract with overflow");
    }
    if c.rng.chance(4) {
        let (i, cost) = if c.rng.chance(12) { Inst::triangle(&mut c.rng) } else { (Inst::chains(&mut c.rng), 0) };
        let best = -cost;
        let text = i.text(&mut c.rng, false);
        let mut a = cli::Args::gen(&mut c.rng);
        a.timeout = Some(2);
        c.describe(&format!("{a:?}\n{text}"));
        let row = cli::solve(c, "srflp", "i", &text, &a)?;
        if row.int(6)? > best || row.int(7)? < best { return viol(format!("the bounds exclude the optimum {best} of {} departments: {row:?}", i.n)) }
        if row.status() == "Timeout" { c.st.add("large_stopped", 1); return Ok(()) }
        cli::check_answer(&row, Some(best))?;
        c.st.add("more_than_62_departments", 1);
        if cost > 0 { c.st.add("more_than_62_departments_at_a_cost", 1) }
        let h = mix(c.seed, row.int(10)? as u64);
        c.nontrivial(h, || format!("n={} optimum {best} / {a:?} -> {row:?}", i.n));
        return Ok(());
    }
    let nmax = *c.rng.pick(&[3, 5, 7, 8, 9, 10, 11, 12]);
    let i = Inst::gen(&mut c.rng, nmax, false);
    let opt = Some(-i.opt());
    let text = i.text(&mut c.rng, false);
    for _ in 0..3 {
        let a = cli::Args::gen(&mut c.rng);
        c.describe(&format!("{a:?}\n{text}"));
        let row = cli::solve(c, "srflp", "i", &text, &a)?;
        cli::check_answer(&row, opt)?;
        if row.int(9)? > 1 { let h = mix(c.seed, row.int(10)? as u64); c.nontrivial(h, || format!("n={} optimum {opt:?} / {a:?} -> {row:?}", i.n)) }
    }
    // many more resolutions by the library, without the detour of a process
    let p = i.load(&text);
    for _ in 0..if i.n > 10 { 2 } else { 6 } {
        let a = cli::Args::gen(&mut c.rng);
        c.describe(&format!("in process {a:?}\n{text}"));
        let w = heuristics::SrflpWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let x = vm::in_process(&p, &relax::SrflpRelax::new(&p), &heuristics::SrflpRanking, &w, a.barrier(), a.cutset(), a.threads.unwrap_or(4));
        vm::check_in_process(&p, &x, opt, "the resolution")?;
        c.st.add("in_process_resolutions", 1);
        if x.explored > 1 { let h = mix(c.seed, x.explored_dd as u64); c.nontrivial(h, || format!("n={} optimum {opt:?} / in process {a:?} -> {x:?}", i.n)) }
    }
    Ok(())
}
struct Shipped;
impl vm::Amend<state::State> for Shipped { fn bounds_finished(&self) -> bool { false } }
/// The departments are ordered by single precision ratios, which do not tell these two apart: known finding.
fn close_ratios(c: &mut Case) -> Res {
    let mut f = vec![vec![0; 3]; 3];
    (f[0][1], f[0][2]) = (90_000_013, 30_000_005);
    (f[1][0], f[2][0]) = (f[0][1], f[0][2]);
    let i = Inst { n: 3, len: vec![1, 3, 1], written: f.clone(), flow: f };
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text);
    let s = p.transition(&p.initial_state(), Decision { var: Variable(0), value: 0 });
    let (e, best) = (p.estimate(&s), vm::best(&p, &s, &mut vm::Memo::new(100))?);
    if best != Some(-90_000_013) { return viol(format!("after department 0 the best completion is worth -90000013 by hand but {best:?} by the model")) }
    if e == -90_000_015 { c.known("srflp-bound-f32", || format!("the bound {e} of the state after department 0 is below its best completion, worth -90000013, on {text:?}")) }
    else if e < -90_000_013 { return viol(format!("the bound {e} of the state after department 0 is below its best completion, worth -90000013")) }
    Ok(())
}
fn admissible(c: &mut Case) -> Res {
    if c.index == 0 { return close_ratios(c) }
    let nmax = *c.rng.pick(&[4, 5, 6, 7]);
    let wide = c.rng.chance(6);
    let span = if c.rng.chance(30) { 65 } else { 6 };
    let n = 64 + c.rng.below(span);
    let i = if wide { Inst::gen_n(&mut c.rng, n, false) } else { Inst::gen(&mut c.rng, nmax, false) };
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text);
    let deep = if wide { i.n - 3 - c.rng.below(4) } else { 0 };
    if wide { c.st.add("more_than_63_departments", 1) }
    vm::admissible(c, &p, &relax::SrflpRelax::new(&p), "srflp", deep, &Shipped)
}
fn parse(c: &mut Case) -> Res {
    let nmax = *c.rng.pick(&[3, 6, 10, 20, 70]);
    let i = Inst::gen(&mut c.rng, nmax, true);
    let text = i.text(&mut c.rng, true);
    c.describe(&text);
    let p = i.load(&text);
    if p.nb_variables() != i.n { return viol(format!("{} departments were read as {}", i.n, p.nb_variables())) }
    for _ in 0..8 {
        let mut order: Vec<usize> = (0..i.n).collect();
        c.rng.shuffle(&mut order);
        let mut s = p.initial_state();
        let mut v = p.initial_value();
        for &x in &order {
            let var = match p.next_variable(&mut std::iter::once(&s)) { Some(v) => v, None => return viol("the arrangement ends early") };
            let mut ds = vec![];
            p.for_each_in_domain(var, &s, |d| ds.push(d));
            let d = match ds.iter().find(|d| d.value == x as isize) { Some(d) => *d, None => return viol(format!("arrangement {order:?} is not allowed")) };
            v += p.transition_cost(&s, d);
            s = p.transition(&s, d);
        }
        if p.next_variable(&mut std::iter::once(&s)).is_some() { return viol("a full arrangement is not terminal") }
        let want = -i.cost(&order);
        if v as i128 != want { return viol(format!("arrangement {order:?} costs {want} by the data but {v} in the model that was read")) }
        c.st.add("arrangements_compared", 1);
    }
    let n = i.n;
    let h = c.seed;
    c.nontrivial(h, || format!("{n} departments; {}", text.chars().take(200).collect::<String>()));
    Ok(())
}
fn report(c: &mut Case) -> Res {
    let i = Inst::gen(&mut c.rng, 8, false);
    let opt = Some(-i.opt());
    let text = i.text(&mut c.rng, false);
    let p = i.load(&text);
    cli::report_case(c, "srflp", &text, opt, &format!("srflp n={}", i.n), |_, _, _| Ok(false), |a| {
        let w = heuristics::SrflpWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let r = vm::in_process(&p, &relax::SrflpRelax::new(&p), &heuristics::SrflpRanking, &w, a.barrier(), a.cutset(), 1);
        Some((r.explored as u64, r.explored_dd as u64))
    })
}
/// Runs stopped by their time limit in the middle of the work: larger instances, one second.
fn midrun(c: &mut Case) -> Res {
    let n = 13 + c.rng.below(5);
    let i = Inst::gen_n(&mut c.rng, n, false);
    let opt = Some(-i.opt());
    let text = i.text(&mut c.rng, false);
    let head = cli::header("srflp")?;
    let a = cli::Args { width: Some(1), threads: Some(1 + c.rng.below(3)), solver: *c.rng.pick(&[Some("parallel"), Some("barrier")]), cutset: *c.rng.pick(&[Some("lel"), Some("frontier")]), timeout: Some(1) };
    c.describe(&format!("{a:?}\n{text}"));
    let row = cli::solve(c, "srflp", "i", &text, &a)?;
    cli::check_report(&row, &head, "i", &a, opt)?;
    c.st.add(&format!("midrun_{}", row.status()), 1);
    let h = mix(c.seed, 3);
    if row.status() == "Timeout" { c.nontrivial(h, || format!("n={} optimum {opt:?} / {a:?} -> {row:?}", i.n)) }
    Ok(())
}
fn config(c: &mut Case) -> Res {
    let n = 3 + c.rng.below(7);
    let i = Inst::gen_n(&mut c.rng, n, false);
    let text = i.text(&mut c.rng, false);
    let p = i.load(&text);
    cli::config_case(c, "srflp", &text, &format!("srflp n={}", i.n), |a| {
        let w = heuristics::SrflpWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let r = vm::in_process(&p, &relax::SrflpRelax::new(&p), &heuristics::SrflpRanking, &w, a.barrier(), a.cutset(), 1);
        (r.explored as u64, r.explored_dd as u64, r.value.map(|x| x as i128))
    })
}
/// Names, refusals, thread counts and time limits of the command line, which the three programs share.
fn options(c: &mut Case) -> Res {
    cli::names_case(c)?;
    if c.rng.chance(70) {
        let i = Inst::gen(&mut c.rng, 4, false);
        let text = i.text(&mut c.rng, false);
        return cli::refusal_case(c, "srflp", &text);
    }
    let n = 14 + c.rng.below(5);
    let i = Inst::gen_n(&mut c.rng, n, false);
    let text = i.text(&mut c.rng, false);
    let a = cli::Args { width: Some(1), threads: if c.rng.chance(65) { Some(1 + c.rng.below(6)) } else { None }, solver: *c.rng.pick(&[Some("parallel"), Some("barrier")]), cutset: *c.rng.pick(&[Some("lel"), Some("frontier")]), timeout: Some(1) };
    // a limit that one run exceeds may have been delayed by the machine; one that every run exceeds is not kept
    let mut over = vec![];
    for _ in 0..6 { match cli::threads_case(c, "srflp", &text, &a, &format!("srflp n={n}"))? { Some(o) => over.push(o), None => return Ok(()) } if over.last().unwrap() < &0.5 { return Ok(()) } }
    viol(format!("each of {} runs exceeded its limit of 1 s by more than half: {over:?}", over.len()))
}
/// The shipped instances, the smaller ones with their optimum.
fn bench(c: &mut Case) -> Res {
    let max = if c.rng.chance(85) { 20 } else { 36 };
    let f = match vm::shipped(c, "srflp", &|f| vm::size_of(f) <= max) { Some(f) => f, None => return skip("no shipped instances") };
    let p = model::Srflp::new(instance::SrflpInstance::from(File::open(&f).unwrap()));
    let n = p.nb_variables();
    let known = if n > 16 { None } else {
        let flow = (0..n).map(|i| (0..n).map(|j| p.instance.flows[(i, j)] as i64).collect()).collect::<Vec<Vec<i64>>>();
        Some(-Inst { n, len: p.instance.lengths.iter().map(|x| *x as i64).collect(), written: flow.clone(), flow }.opt())
    };
    c.st.add(if known.is_some() { "instances_with_known_optimum" } else { "larger_instances" }, 1);
    vm::bench_case(c, &p, &f, known, |a, polls, limit| {
        let w = heuristics::SrflpWidth::new(n, a.width.unwrap());
        vm::in_process_until(&p, &relax::SrflpRelax::new(&p), &heuristics::SrflpRanking, &w, a.barrier(), a.cutset(), a.threads.unwrap(), polls, limit)
    })
}
/// The model itself, on random and shipped instances.
fn wellformed(c: &mut Case) -> Res {
    let w = 1 + c.rng.below(3);
    if c.rng.chance(30) {
        let f = match vm::shipped(c, "srflp", &|_| true) { Some(f) => f, None => return skip("no shipped instances") };
        c.describe(&f);
        let p = model::Srflp::new(instance::SrflpInstance::from(File::open(&f).unwrap()));
        c.st.add("shipped_instances", 1);
        return vm::wellformed(c, &p, &relax::SrflpRelax::new(&p), &heuristics::SrflpRanking, &heuristics::SrflpWidth::new(p.nb_variables(), w), &f)
    }
    let nmax = *c.rng.pick(&[3, 6, 10, 20, 70]);
    let i = Inst::gen(&mut c.rng, nmax, false);
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text);
    vm::wellformed(c, &p, &relax::SrflpRelax::new(&p), &heuristics::SrflpRanking, &heuristics::SrflpWidth::new(p.nb_variables(), w), "srflp")
}
fn main() { main_loop(&[("e2e", e2e), ("admissible", admissible), ("parse", parse), ("report", report), ("config", config), ("bench", bench), ("wellformed", wellformed), ("options", options), ("midrun", midrun)]) }
