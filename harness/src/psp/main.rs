#![allow(clippy::all)]
#[path = "../common/mod.rs"]
mod common;
include!(concat!(env!("OUT_DIR"), "/psp_mods.rs"));

use common::{cli, model as vm, rng::*, run::*};
use engineering::*;
use std::collections::HashMap;
use std::fs::File;

#[derive(Clone, Debug)]
struct Inst { periods: usize, items: usize, change: Vec<Vec<u64>>, stock: Vec<u64>, demand: Vec<Vec<u8>>, optimum: Option<u64> }

impl Inst {
    fn gen(r: &mut Rng, pmax: usize, imax: usize) -> Inst {
        let periods = 1 + r.below(pmax);
        let items = 1 + r.below(imax);
        let cmax = *r.pick(&[0u64, 1, 5, 100, 10_000, 1 << 33]);
        let lo = if r.chance(50) { cmax / 2 } else { 0 };
        let mut ch = vec![vec![0u64; items]; items];
        for i in 0..items { for j in 0..items { if i != j { ch[i][j] = lo + r.next() % (cmax - lo + 1) } } }
        if r.chance(30) { for i in 0..items { for j in 0..i { ch[i][j] = ch[j][i] } } }
        for k in 0..items { for i in 0..items { for j in 0..items { ch[i][j] = ch[i][j].min(ch[i][k] + ch[k][j]) } } }
        let smax = *r.pick(&[0u64, 1, 10, 1000, 1 << 32]);
        let stock: Vec<u64> = (0..items).map(|_| r.next() % (smax + 1)).collect();
        let mut demand = vec![vec![0u8; periods]; items];
        // orders backwards from a plan, so that most instances are feasible
        let fill = *r.pick(&[30, 60, 90, 100]);
        for t in 0..periods { if r.chance(fill) {
            let i = r.below(items);
            let span = 1 + r.below(periods);
            let mut due = t + r.below((periods - t).min(span));
            while due < periods && demand[i][due] == 1 { due += 1 }
            if due < periods { demand[i][due] = 1 }
        } }
        if r.chance(12) { let (i, t) = (r.below(items), r.below(periods)); demand[i][t] = 1 }
        Inst { periods, items, change: ch, stock, demand, optimum: if r.chance(50) { Some(r.next() % 100_000) } else { None } }
    }
    fn orders(&self) -> usize { self.demand.iter().flatten().map(|x| *x as usize).sum() }
    fn dues(&self, i: usize) -> Vec<usize> { (0..self.periods).filter(|t| self.demand[i][*t] == 1).collect() }
    /// cost of a plan (item per period, or none); None when an order is late, missing or in excess
    fn cost(&self, plan: &[Option<usize>]) -> Option<i128> {
        let mut made = vec![vec![]; self.items];
        let mut t = 0i128;
        let mut last: Option<usize> = None;
        for (p, x) in plan.iter().enumerate() { if let Some(x) = *x {
            made[x].push(p);
            if let Some(l) = last { t += self.change[l][x] as i128 }
            last = Some(x);
        } }
        for i in 0..self.items {
            let due = self.dues(i);
            if due.len() != made[i].len() { return None }
            for (d, m) in due.iter().zip(&made[i]) { if m > d { return None } t += (*d - *m) as i128 * self.stock[i] as i128 }
        }
        Some(t)
    }
    /// forward dynamic program over (orders produced of each item, last item produced)
    fn opt(&self) -> Option<i128> {
        let dues: Vec<Vec<usize>> = (0..self.items).map(|i| self.dues(i)).collect();
        let mut cur: HashMap<(Vec<u8>, usize), i128> = HashMap::new();
        cur.insert((vec![0; self.items], usize::MAX), 0);
        for t in 0..self.periods {
            let mut nx: HashMap<(Vec<u8>, usize), i128> = HashMap::new();
            let mut put = |k: (Vec<u8>, usize), v: i128| { let e = nx.entry(k).or_insert(i128::MAX); if v < *e { *e = v } };
            for ((k, l), v) in &cur {
                put((k.clone(), *l), *v);
                for i in 0..self.items {
                    let m = k[i] as usize;
                    if m < dues[i].len() && t <= dues[i][m] {
                        let mut k2 = k.clone();
                        k2[i] += 1;
                        let ch = if *l == usize::MAX { 0 } else { self.change[*l][i] as i128 };
                        put((k2, i), v + ch + (dues[i][m] - t) as i128 * self.stock[i] as i128);
                    }
                }
            }
            cur = nx;
        }
        cur.iter().filter(|((k, _), _)| (0..self.items).all(|i| k[i] as usize == dues[i].len())).map(|(_, v)| *v).min()
    }
    fn text(&self, r: &mut Rng, fancy: bool) -> String {
        let sep = |r: &mut Rng| if fancy { r.pick(&[" ", "  ", "\t", "   "]).to_string() } else { " ".into() };
        let blank = |r: &mut Rng| if fancy && r.chance(30) { "  \n" } else { "\n" };
        let line = |r: &mut Rng, v: Vec<u64>| {
            let mut s = String::new();
            if fancy && r.chance(20) { s += " " }
            for (i, x) in v.iter().enumerate() { if i > 0 { s += &sep(r) } s += &x.to_string() }
            if !fancy || r.chance(50) { s += " " }
            s + "\n"
        };
        let mut o = format!("{}\n{}\n{}\n\n", self.periods, self.items, self.orders());
        for row in &self.change { o += &line(r, row.clone()) }
        o += blank(r);
        o += &line(r, self.stock.clone());
        o += blank(r);
        for d in &self.demand { o += &line(r, d.iter().map(|x| *x as u64).collect()) }
        match self.optimum {
            Some(x) => { o += blank(r); o += "\n"; o += &format!("{x}\n") }
            None => if r.chance(50) { o += "\n" },
        }
        o
    }
    fn load(&self, text: &str) -> Result<psp::Psp, Bad> {
        let f = format!("{}/psp-in-{}", cli::scratch(), std::process::id());
        std::fs::write(&f, text).unwrap();
        let r = psp::Psp::try_from(File::open(&f).unwrap());
        let _ = std::fs::remove_file(&f);
        match r { Ok(p) => Ok(p), Err(e) => viol(format!("a well-formed file is refused: {e}")) }
    }
}
fn e2e(c: &mut Case) -> Res {
    if c.index == 0 {
        // one order, three periods: two of them idle
        let i = Inst { periods: 3, items: 1, change: vec![vec![0]], stock: vec![1], demand: vec![vec![0, 1, 0]], optimum: None };
        let (text, opt) = (i.text(&mut c.rng, false), i.opt().map(|x| -x));
        return cli::checked_build(c, "psp", &text, opt, "psp-idle-underflow", "examples/psp/psp.rs", "attempt to subtract with overflow");
    }
    let (pm, im) = *c.rng.pick(&[(4, 2), (7, 3), (9, 4), (12, 4), (10, 6), (16, 3), (24, 3), (20, 5), (32, 2)]);
    let i = Inst::gen(&mut c.rng, pm, im);
    let opt = i.opt().map(|x| -x);
    let text = i.text(&mut c.rng, false);
    for _ in 0..3 {
        let a = cli::Args::gen(&mut c.rng);
        c.describe(&format!("{a:?}\n{text}"));
        let row = cli::solve(c, "psp", "i", &text, &a)?;
        cli::check_answer(&row, opt)?;
        if row.int(9)? > 1 { let h = mix(c.seed, row.int(10)? as u64); c.nontrivial(h, || format!("{} periods {} items {} orders optimum {opt:?} / {a:?} -> {row:?}", i.periods, i.items, i.orders())) }
    }
    // many more resolutions by the library, without the detour of a process
    let p = i.load(&text)?;
    for _ in 0..8 {
        let a = cli::Args::gen(&mut c.rng);
        c.describe(&format!("in process {a:?}\n{text}"));
        let w = psp::PspWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let x = vm::in_process(&p, &psp::PspRelax, &psp::PspRanking, &w, a.barrier(), a.cutset(), a.threads.unwrap_or(4));
        vm::check_in_process(&p, &x, opt, "the resolution")?;
        c.st.add("in_process_resolutions", 1);
        if x.explored > 1 { let h = mix(c.seed, x.explored_dd as u64); c.nontrivial(h, || format!("{} periods {} items {} orders optimum {opt:?} / in process {a:?} -> {x:?}", i.periods, i.items, i.orders())) }
    }
    c.st.add(if opt.is_some() { "feasible" } else { "infeasible" }, 1);
    Ok(())
}
fn admissible(c: &mut Case) -> Res {
    let (pm, im) = *c.rng.pick(&[(4, 2), (6, 3), (7, 4), (9, 3)]);
    let i = Inst::gen(&mut c.rng, pm, im);
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text)?;
    vm::admissible(c, &p, &psp::PspRelax, "psp", 0, &vm::AsShipped)
}
/// Random plans walked through the model that was read are allowed and cost what the data in the file say.
fn parse(c: &mut Case) -> Res {
    let (pm, im) = *c.rng.pick(&[(4, 2), (8, 3), (15, 5), (30, 8), (60, 10)]);
    let i = Inst::gen(&mut c.rng, pm, im);
    let text = i.text(&mut c.rng, true);
    c.describe(&text);
    let p = i.load(&text)?;
    if p.nb_variables() != i.periods { return viol(format!("{} periods were read as {}", i.periods, p.nb_variables())) }
    let (mut done, mut refused) = (0u64, 0u64);
    for _ in 0..8 {
        // a plan drawn backwards: latest period first, any item with an order still due at that time or later
        let mut left: Vec<Vec<usize>> = (0..i.items).map(|x| i.dues(x)).collect();
        let mut plan = vec![None; i.periods];
        let lazy = c.rng.below(100);
        for t in (0..i.periods).rev() {
            let total: usize = left.iter().map(|l| l.len()).sum();
            let can: Vec<usize> = (0..i.items).filter(|x| left[*x].last().map_or(false, |d| *d >= t)).collect();
            let must = total >= t + 1;
            if !can.is_empty() && (must || c.rng.chance(lazy)) { let x = *c.rng.pick(&can); left[x].pop(); plan[t] = Some(x) }
        }
        let want = i.cost(&plan);
        // walk it through the model
        let mut s = p.initial_state();
        let mut v = p.initial_value();
        let mut ok = true;
        for t in (0..i.periods).rev() {
            let var = match p.next_variable(&mut std::iter::once(&s)) { Some(v) => v, None => return viol("the plan ends early") };
            if var.0 != t { return viol(format!("period {t} is planned as variable {var:?}")) }
            let mut ds = vec![];
            p.for_each_in_domain(var, &s, |d| ds.push(d));
            let want = plan[t].map_or(-1, |x| x as isize);
            match ds.iter().find(|d| d.value == want) {
                Some(d) => { v += p.transition_cost(&s, *d); s = p.transition(&s, *d) }
                None => { ok = false; break }
            }
        }
        match (want, ok) {
            (Some(w), true) => { done += 1; if v as i128 != -w { return viol(format!("plan {plan:?} costs {w} by the data but {} in the model that was read", -v)) } }
            (Some(w), false) => return viol(format!("plan {plan:?} (cost {w}) is feasible but the model that was read does not allow it")),
            (None, true) => return viol(format!("plan {plan:?} does not deliver every order in time but the model that was read allows it")),
            (None, false) => refused += 1,
        }
    }
    c.st.add("feasible_plans_compared", done);
    c.st.add("infeasible_plans_refused", refused);
    if done > 0 { let h = c.seed; let d = (i.periods, i.items, i.orders()); c.nontrivial(h, || format!("{d:?} periods/items/orders, {done} feasible plans; {}", text.chars().take(200).collect::<String>())) }
    Ok(())
}
fn report(c: &mut Case) -> Res {
    let i = Inst::gen(&mut c.rng, 8, 3);
    let opt = i.opt().map(|x| -x);
    let text = i.text(&mut c.rng, false);
    let p = i.load(&text)?;
    cli::report_case(c, "psp", &text, opt, &format!("psp {} periods {} items", i.periods, i.items), |_, _, _| Ok(false), |a| {
        let w = psp::PspWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let r = vm::in_process(&p, &psp::PspRelax, &psp::PspRanking, &w, a.barrier(), a.cutset(), 1);
        Some((r.explored as u64, r.explored_dd as u64))
    })
}
fn config(c: &mut Case) -> Res {
    let i = Inst::gen(&mut c.rng, 9, 3);
    let text = i.text(&mut c.rng, false);
    let p = i.load(&text)?;
    cli::config_case(c, "psp", &text, &format!("psp {} periods {} items", i.periods, i.items), |a| {
        let w = psp::PspWidth::new(p.nb_variables(), a.width.unwrap_or(1));
        let r = vm::in_process(&p, &psp::PspRelax, &psp::PspRanking, &w, a.barrier(), a.cutset(), 1);
        (r.explored as u64, r.explored_dd as u64, r.value.map(|x| x as i128))
    })
}
/// The shipped instances.
fn bench(c: &mut Case) -> Res {
    let max = if c.rng.chance(85) { 50 } else { 150 };
    let f = match vm::shipped(c, "psp", &|f| vm::size_of(f) <= max) { Some(f) => f, None => return skip("no shipped instances") };
    let p = match psp::Psp::try_from(File::open(&f).unwrap()) { Ok(p) => p, Err(e) => return viol(format!("{f} is refused: {e}")) };
    vm::bench_case(c, &p, &f, None, |a, polls, limit| {
        let w = psp::PspWidth::new(p.nb_variables(), a.width.unwrap());
        vm::in_process_until(&p, &psp::PspRelax, &psp::PspRanking, &w, a.barrier(), a.cutset(), a.threads.unwrap(), polls, limit)
    })
}
/// The model itself, on random and shipped instances.
fn wellformed(c: &mut Case) -> Res {
    let w = 1 + c.rng.below(3);
    if c.rng.chance(30) {
        let f = match vm::shipped(c, "psp", &|_| true) { Some(f) => f, None => return skip("no shipped instances") };
        c.describe(&f);
        let p = match psp::Psp::try_from(File::open(&f).unwrap()) { Ok(p) => p, Err(e) => return viol(format!("{f} is refused: {e}")) };
        c.st.add("shipped_instances", 1);
        return vm::wellformed(c, &p, &psp::PspRelax, &psp::PspRanking, &psp::PspWidth::new(p.nb_variables(), w), &f)
    }
    let (pm, im) = *c.rng.pick(&[(4, 2), (8, 3), (15, 5), (30, 8), (60, 10)]);
    let i = Inst::gen(&mut c.rng, pm, im);
    let text = i.text(&mut c.rng, false);
    c.describe(&text);
    let p = i.load(&text)?;
    vm::wellformed(c, &p, &psp::PspRelax, &psp::PspRanking, &psp::PspWidth::new(p.nb_variables(), w), "psp")
}
fn main() { main_loop(&[("e2e", e2e), ("admissible", admissible), ("parse", parse), ("report", report), ("config", config), ("bench", bench), ("wellformed", wellformed)]) }
