//! Drives the example programs of /repo as a user does, on instance files of our own.
use super::rng::*;
use super::run::*;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn scratch() -> String { std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH: scratch directory for instance files") }
fn bin(ex: &str) -> String { format!("{}/{ex}", std::env::var("VERIF_EXAMPLES").expect("VERIF_EXAMPLES: directory of the built example programs")) }

#[derive(Clone, Debug)]
pub struct Args { pub width: Option<usize>, pub threads: Option<usize>, pub solver: Option<&'static str>, pub cutset: Option<&'static str>, pub timeout: Option<u64> }
impl Args {
    pub fn gen(r: &mut Rng) -> Args {
        Args {
            width: if r.chance(80) { Some(1 + r.below(3)) } else { None },
            threads: if r.chance(3) { Some(0) } else if r.chance(90) { Some(*r.pick(&[1, 1, 1, 2, 3, 4, 8])) } else { None },
            solver: *r.pick(&[Some("parallel"), Some("barrier"), Some("barrier"), None]),
            cutset: *r.pick(&[Some("lel"), Some("frontier"), Some("frontier"), None]),
            timeout: if r.chance(50) { Some(match r.below(12) { 0 => u64::MAX, 1 => i64::MAX as u64, 2 => 1 << 40, 3 => (1 << 32) + r.below(3) as u64, _ => 60 + r.below(100) as u64 }) } else { None },
        }
    }
    pub fn barrier(&self) -> bool { self.solver == Some("barrier") }
    pub fn cutset(&self) -> engineering::CutsetType { if self.cutset == Some("frontier") { engineering::CutsetType::Frontier } else { engineering::CutsetType::LastExactLayer } }
    fn argv(&self, r: &mut Rng, file: &str) -> Vec<String> {
        let mut groups: Vec<Vec<String>> = vec![vec![if r.chance(50) { "-f" } else { "--file" }.into(), file.into()]];
        let mut opt = |s: &str, l: &str, v: Option<String>| if let Some(v) = v { groups.push(vec![if r.chance(50) { s } else { l }.into(), v]) };
        opt("-w", "--width", self.width.map(|x| x.to_string()));
        opt("-T", "--threads", self.threads.map(|x| x.to_string()));
        opt("-s", "--solver", self.solver.map(|x| x.to_string()));
        opt("-c", "--cutset", self.cutset.map(|x| x.to_string()));
        opt("-t", "--timeout", self.timeout.map(|x| x.to_string()));
        r.shuffle(&mut groups);
        let mut v = vec!["solve".to_string()];
        for g in groups { v.extend(g) }
        v
    }
}
#[derive(Clone, Debug)]
pub struct Row { pub cols: Vec<String> }
impl Row {
    pub fn name(&self) -> &str { &self.cols[0] }
    pub fn solver(&self) -> &str { &self.cols[1] }
    pub fn status(&self) -> &str { &self.cols[2] }
    /// None: "not found"
    pub fn best(&self) -> Result<Option<i128>, Bad> {
        if self.cols[5] == "not found" { return Ok(None) }
        self.cols[5].parse().map(Some).or_else(|_| viol(format!("unreadable best value in {self:?}")))
    }
    pub fn int(&self, i: usize) -> Result<i128, Bad> { self.cols[i].parse().or_else(|_| viol(format!("column {i} is not an integer in {self:?}"))) }
    pub fn float(&self, i: usize) -> Result<f64, Bad> {
        match self.cols[i].parse::<f64>() { Ok(x) if x.is_finite() => Ok(x), _ => viol(format!("column {i} is not a finite number in {self:?}")) }
    }
}
fn raw(ex: &str, argv: &[String]) -> Result<(Option<i32>, String, String), Bad> { raw_bin(&bin(ex), argv) }
fn raw_bin(ex: &str, argv: &[String]) -> Result<(Option<i32>, String, String), Bad> {
    let mut ch = match Command::new(ex).args(argv).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => { eprintln!("cannot start {ex}: {e}"); std::process::exit(3) }
    };
    // outputs are one row: they fit the pipe buffers
    let t0 = Instant::now();
    let mut nap = 300;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t0.elapsed() > Duration::from_secs(75) => {
                let _ = ch.kill();
                let _ = ch.wait();
                return viol(format!("{ex} {argv:?} gave no answer within 75 s on a small instance"));
            }
            _ => { std::thread::sleep(Duration::from_micros(nap)); nap = (nap * 5 / 4).min(20_000) }
        }
    };
    let (mut o, mut e) = (String::new(), String::new());
    let _ = ch.stdout.take().unwrap().read_to_string(&mut o);
    let _ = ch.stderr.take().unwrap().read_to_string(&mut e);
    Ok((st.code(), o, e))
}
pub fn split_row(line: &str) -> Row { Row { cols: line.split('|').map(|x| x.trim().to_string()).collect() } }
pub fn header(ex: &str) -> Result<Row, Bad> {
    let (code, o, e) = raw(ex, &["print-header".into()])?;
    if code != Some(0) { return viol(format!("{ex} print-header failed ({code:?}): {e}")) }
    let l: Vec<&str> = o.lines().filter(|l| !l.trim().is_empty()).collect();
    if l.len() != 1 { return viol(format!("{ex} print-header printed {} lines", l.len())) }
    Ok(split_row(l[0]))
}
/// writes the instance, runs the program, returns its report
pub fn solve(c: &mut Case, ex: &str, stem: &str, text: &str, a: &Args) -> Result<Row, Bad> {
    let dir = format!("{}/{ex}-{}", scratch(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/{stem}");
    if std::fs::write(&f, text).is_err() { eprintln!("cannot write {f}"); std::process::exit(3) }
    let argv = a.argv(&mut c.rng, &f);
    let r = raw(ex, &argv);
    let _ = std::fs::remove_file(&f);
    let (code, o, e) = r?;
    c.st.add("program_runs", 1);
    c.st.add(&format!("runs_{}_{}", a.solver.unwrap_or("default"), a.cutset.unwrap_or("default")), 1);
    if a.threads.map_or(true, |t| t > 1) { c.st.add("multi_thread_runs", 1) }
    if code != Some(0) { return viol(format!("{ex} {} failed (exit {code:?}): {}", argv[1..].join(" "), e.lines().take(3).collect::<Vec<_>>().join(" / "))) }
    let l: Vec<&str> = o.lines().filter(|l| !l.trim().is_empty()).collect();
    if l.len() != 1 { return viol(format!("{ex} printed {} lines instead of one row: {o}", l.len())) }
    let row = split_row(l[0]);
    if row.cols.len() != 11 { return viol(format!("{ex} printed a row of {} columns: {}", row.cols.len(), l[0])) }
    Ok(row)
}

/// One run of the program built as `cargo build` does, with overflow checks, on a tiny instance. An overflow of the
/// model's own file is reported under `id`; whether it is a listed finding is for the driver to decide.
pub fn checked_build(c: &mut Case, ex: &str, text: &str, opt: Option<i128>, id: &'static str, file: &str, what: &str) -> Res {
    let bin = format!("{}/{ex}", std::env::var("VERIF_CHECKED").expect("VERIF_CHECKED: directory of the programs built with overflow checks"));
    let dir = format!("{}/{ex}-{}", scratch(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/checked");
    if std::fs::write(&f, text).is_err() { eprintln!("cannot write {f}"); std::process::exit(3) }
    c.describe(&format!("debug build, one thread\n{text}"));
    let argv: Vec<String> = ["solve", "-f", &f, "-T", "1", "-t", "60"].iter().map(|x| x.to_string()).collect();
    let r = raw_bin(&bin, &argv);
    let _ = std::fs::remove_file(&f);
    let (code, o, e) = r?;
    if code == Some(101) && e.contains(file) && e.contains(what) {
        let t = text.to_string();
        let l = e.lines().take(2).collect::<Vec<_>>().join(" / ");
        c.known(id, || format!("the debug build panics on {t:?}: {l}"));
        return Ok(());
    }
    if code != Some(0) { return viol(format!("the debug build of {ex} failed (exit {code:?}): {}", e.lines().take(3).collect::<Vec<_>>().join(" / "))) }
    let row = split_row(o.trim());
    if row.cols.len() != 11 { return viol(format!("{ex} printed {o:?}")) }
    check_answer(&row, opt)
}

/// the end-to-end oracle: a finished run reports the optimum
pub fn check_answer(row: &Row, opt: Option<i128>) -> Res {
    if row.status() != "Proved" { return viol(format!("the run was given ample time but reports {:?}: {row:?}", row.status())) }
    let b = row.best()?;
    if b != opt { return viol(format!("reported best value {b:?} but the optimum is {opt:?}: {row:?}")) }
    Ok(())
}
fn check_gap(row: &Row) -> Res {
    let (lb, ub, gap) = (row.int(6)?, row.int(7)?, row.float(8)?);
    let m = lb.abs().max(ub.abs());
    let want = if m == 0 { 0.0 } else { (ub - lb) as f64 / m as f64 };
    if gap < -1e-9 || (gap - want).abs() > 2e-4 { return viol(format!("gap {gap} does not describe the bounds [{lb}, {ub}] (expected {want:.4}): {row:?}")) }
    Ok(())
}
/// the report oracle
pub fn check_report(row: &Row, head: &Row, stem: &str, a: &Args, opt: Option<i128>) -> Res {
    if head.cols.len() != row.cols.len() { return viol(format!("header has {} columns, row has {}", head.cols.len(), row.cols.len())) }
    let want = ["NAME", "SOLVER", "STATUS", "DURATION", "RAM_(MB)", "BEST-VAL", "LB", "UB", "GAP", "NODES B&B", "NODES DD"];
    if head.cols != want { return viol(format!("unexpected header {head:?}")) }
    let name = stem.rsplit_once('.').map_or(stem, |x| if x.0.is_empty() { stem } else { x.0 });
    if row.name() != name { return viol(format!("instance {name:?} is reported as {:?}", row.name())) }
    let s = a.solver.unwrap_or("parallel");
    if row.solver() != s { return viol(format!("solver {s} was requested but {:?} is reported", row.solver())) }
    for i in [3, 4] { if row.float(i)? < 0.0 { return viol(format!("negative measure in {row:?}")) } }
    let (lb, ub) = (row.int(6)?, row.int(7)?);
    let best = row.best()?;
    if row.int(9)? < 0 || row.int(10)? < 0 { return viol(format!("negative counter in {row:?}")) }
    if lb > ub { return viol(format!("lower bound above upper bound: {row:?}")) }
    match best {
        Some(b) if b != lb => return viol(format!("best value and lower bound differ: {row:?}")),
        None if lb != isize::MIN as i128 => return viol(format!("no solution found but a lower bound is given: {row:?}")),
        _ => {}
    }
    if let Some(o) = opt {
        if lb > o || ub < o { return viol(format!("the bounds exclude the optimum {o}: {row:?}")) }
    } else if best.is_some() { return viol(format!("a value is reported for an infeasible instance: {row:?}")) }
    check_gap(row)?;
    match row.status() {
        "Proved" => {
            if best != opt { return viol(format!("proved, but the optimum is {opt:?}: {row:?}")) }
            if lb != ub { return viol(format!("proved, but the bounds differ: {row:?}")) }
            if row.int(9)? < 1 { return viol(format!("proved without processing a subproblem: {row:?}")) }
            Ok(())
        }
        "Timeout" => Ok(()),
        x => viol(format!("unknown status {x:?}")),
    }
}
pub fn stem(r: &mut Rng) -> String {
    let n = 1 + r.below(28);
    let cs: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789_-".chars().collect();
    let mut s: String = (0..n).map(|_| *r.pick(&cs[..])).collect();
    if s.starts_with('-') { s = format!("x{s}") }
    if r.chance(60) { s += *r.pick(&[".tw", ".txt", ".dat", ".1.tw"]) }
    s
}
/// the time the process itself takes to read and solve a tiny instance is far below the limits we give, except 0
pub fn report_case<F, E>(c: &mut Case, ex: &str, text: &str, opt: Option<i128>, label: &str, excused: E, inproc: F) -> Res
where F: FnOnce(&Args) -> Option<(u64, u64)>, E: FnOnce(&mut Case, &Args, Option<i128>) -> Result<bool, Bad> {
    let head = header(ex)?;
    let mut a = Args::gen(&mut c.rng);
    let st = stem(&mut c.rng);
    let at_once = c.rng.chance(20);
    if at_once { a.timeout = Some(0) }
    c.describe(&format!("{label} / {a:?} / {st}\n{text}"));
    let t0 = Instant::now();
    let row = solve(c, ex, &st, text, &a)?;
    if row.float(3)? > t0.elapsed().as_secs_f64() + 0.02 { return viol(format!("the whole process took {:?}, less than it reports: {row:?}", t0.elapsed())) }
    let mut opt = opt;
    if row.status() == "Proved" && row.best()? != opt && excused(c, &a, row.best()?)? {
        // the answer is wrong by a known defect of the model: the rest of the report is judged by that answer
        c.st.add("answers_wrong_by_a_known_finding_of_P16", 1);
        opt = row.best()?;
    }
    check_report(&row, &head, &st, &a, opt)?;
    if at_once {
        if row.status() != "Timeout" { return viol(format!("a run with no time at all reports {row:?}")) }
        c.st.add("stopped_at_once", 1);
    } else if row.status() != "Proved" { return viol(format!("the run was given ample time but reports {row:?}")) }
    if !at_once && a.threads == Some(1) {
        if let Some((sub, dd)) = inproc(&a) {
            if row.int(9)? != sub as i128 || row.int(10)? != dd as i128 { return viol(format!("the same resolution processes {sub} subproblems and {dd} diagram nodes, but the report says {row:?}")) }
            c.st.add("work_columns_compared", 1);
        }
    }
    c.st.add(if opt.is_none() { "infeasible" } else if opt == Some(0) { "optimum_zero" } else { "feasible" }, 1);
    c.st.add(&format!("status_{}", row.status()), 1);
    let h = mix(mix(c.seed, opt.unwrap_or(-1) as u64), row.int(10)? as u64);
    let l = label.to_string();
    c.nontrivial(h, || format!("{l} / {a:?} -> {row:?}"));
    Ok(())
}

/// One thread, every solver and cutset strategy: the program does exactly what the library does with that configuration.
pub fn config_case<F>(c: &mut Case, ex: &str, text: &str, label: &str, inproc: F) -> Res
where F: Fn(&Args) -> (u64, u64, Option<i128>) {
    let width = if c.rng.chance(70) { Some(1 + c.rng.below(4)) } else { None };
    let mut seen: Vec<(u64, u64)> = vec![];
    for solver in [Some("parallel"), Some("barrier"), None] { for cutset in [Some("lel"), Some("frontier"), None] {
        if (solver.is_none() || cutset.is_none()) && c.rng.chance(50) { continue }
        let a = Args { width, threads: Some(1), solver, cutset, timeout: if c.rng.chance(50) { Some(60) } else { None } };
        c.describe(&format!("{label} / {a:?}\n{text}"));
        let row = solve(c, ex, "i", text, &a)?;
        let (sub, dd, best) = inproc(&a);
        let s = solver.unwrap_or("parallel");
        if row.solver() != s { return viol(format!("solver {s} was requested but {:?} is reported", row.solver())) }
        if row.status() != "Proved" { return viol(format!("the run was given ample time but reports {row:?}")) }
        if (row.int(9)?, row.int(10)?) != (sub as i128, dd as i128) { return viol(format!("with {a:?} the library processes {sub} subproblems and {dd} diagram nodes, the program something else: {row:?}")) }
        if row.best()? != best { return viol(format!("with {a:?} the library finds {best:?}, the program something else: {row:?}")) }
        if row.int(6)? != row.int(7)? || best.is_some_and(|b| b != row.int(6).unwrap_or(i128::MIN)) { return viol(format!("with {a:?} the library proves {best:?}, the program reports other bounds: {row:?}")) }
        c.st.add("configurations_compared", 1);
        seen.push((sub, dd));
    } }
    let all = seen.len();
    seen.sort();
    seen.dedup();
    c.st.add(&format!("{}_different_amounts_of_work", seen.len()), 1);
    // the comparison can tell configurations apart when they do different work
    if seen.len() > 1 { let h = mix(c.seed, seen[0].1); let l = label.to_string(); c.nontrivial(h, || format!("{l}, width {width:?}: {all} configurations, {} different amounts of work", seen.len())) }
    Ok(())
}
/// Unusable command lines are refused: no row, and the process fails.
pub fn refusal_case(c: &mut Case, ex: &str, text: &str) -> Res {
    let dir = format!("{}/{ex}-{}", scratch(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/refuse");
    if std::fs::write(&f, text).is_err() { eprintln!("cannot write {f}"); std::process::exit(3) }
    let junk = |r: &mut Rng, ok: &[&str]| loop {
        let mut s = r.pick(&["lel", "frontier", "parallel", "barrier", "relaxed", "fast", "none", "0", "1"]).to_string();
        match r.below(4) { 0 => s.push('x'), 1 => s = s.to_uppercase(), 2 => { s.pop(); } _ => {} }
        if !ok.contains(&s.as_str()) { return s }
    };
    let mut argv: Vec<String> = vec!["solve".into(), "-f".into(), f.clone(), "-T".into(), "1".into(), "-w".into(), "1".into()];
    match c.rng.below(5) {
        0 => argv.extend(["--solver".into(), junk(&mut c.rng, &["parallel", "barrier"])]),
        1 => argv.extend(["--cutset".into(), junk(&mut c.rng, &["lel", "frontier"])]),
        2 => argv[2] = format!("{dir}/there-is-no-such-file"),
        3 => argv[4] = c.rng.pick(&["two", "-1", "1.5", ""]).to_string(),
        _ => argv[6] = c.rng.pick(&["two", "-1", "1.5", ""]).to_string(),
    }
    c.describe(&format!("{argv:?}"));
    let r = raw(ex, &argv);
    let _ = std::fs::remove_file(&f);
    let (code, o, _) = r?;
    if code == Some(0) || !o.trim().is_empty() { return viol(format!("{ex} {:?} is not refused (exit {code:?}): {o}", &argv[3..])) }
    c.st.add("refused", 1);
    Ok(())
}
/// Number of threads the process runs while it works, main thread included, and its row. Sampled until it ends.
/// Returns how long after its limit the run was stopped.
pub fn threads_case(c: &mut Case, ex: &str, text: &str, a: &Args, label: &str) -> Result<Option<f64>, Bad> {
    let dir = format!("{}/{ex}-{}", scratch(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/threads");
    if std::fs::write(&f, text).is_err() { eprintln!("cannot write {f}"); std::process::exit(3) }
    let argv = a.argv(&mut c.rng, &f);
    c.describe(&format!("{label} / {a:?}\n{text}"));
    let t0 = Instant::now();
    let mut ch = match Command::new(bin(ex)).args(&argv).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() { Ok(c) => c, Err(e) => { eprintln!("cannot start {ex}: {e}"); std::process::exit(3) } };
    let mut most = 0;
    let mut samples = 0;
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            _ if t0.elapsed() > Duration::from_secs(75) => { let _ = ch.kill(); let _ = ch.wait(); return viol(format!("{ex} {argv:?} gave no answer within 75 s")) }
            _ => {}
        }
        if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", ch.id())) { most = most.max(d.count()); samples += 1 }
        super::mon::CALLS.store(true, std::sync::atomic::Ordering::Relaxed);
        std::thread::sleep(Duration::from_millis(4));
    }
    let mut o = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut o);
    let _ = std::fs::remove_file(&f);
    let row = split_row(o.trim());
    if row.cols.len() != 11 { return viol(format!("{ex} printed {o:?}")) }
    let want = a.threads.unwrap_or_else(num_cpus::get).max(1);
    let dur = row.float(3)?;
    if most > want + 1 { return viol(format!("{want} threads were asked for but the process runs {most} with its main thread: {row:?}")) }
    // all workers live as long as there is work for one of them
    if dur > 0.5 && samples > 50 {
        if most < want + 1 { return viol(format!("{want} threads were asked for but the process runs only {most} with its main thread: {row:?}")) }
        let h = mix(c.seed, want as u64);
        let l = label.to_string();
        c.nontrivial(h, || format!("{l} / {a:?}: {most} threads in {samples} samples -> {row:?}"));
        c.st.add("thread_counts_compared", 1);
    }
    let limit = a.timeout.unwrap() as f64;
    match row.status() {
        "Timeout" => { if dur < limit - 0.01 { return viol(format!("the time limit of {limit} s struck early: {row:?}")) } c.st.add("time_limits_met", 1); Ok(Some(dur - limit)) }
        "Proved" => Ok(None),
        x => viol(format!("unknown status {x:?}")),
    }
}
/// what is printed is what is read
pub fn names_case(c: &mut Case) -> Res {
    use engineering::*;
    use std::fmt::{Debug, Display};
    use std::str::FromStr;
    fn names<T: Copy + PartialEq + Debug + Display + FromStr>(r: &mut Rng, all: &[(T, &str)]) -> Res {
        for (v, n) in all {
            if v.to_string() != *n { return viol(format!("{v:?} is printed as {v}")) }
            match n.parse::<T>() { Ok(x) if x == *v => {}, _ => return viol(format!("{n:?} is not read as {v:?}")) }
            let mut s: String = n.to_string();
            match r.below(4) { 0 => s.push(' '), 1 => { s.remove(r.below(n.len())); } 2 => s.insert(r.below(n.len()), 'e'), _ => s = s.to_uppercase() }
            if all.iter().all(|x| x.1 != s) { if let Ok(x) = s.parse::<T>() { return viol(format!("{s:?} is read as {x:?}")) } }
        }
        Ok(())
    }
    names(&mut c.rng, &[(CutsetType::LastExactLayer, "lel"), (CutsetType::Frontier, "frontier")])?;
    names(&mut c.rng, &[(CompilationType::Exact, "exact"), (CompilationType::Relaxed, "relaxed"), (CompilationType::Restricted, "restricted")])?;
    names(&mut c.rng, &[(xputils::SolverType::Parallel, "parallel"), (xputils::SolverType::Barrier, "barrier")])?;
    if ResolutionStatus::Proved.to_string() == ResolutionStatus::Interrupted.to_string() { return viol("a proof and an interruption are printed alike") }
    c.st.add("names_compared", 7);
    Ok(())
}
