//! The helper that bounds the time of an action: run in processes of its own, judged by what they leave behind.
use crate::common::{rng::*, run::*};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn say(s: &str) { let mut o = std::io::stdout(); let _ = writeln!(o, "{s}"); let _ = o.flush(); }
fn spend(ms: f64, busy: bool) {
    let d = Duration::from_secs_f64(ms / 1000.0);
    if busy { let t = Instant::now(); while t.elapsed() < d { std::hint::spin_loop() } } else { std::thread::sleep(d) }
}
/// what the process still has to do once it is ending, in microseconds
static CLOSING: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
extern "C" fn closing() { std::thread::sleep(Duration::from_micros(CLOSING.load(std::sync::atomic::Ordering::SeqCst))) }
extern "C" { fn atexit(f: extern "C" fn()) -> i32; }
/// core timeout-child <limit ms> <action ms> <exit action ms> <busy> <closing ms>
pub fn child() -> ! {
    let a: Vec<f64> = std::env::args().skip(2).map(|x| x.parse().unwrap()).collect();
    let (limit, action, bye, busy) = (a[0], a[1], a[2], a[3] != 0.0);
    if a[4] > 0.0 {
        // the process takes its time to end, as one that has much to clean up
        CLOSING.store((a[4] * 1000.0) as u64, std::sync::atomic::Ordering::SeqCst);
        unsafe { atexit(closing); }
    }
    engineering::xputils::timeout(
        if limit < 0.0 { Duration::MAX } else { Duration::from_secs_f64(limit / 1000.0) },
        || { say("begin"); spend(action, busy); say("end") },
        move || { say("late"); spend(bye, false); say("bye") },
    );
    say("returned");
    std::process::exit(42)
}
/// (exit code, lines, milliseconds), None when it had to be killed
fn run(args: &[f64]) -> Option<(i32, Vec<String>, u128)> {
    let t = Instant::now();
    let mut ch = Command::new(std::env::current_exe().unwrap()).arg("timeout-child").args(args.iter().map(|x| x.to_string()))
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t.elapsed() > Duration::from_secs(20) => { let _ = ch.kill(); let _ = ch.wait(); break None }
            _ => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let mut out = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    st.map(|s| (s.code().unwrap_or(-1), out.lines().map(String::from).collect(), t.elapsed().as_millis()))
}
pub fn timeout(c: &mut Case) -> Res {
    let class = c.rng.below(6);
    let near = c.rng.below(30) as f64;
    let (limit, action) = match class {
        // the limit is far off, or (below zero) as far off as can be told
        0 => (*c.rng.pick(&[600_000.0, 600_000.0, 4_294_967_296.0 + near, 4_294_967_296_000.0 + near, 1.9e16, -1.0]), c.rng.below(40) as f64),
        // the action would last far longer
        1 => (c.rng.below(20) as f64, 600_000.0),
        // both end at about the same moment
        _ => (near, (near + *c.rng.pick(&[0.0, 0.05, -0.05, 0.1, 0.2, -0.2, 0.5, 1.0, -1.0, 3.0])).max(0.0)),
    };
    let args = [limit, action, *c.rng.pick(&[0.0, 0.0, 1.0, 10.0, 40.0]), (class > 1 && c.rng.chance(60)) as u64 as f64, *c.rng.pick(&[0.0, 0.0, 1.0, 5.0, 30.0])];
    c.describe(&format!("limit {limit} ms, action {action} ms, exit action {} ms, busy {}, {} ms to end", args[2], args[3], args[4]));
    let mut r = run(&args);
    for _ in 0..2 { if r.is_none() { r = run(&args) } }
    let (code, lines, ms) = match r {
        Some(r) => r,
        None => return viol("the process had not ended after 20 s, three times in a row"),
    };
    let n = |s: &str| lines.iter().filter(|l| *l == s).count();
    let what = format!("exit code {code} after {ms} ms, output {lines:?}");
    if n("returned") > 0 || !(code == 0 || code == 1) { return viol(format!("the helper does not end the process as it should: {what}")) }
    if n("begin") > 1 || n("end") > 1 || n("late") > 1 || n("bye") > 1 { return viol(format!("something was done twice: {what}")) }
    if code == 0 && n("end") == 0 { return viol(format!("success is reported although the action did not complete: {what}")) }
    if code == 0 && n("late") > 0 { return viol(format!("success is reported although the exit action ran: {what}")) }
    if code == 1 && n("bye") == 0 { return viol(format!("the time ran out but the exit action did not complete: {what}")) }
    if class == 0 && code != 0 { return viol(format!("the time limit struck long before it was reached: {what}")) }
    if class == 1 && code != 1 { return viol(format!("the time limit did not strike: {what}")) }
    if code == 1 && (ms as f64) < limit { return viol(format!("the time limit struck before it was reached: {what}")) }
    c.st.add(if code == 0 { "in_time" } else { "out_of_time" }, 1);
    if class > 1 { c.st.add(if code == 0 { "close_in_time" } else { "close_out_of_time" }, 1) }
    if code == 1 && n("end") > 0 { c.st.add("action_ended_while_the_limit_struck", 1) }
    c.nontrivial(mix(mix(limit.to_bits(), action.to_bits()), mix(args[2].to_bits() ^ code as u64, (args[3] + args[4]).to_bits())), || what.clone());
    Ok(())
}
