//! Scheduled runs: what stands between the monitors and the scheduler of the parking_lot shim.
use super::mon::*;
use super::rng::*;
use super::run::*;
use parking_lot::sched::{self, Op, Policy, Trace};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static SEED: AtomicU64 = AtomicU64::new(0);
static RUNS: AtomicU64 = AtomicU64::new(0);
static SPAN: AtomicU64 = AtomicU64::new(400);
static SEEN: Mutex<Vec<(Policy, Trace)>> = Mutex::new(Vec::new());

pub fn case(seed: u64) {
    SEED.store(seed, SeqCst);
    RUNS.store(0, SeqCst);
    SPAN.store(400, SeqCst);
    SEEN.lock().unwrap().clear();
    sched::on_deadlock(|msg| { report_violation(&msg); die(1) });
}
fn point(_: Cb) { sched::point(Op::Point) }

pub fn run<T>(threads: usize, f: impl FnOnce() -> T) -> T {
    let k = RUNS.fetch_add(1, SeqCst);
    let mut r = Rng::new(mix(SEED.load(SeqCst), k ^ 0x5C4ED));
    let policy = match r.below(10) {
        0..=3 => Policy::Random { sync: *r.pick(&[100, 300, 500, 1000]), point: *r.pick(&[0, 2, 10, 40]) },
        4..=7 => Policy::Pct { changes: 1 + r.below(5), span: SPAN.load(SeqCst) },
        8 => Policy::Starve { victim: r.below(threads) },
        _ => Policy::RoundRobin,
    };
    sched::begin(r.next(), threads, policy);
    set_hook(Some(point));
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_hook(None);
    let t = sched::end();
    SPAN.store(t.steps.max(10), SeqCst);
    SEEN.lock().unwrap().push((policy, t));
    match out { Ok(out) => out, Err(e) => std::panic::resume_unwind(e) }
}
/// the schedules of the case that ended: statistics, and the distinct ones that really interleaved
pub fn collect(st: &mut Stats, seed: u64) {
    let mut in_case: HashSet<u64> = HashSet::new();
    for (p, t) in SEEN.lock().unwrap().drain(..) {
        st.add("schedules", 1);
        st.add("schedules_given_up", t.free as u64);
        st.add("schedule_steps", t.steps);
        st.add("schedule_switches", t.switches);
        st.max("threads_scheduled", t.threads as u64);
        st.add(match p { Policy::Random { .. } => "policy_random", Policy::Pct { .. } => "policy_priorities", Policy::Starve { .. } => "policy_starve", Policy::RoundRobin => "policy_round_robin" }, 1);
        if t.switches as usize > t.threads && !t.free && in_case.insert(t.hash) {
            st.add("distinct_interleavings", 1);
            st.nontrivial += 1;
            if st.distinct.len() < 400_000 { st.distinct.insert(mix(seed, t.hash)); }
        }
    }
}
