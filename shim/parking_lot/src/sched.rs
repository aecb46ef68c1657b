//! A cooperative, seeded scheduler for the threads of one resolution.
//!
//! Between `begin` and `end`, every thread (but the one that called `begin`) that reaches a lock, a condition variable
//! or an explicit `point` takes part: only one of them runs at a time and the scheduler chooses the next at each point.
//! A schedule is thus a function of the seed and of the code, and can be replayed. When every thread is blocked the
//! scheduler has a deadlock on its hands, at once and for certain.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};
use std::thread::ThreadId;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Lock, Unlock, Read, Write, Wait, Notify, Point, Blocked, End }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum State { Runnable, Lock(usize), Cond { timed: bool }, Finished }

struct Th { tid: u64, state: State, prio: u64, last: Op }

struct Inner {
    threads: Vec<Th>,
    expected: usize,
    started: bool,
    current: usize,
    free: bool,
    dead: bool,
    rng: u64,
    policy: Policy,
    steps: u64,
    switches: u64,
    idle_points: u64,
    fair: bool,
    hash: u64,
    changes: Vec<u64>,
    low: u64,
    tail: VecDeque<(usize, Op)>,
}
pub struct Run { inner: Mutex<Inner>, cv: Vec<Condvar>, reg: Condvar, main: ThreadId, progress: AtomicU64 }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// switches with this probability (per 1000) at a synchronisation, and with the other elsewhere
    Random { sync: u64, point: u64 },
    /// priorities changed at a few random steps (probabilistic concurrency testing)
    Pct { changes: usize, span: u64 },
    /// one thread only runs when nothing else can
    Starve { victim: usize },
    RoundRobin,
}

#[derive(Clone, Debug, Default)]
pub struct Trace { pub steps: u64, pub switches: u64, pub hash: u64, pub threads: usize, pub free: bool, pub points: u64 }

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CURRENT: Mutex<Option<Arc<Run>>> = Mutex::new(None);
static ON_DEADLOCK: AtomicUsize = AtomicUsize::new(0);
const MAXT: usize = 64;

pub fn on_deadlock(f: fn(String)) { ON_DEADLOCK.store(f as usize, SeqCst) }
fn give_up(msg: String) {
    let f = ON_DEADLOCK.load(SeqCst);
    if f != 0 { let f: fn(String) = unsafe { std::mem::transmute::<usize, fn(String)>(f) }; f(msg.clone()) }
    eprintln!("{msg}");
    std::process::abort()
}

struct Ctx { run: Arc<Run>, id: usize }
impl Drop for Ctx {
    fn drop(&mut self) {
        let mut g = lk(&self.run.inner);
        g.threads[self.id].state = State::Finished;
        g.threads[self.id].last = Op::End;
        if !g.free && g.started && g.current == self.id { self.run.choose(&mut g, self.id, Op::End, true) }
    }
}
thread_local! { static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) }; }

fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }
fn num(t: ThreadId) -> u64 { format!("{t:?}").chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0) }
fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31) ^ 0xD1B5_4A32_D192_ED03;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Starts scheduling the threads spawned from now on by the calling thread.
pub fn begin(seed: u64, threads: usize, policy: Policy) {
    let threads = threads.min(MAXT);
    watch();
    let mut changes = vec![];
    let mut x = mix(seed, 77);
    if let Policy::Pct { changes: n, span } = policy { for _ in 0..n { x = mix(x, 3); changes.push(x % span.max(1)) } }
    changes.sort_unstable();
    let run = Arc::new(Run {
        inner: Mutex::new(Inner { threads: vec![], expected: threads, started: false, current: 0, free: false, dead: false, rng: mix(seed, 5), policy, steps: 0, switches: 0,
            idle_points: 0, fair: false, hash: 1, changes, low: u64::MAX / 2, tail: VecDeque::new() }),
        cv: (0..MAXT + 1).map(|_| Condvar::new()).collect(),
        reg: Condvar::new(),
        main: std::thread::current().id(),
        progress: AtomicU64::new(0),
    });
    *lk(&CURRENT) = Some(run);
    ACTIVE.store(true, SeqCst);
}
/// Stops scheduling; the scheduled threads must have ended.
pub fn end() -> Trace {
    ACTIVE.store(false, SeqCst);
    let r = lk(&CURRENT).take();
    match r {
        None => Trace::default(),
        Some(r) => {
            let g = lk(&r.inner);
            Trace { steps: g.steps, switches: g.switches, hash: g.hash, threads: g.threads.len(), free: g.free, points: r.progress.load(SeqCst) }
        }
    }
}
/// A wall-clock watch: when the thread that holds the token makes no step for long (it waits for something this
/// scheduler does not know of), all threads are let go and the locks behave natively.
fn watch() {
    static W: OnceLock<()> = OnceLock::new();
    W.get_or_init(|| {
        std::thread::spawn(|| {
            let mut last: (usize, u64) = (0, 0);
            let mut since = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let r = match lk(&CURRENT).clone() { Some(r) => r, None => { last = (0, 0); continue } };
                let now = (Arc::as_ptr(&r) as usize, lk(&r.inner).steps);
                if now != last { last = now; since = Instant::now(); continue }
                if since.elapsed() > Duration::from_secs(4) {
                    let mut g = lk(&r.inner);
                    if g.steps == now.1 && !g.free { r.set_free(&mut g) }
                }
            }
        });
    });
}

impl Run {
    fn set_free(&self, g: &mut Inner) {
        g.free = true;
        g.started = true;
        for c in &self.cv { c.notify_all() }
        self.reg.notify_all();
    }
    fn rnd(g: &mut Inner) -> u64 { g.rng = mix(g.rng, 1); g.rng }
    fn start(&self, g: &mut Inner) {
        g.started = true;
        // identities follow the order in which the threads were spawned
        let mut order: Vec<usize> = (0..g.threads.len()).collect();
        order.sort_by_key(|i| g.threads[*i].tid);
        for (rank, i) in order.iter().enumerate() { g.threads[*i].prio = mix(g.rng, 1000 + rank as u64) / 2 + u64::MAX / 2 }
        g.current = order[0];
        self.pick(g, None, true);
        self.reg.notify_all();
        self.cv[g.current].notify_all();
    }
    fn rank(g: &Inner, id: usize) -> usize { g.threads.iter().filter(|t| t.tid < g.threads[id].tid).count() }
    /// chooses who runs next; `must` when the current thread cannot go on. Returns false when nobody can.
    fn pick(&self, g: &mut Inner, sync: Option<bool>, must: bool) -> bool {
        let mut can: Vec<usize> = (0..g.threads.len()).filter(|i| g.threads[*i].state == State::Runnable).collect();
        if can.is_empty() {
            // only a wait with a timeout can still end
            can = (0..g.threads.len()).filter(|i| g.threads[*i].state == State::Cond { timed: true }).collect();
            if can.is_empty() { return false }
            let i = can[(Self::rnd(g) % can.len() as u64) as usize];
            g.threads[i].state = State::Runnable;
            g.current = i;
            return true;
        }
        can.sort_by_key(|i| g.threads[*i].tid);
        let cur = g.current;
        let any = |g: &mut Inner| can[(Self::rnd(g) % can.len() as u64) as usize];
        let next = if g.fair { any(g) } else {
            match g.policy {
                Policy::Random { sync: s, point: p } => {
                    let pr = if sync == Some(false) { p } else { s };
                    if must || Self::rnd(g) % 1000 < pr { any(g) } else { cur }
                }
                Policy::Pct { .. } => {
                    while g.changes.first().map_or(false, |c| *c <= g.steps) {
                        g.changes.remove(0);
                        g.low -= 1;
                        let low = g.low;
                        g.threads[cur].prio = low;
                    }
                    *can.iter().max_by_key(|i| g.threads[**i].prio).unwrap()
                }
                Policy::Starve { victim } => {
                    let v: Vec<usize> = can.iter().copied().filter(|i| Self::rank(g, *i) != victim).collect();
                    if v.is_empty() { can[0] } else if !must && v.contains(&cur) && Self::rnd(g) % 1000 >= 300 { cur } else { v[(Self::rnd(g) % v.len() as u64) as usize] }
                }
                Policy::RoundRobin => {
                    let t = g.threads[cur].tid;
                    *can.iter().find(|i| g.threads[**i].tid > t).unwrap_or(&can[0])
                }
            }
        };
        g.current = next;
        true
    }
    /// one step of the current thread `me`, which hands over to the chosen thread
    fn choose(&self, g: &mut Inner, me: usize, op: Op, must: bool) {
        // the last thread may still be ending when the run is over: ends do not count
        if op != Op::End { g.steps += 1 }
        g.threads[me].last = op;
        let r = Self::rank(g, me) as u64;
        if op != Op::End { g.hash = mix(g.hash, r << 8 | op as u64) }
        if g.tail.len() > 60 { g.tail.pop_front(); }
        g.tail.push_back((r as usize, op));
        if op == Op::Point { g.idle_points = 0 } else { g.idle_points += 1 }
        if g.idle_points > 300_000 && !g.fair { g.fair = true; g.idle_points = 0 }
        if g.idle_points > 2_000_000 {
            let t: Vec<String> = g.threads.iter().map(|t| format!("{:?}", t.last)).collect();
            give_up(format!("livelock: under a fair schedule the threads made two million synchronisation steps without any progress (last steps {t:?})"));
        }
        let before = g.current;
        if !self.pick(g, Some(op != Op::Point), must) {
            if g.threads.iter().all(|t| t.state == State::Finished) && (g.threads.len() >= g.expected) { return }
            if g.threads.iter().all(|t| t.state == State::Finished) {
                // threads that have not registered yet will start by themselves
                g.started = false;
                g.expected = 1;
                return;
            }
            g.dead = true;
            let mut ids: Vec<usize> = (0..g.threads.len()).collect();
            ids.sort_by_key(|i| g.threads[*i].tid);
            let who: Vec<String> = ids.iter().map(|i| match g.threads[*i].state {
                State::Lock(_) => "blocked on a lock".to_string(), State::Cond { .. } => "waiting to be notified".to_string(), State::Finished => "ended".to_string(), State::Runnable => "runnable".to_string() }).collect();
            give_up(format!("deadlock: no thread can go on: {} (last steps by thread: {:?})", who.join(", "), g.tail.iter().rev().take(24).rev().collect::<Vec<_>>()));
        }
        if g.current != before { g.switches += 1; self.cv[g.current].notify_all() }
    }
    fn await_token(&self, mut g: MutexGuard<'_, Inner>, me: usize) {
        while !g.free && !(g.started && g.current == me && g.threads[me].state == State::Runnable) {
            g = self.cv[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn register(self: &Arc<Run>) -> Option<usize> {
        let mut g = lk(&self.inner);
        if g.free || g.threads.len() >= MAXT { if !g.free { self.set_free(&mut g) } return None }
        let id = g.threads.len();
        let prio = mix(g.rng, id as u64) / 2;
        g.threads.push(Th { tid: num(std::thread::current().id()), state: State::Runnable, prio, last: Op::Point });
        CTX.with(|c| *c.borrow_mut() = Some(Ctx { run: self.clone(), id }));
        if !g.started && g.threads.len() >= g.expected { self.start(&mut g) }
        // a thread that never comes (fewer threads than announced) must not hold the others
        let t0 = Instant::now();
        while !g.started && !g.free {
            let (h, _) = self.reg.wait_timeout(g, Duration::from_millis(100)).unwrap_or_else(|e| e.into_inner());
            g = h;
            if !g.started && t0.elapsed() > Duration::from_millis(1500) { self.start(&mut g) }
        }
        self.await_token(g, id);
        Some(id)
    }
}

/// The run and identity of the calling thread, when it is scheduled.
fn me() -> Option<(Arc<Run>, usize)> {
    let known = CTX.try_with(|c| c.borrow().as_ref().map(|x| (x.run.clone(), x.id)));
    match known {
        Err(_) => None,
        Ok(Some((r, id))) => if lk(&r.inner).free { None } else { Some((r, id)) },
        Ok(None) => {
            if !ACTIVE.load(SeqCst) { return None }
            let r = lk(&CURRENT).clone()?;
            if r.main == std::thread::current().id() { return None }
            let id = r.register()?;
            if lk(&r.inner).free { None } else { Some((r, id)) }
        }
    }
}
/// A point where another thread may be chosen.
pub fn point(op: Op) {
    if !ACTIVE.load(SeqCst) { return }
    if std::thread::panicking() { return }
    if let Some((r, id)) = me() {
        if op == Op::Point { r.progress.fetch_add(1, SeqCst); }
        let mut g = lk(&r.inner);
        if g.free { return }
        r.choose(&mut g, id, op, false);
        r.await_token(g, id);
    }
}
/// True when the calling thread is scheduled: it must not block by itself.
pub(crate) fn scheduled() -> bool { ACTIVE.load(SeqCst) && me().is_some() }
/// Blocks the calling thread until `unblock(addr)`.
pub(crate) fn block(addr: usize) {
    if let Some((r, id)) = me() {
        let mut g = lk(&r.inner);
        if g.free { return }
        g.threads[id].state = State::Lock(addr);
        r.choose(&mut g, id, Op::Blocked, true);
        r.await_token(g, id);
    }
}
pub(crate) fn unblock(addr: usize) {
    if let Some(r) = CTX.try_with(|c| c.borrow().as_ref().map(|x| x.run.clone())).ok().flatten() {
        let mut g = lk(&r.inner);
        for t in g.threads.iter_mut() { if t.state == State::Lock(addr) { t.state = State::Runnable } }
    }
}
/// The identity of the calling thread, if scheduled (for condition variables).
pub(crate) fn ticket() -> Option<usize> { me().map(|x| x.1) }
/// Waits until `wake` of this thread's ticket (true) or a timeout (false) or the end of scheduling (false).
pub(crate) fn park(timed: bool, mut still_waiting: impl FnMut() -> bool) -> bool {
    if let Some((r, id)) = me() {
        let mut g = lk(&r.inner);
        if g.free { return !still_waiting() }
        g.threads[id].state = State::Cond { timed };
        r.choose(&mut g, id, Op::Wait, true);
        r.await_token(g, id);
    }
    !still_waiting()
}
pub(crate) fn wake(id: usize) {
    if let Some(r) = CTX.try_with(|c| c.borrow().as_ref().map(|x| x.run.clone())).ok().flatten().or_else(|| lk(&CURRENT).clone()) {
        let mut g = lk(&r.inner);
        if let Some(t) = g.threads.get_mut(id) { if matches!(t.state, State::Cond { .. }) { t.state = State::Runnable } }
    }
}
