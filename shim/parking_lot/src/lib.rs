//! The part of parking_lot the code under test uses, over a scheduler that decides who runs (see `sched`).
//! Outside a scheduled run the locks behave natively.
#![allow(clippy::all)]
pub mod sched;
use sched::Op;
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

fn lk<T>(m: &std::sync::Mutex<T>) -> std::sync::MutexGuard<'_, T> { m.lock().unwrap_or_else(|e| e.into_inner()) }

/// readers-writer lock state shared by both kinds of locks
struct Raw { st: std::sync::Mutex<RawSt>, cv: std::sync::Condvar }
struct RawSt { writer: bool, upgradable: bool, readers: usize, writers_waiting: usize }
#[derive(Clone, Copy, PartialEq)]
enum Want { Read, Write, Upgradable, Upgrade }
impl RawSt {
    // as in parking_lot, a waiting writer keeps new readers out
    fn free(&self, w: Want) -> bool {
        match w {
            Want::Read => !self.writer && self.writers_waiting == 0,
            Want::Write => !self.writer && !self.upgradable && self.readers == 0,
            Want::Upgradable => !self.writer && !self.upgradable && self.writers_waiting == 0,
            Want::Upgrade => self.readers == 0,
        }
    }
    fn take(&mut self, w: Want) {
        match w {
            Want::Read => self.readers += 1,
            Want::Write => self.writer = true,
            Want::Upgradable => self.upgradable = true,
            Want::Upgrade => { self.upgradable = false; self.writer = true }
        }
    }
}
impl Raw {
    const fn new() -> Raw { Raw { st: std::sync::Mutex::new(RawSt { writer: false, upgradable: false, readers: 0, writers_waiting: 0 }), cv: std::sync::Condvar::new() } }
    fn addr(&self) -> usize { self as *const Raw as usize }
    fn acquire(&self, write: bool, deadline: Option<Instant>) -> bool { self.want(if write { Want::Write } else { Want::Read }, deadline) }
    fn want(&self, w: Want, deadline: Option<Instant>) -> bool {
        let mut waiting = false;
        let writes = matches!(w, Want::Write | Want::Upgrade);
        loop {
            let mut g = lk(&self.st);
            if g.free(w) {
                g.take(w);
                if waiting { g.writers_waiting -= 1 }
                return true;
            }
            if let Some(d) = deadline { if Instant::now() >= d { if waiting { g.writers_waiting -= 1; drop(g); self.freed() } return false } }
            if writes && !waiting { waiting = true; g.writers_waiting += 1 }
            drop(g);
            if sched::scheduled() {
                if deadline.is_some() { sched::point(Op::Blocked); std::thread::sleep(Duration::from_micros(1)) } else {
                    let busy = !lk(&self.st).free(w);
                    if busy { sched::block(self.addr()) }
                }
            } else {
                let g = lk(&self.st);
                if !g.free(w) { drop(self.cv.wait_timeout(g, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner())) }
            }
        }
    }
    fn try_acquire(&self, write: bool) -> bool { self.try_want(if write { Want::Write } else { Want::Read }) }
    fn try_want(&self, w: Want) -> bool {
        let mut g = lk(&self.st);
        let free = g.free(w);
        if free { g.take(w) }
        free
    }
    fn release(&self, write: bool) {
        { let mut g = lk(&self.st); if write { g.writer = false } else { g.readers -= 1 } }
        self.freed();
    }
    fn freed(&self) { self.cv.notify_all(); sched::unblock(self.addr()) }
    fn held(&self) -> bool { let g = lk(&self.st); g.writer || g.upgradable || g.readers > 0 }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> { raw: Raw, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T>, _p: PhantomData<*mut ()> }
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> { Mutex { raw: Raw::new(), data: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> T { self.data.into_inner() }
}
pub const fn const_mutex<T>(t: T) -> Mutex<T> { Mutex::new(t) }
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> { sched::point(Op::Lock); self.raw.acquire(true, None); MutexGuard { m: self, _p: PhantomData } }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> { sched::point(Op::Lock); if self.raw.try_acquire(true) { Some(MutexGuard { m: self, _p: PhantomData }) } else { None } }
    pub fn try_lock_for(&self, d: Duration) -> Option<MutexGuard<'_, T>> { sched::point(Op::Lock); if self.raw.acquire(true, Some(Instant::now() + d)) { Some(MutexGuard { m: self, _p: PhantomData }) } else { None } }
    pub fn get_mut(&mut self) -> &mut T { self.data.get_mut() }
    pub fn is_locked(&self) -> bool { self.raw.held() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex { .. }") } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.data.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { self.m.raw.release(true); sched::point(Op::Unlock) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn unlocked<F: FnOnce() -> U, U>(s: &mut Self, f: F) -> U { s.m.raw.release(true); let r = f(); s.m.raw.acquire(true, None); r }
    pub fn bump(s: &mut Self) { Self::unlocked(s, || sched::point(Op::Unlock)) }
    pub fn unlock_fair(s: Self) { drop(s) }
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(s: Self, f: F) -> MappedMutexGuard<'a, U> {
        let raw = &s.m.raw;
        let p = f(unsafe { &mut *s.m.data.get() }) as *mut U;
        std::mem::forget(s);
        MappedMutexGuard { raw, p, _p: PhantomData }
    }
}
pub struct MappedMutexGuard<'a, T: ?Sized> { raw: &'a Raw, p: *mut T, _p: PhantomData<&'a mut T> }
impl<T: ?Sized> Deref for MappedMutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.p } } }
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.p } } }
impl<T: ?Sized> Drop for MappedMutexGuard<'_, T> { fn drop(&mut self) { self.raw.release(true); sched::point(Op::Unlock) } }

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> { raw: Raw, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> { m: &'a RwLock<T>, _p: PhantomData<*mut ()> }
pub struct RwLockWriteGuard<'a, T: ?Sized> { m: &'a RwLock<T>, _p: PhantomData<*mut ()> }
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> { RwLock { raw: Raw::new(), data: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> T { self.data.into_inner() }
}
pub const fn const_rwlock<T>(t: T) -> RwLock<T> { RwLock::new(t) }
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> { sched::point(Op::Read); self.raw.acquire(false, None); RwLockReadGuard { m: self, _p: PhantomData } }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> { self.read() }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> { sched::point(Op::Write); self.raw.acquire(true, None); RwLockWriteGuard { m: self, _p: PhantomData } }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> { sched::point(Op::Read); if self.raw.try_acquire(false) { Some(RwLockReadGuard { m: self, _p: PhantomData }) } else { None } }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> { sched::point(Op::Write); if self.raw.try_acquire(true) { Some(RwLockWriteGuard { m: self, _p: PhantomData }) } else { None } }
    pub fn get_mut(&mut self) -> &mut T { self.data.get_mut() }
    pub fn is_locked(&self) -> bool { self.raw.held() }
}
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }
impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock { .. }") } }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.data.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.m.raw.release(false); sched::point(Op::Unlock) } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.m.raw.release(true); sched::point(Op::Unlock) } }
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let m = s.m;
        std::mem::forget(s);
        { let mut g = lk(&m.raw.st); g.writer = false; g.readers += 1 }
        m.raw.freed();
        RwLockReadGuard { m, _p: PhantomData }
    }
}

pub struct RwLockUpgradableReadGuard<'a, T: ?Sized> { m: &'a RwLock<T>, _p: PhantomData<*mut ()> }
unsafe impl<T: ?Sized + Sync> Sync for RwLockUpgradableReadGuard<'_, T> {}
impl<T: ?Sized> Deref for RwLockUpgradableReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.data.get() } } }
impl<T: ?Sized> Drop for RwLockUpgradableReadGuard<'_, T> {
    fn drop(&mut self) { { lk(&self.m.raw.st).upgradable = false } self.m.raw.freed(); sched::point(Op::Unlock) }
}
impl<T: ?Sized> RwLock<T> {
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> { sched::point(Op::Read); self.raw.want(Want::Upgradable, None); RwLockUpgradableReadGuard { m: self, _p: PhantomData } }
    pub fn try_upgradable_read(&self) -> Option<RwLockUpgradableReadGuard<'_, T>> { sched::point(Op::Read); if self.raw.try_want(Want::Upgradable) { Some(RwLockUpgradableReadGuard { m: self, _p: PhantomData }) } else { None } }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let m = s.m;
        std::mem::forget(s);
        sched::point(Op::Write);
        m.raw.want(Want::Upgrade, None);
        RwLockWriteGuard { m, _p: PhantomData }
    }
    pub fn try_upgrade(s: Self) -> Result<RwLockWriteGuard<'a, T>, Self> {
        let m = s.m;
        sched::point(Op::Write);
        if m.raw.try_want(Want::Upgrade) { std::mem::forget(s); Ok(RwLockWriteGuard { m, _p: PhantomData }) } else { Err(s) }
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let m = s.m;
        std::mem::forget(s);
        { let mut g = lk(&m.raw.st); g.upgradable = false; g.readers += 1 }
        m.raw.freed();
        RwLockReadGuard { m, _p: PhantomData }
    }
}

/// a fair lock: which waiting thread gets it is the scheduler's choice here, as for any lock
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;

// ---------------------------------------------------------------- Condvar
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
pub struct Condvar { st: std::sync::Mutex<Vec<Waiter>>, cv: std::sync::Condvar }
/// (unique number, identity in the scheduled run)
struct Waiter(usize, Option<usize>);
static NEXT: AtomicUsize = AtomicUsize::new(1);
impl Condvar {
    pub const fn new() -> Condvar { Condvar { st: std::sync::Mutex::new(Vec::new()), cv: std::sync::Condvar::new() } }
    fn wait_raw(&self, raw: &Raw, deadline: Option<Instant>) -> bool {
        let n = NEXT.fetch_add(1, SeqCst);
        let t = if sched::scheduled() { sched::ticket() } else { None };
        lk(&self.st).push(Waiter(n, t));
        raw.release(true);
        let here = || lk(&self.st).iter().any(|w| w.0 == n);
        let mut notified = true;
        if t.is_some() && here() { notified = sched::park(deadline.is_some(), here); }
        if here() && t.is_some() {
            // a timeout, or scheduling has ended meanwhile: a wake-up without notification is as good
            lk(&self.st).retain(|w| w.0 != n);
            notified = false;
        } else if t.is_none() {
            let mut g = lk(&self.st);
            while g.iter().any(|w| w.0 == n) {
                if let Some(d) = deadline { if Instant::now() >= d { g.retain(|w| w.0 != n); notified = false; break } }
                g = self.cv.wait_timeout(g, Duration::from_millis(50)).unwrap_or_else(|e| e.into_inner()).0;
            }
        }
        raw.acquire(true, None);
        notified
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) { self.wait_raw(&g.m.raw, None); }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult { WaitTimeoutResult(!self.wait_raw(&g.m.raw, Some(Instant::now() + d))) }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Instant) -> WaitTimeoutResult { WaitTimeoutResult(!self.wait_raw(&g.m.raw, Some(d))) }
    pub fn wait_while<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F) { while f(&mut **g) { self.wait(g) } }
    pub fn wait_while_for<T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: &mut MutexGuard<'_, T>, mut f: F, d: Duration) -> WaitTimeoutResult {
        let end = Instant::now() + d;
        while f(&mut **g) { if self.wait_until(g, end).timed_out() { return WaitTimeoutResult(f(&mut **g)) } }
        WaitTimeoutResult(false)
    }
    pub fn notify_one(&self) -> bool {
        sched::point(Op::Notify);
        let w = { let mut g = lk(&self.st); if g.is_empty() { None } else { Some(g.remove(0)) } };
        self.woken(w.into_iter().collect()) > 0
    }
    pub fn notify_all(&self) -> usize {
        sched::point(Op::Notify);
        let ws = std::mem::take(&mut *lk(&self.st));
        self.woken(ws)
    }
    fn woken(&self, ws: Vec<Waiter>) -> usize {
        let n = ws.len();
        for w in ws { if let Some(id) = w.1 { sched::wake(id) } }
        self.cv.notify_all();
        n
    }
}
impl Default for Condvar { fn default() -> Self { Condvar::new() } }
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar { .. }") } }
