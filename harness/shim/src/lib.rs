//! A stand-in for `parking_lot` whose every primitive is a decision point of a
//! deterministic scheduler (module `sched`).  Outside a scheduled run (or for a
//! thread which does not take part in it) the primitives are ordinary blocking ones.
pub mod sched;

use std::fmt;
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub use lock_api;

/* ------------------------------- Mutex ---------------------------------- */
pub struct RawMutex { held: AtomicUsize }
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { held: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        sched::acquire(self as *const _ as usize, sched::Op::Lock, || self.try_take());
    }
    fn try_lock(&self) -> bool {
        sched::try_acquire(self as *const _ as usize, || self.try_take())
    }
    unsafe fn unlock(&self) {
        sched::release(self as *const _ as usize, || self.held.store(0, SeqCst));
    }
    fn is_locked(&self) -> bool { self.held.load(SeqCst) != 0 }
}
impl RawMutex {
    fn try_take(&self) -> bool {
        if self.held.load(SeqCst) == 0 { self.held.store(1, SeqCst); true } else { false }
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) { lock_api::RawMutex::unlock(self) }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _d: Duration) -> bool { lock_api::RawMutex::lock(self); true }
    fn try_lock_until(&self, _i: Instant) -> bool { lock_api::RawMutex::lock(self); true }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type ArcMutexGuard<T> = lock_api::ArcMutexGuard<RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_fair_mutex<T>(val: T) -> FairMutex<T> { const_mutex(val) }

/* ------------------------------- RwLock --------------------------------- */
/// `state`: -1 = one writer, n >= 0 = n readers;  `up` = 1: one of the readers is upgradable
pub struct RawRwLock { state: AtomicIsize, up: AtomicUsize }
impl RawRwLock {
    fn take_sh(&self) -> bool {
        let s = self.state.load(SeqCst);
        if s >= 0 { self.state.store(s + 1, SeqCst); true } else { false }
    }
    fn take_ex(&self) -> bool {
        if self.state.load(SeqCst) == 0 { self.state.store(-1, SeqCst); true } else { false }
    }
    fn take_up(&self) -> bool {
        let s = self.state.load(SeqCst);
        if s >= 0 && self.up.load(SeqCst) == 0 {
            self.state.store(s + 1, SeqCst); self.up.store(1, SeqCst); true
        } else { false }
    }
    fn upgrade_now(&self) -> bool {
        if self.state.load(SeqCst) == 1 { self.up.store(0, SeqCst); self.state.store(-1, SeqCst); true } else { false }
    }
    fn id(&self) -> usize { self as *const _ as usize }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { state: AtomicIsize::new(0), up: AtomicUsize::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) { sched::acquire(self.id(), sched::Op::Read, || self.take_sh()) }
    fn try_lock_shared(&self) -> bool { sched::try_acquire(self.id(), || self.take_sh()) }
    unsafe fn unlock_shared(&self) { sched::release(self.id(), || { self.state.fetch_sub(1, SeqCst); }) }
    fn lock_exclusive(&self) { sched::acquire(self.id(), sched::Op::Write, || self.take_ex()) }
    fn try_lock_exclusive(&self) -> bool { sched::try_acquire(self.id(), || self.take_ex()) }
    unsafe fn unlock_exclusive(&self) { sched::release(self.id(), || self.state.store(0, SeqCst)) }
    fn is_locked(&self) -> bool { self.state.load(SeqCst) != 0 }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) { lock_api::RawRwLock::lock_shared(self) }
    fn try_lock_shared_recursive(&self) -> bool { lock_api::RawRwLock::try_lock_shared(self) }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) { sched::release(self.id(), || self.state.store(1, SeqCst)) }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) { lock_api::RawRwLock::unlock_shared(self) }
    unsafe fn unlock_exclusive_fair(&self) { lock_api::RawRwLock::unlock_exclusive(self) }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _d: Duration) -> bool { lock_api::RawRwLock::lock_shared(self); true }
    fn try_lock_shared_until(&self, _i: Instant) -> bool { lock_api::RawRwLock::lock_shared(self); true }
    fn try_lock_exclusive_for(&self, _d: Duration) -> bool { lock_api::RawRwLock::lock_exclusive(self); true }
    fn try_lock_exclusive_until(&self, _i: Instant) -> bool { lock_api::RawRwLock::lock_exclusive(self); true }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) { sched::acquire(self.id(), sched::Op::Read, || self.take_up()) }
    fn try_lock_upgradable(&self) -> bool { sched::try_acquire(self.id(), || self.take_up()) }
    unsafe fn unlock_upgradable(&self) {
        sched::release(self.id(), || { self.up.store(0, SeqCst); self.state.fetch_sub(1, SeqCst); })
    }
    unsafe fn upgrade(&self) { sched::acquire(self.id(), sched::Op::Write, || self.upgrade_now()) }
    unsafe fn try_upgrade(&self) -> bool { sched::try_acquire(self.id(), || self.upgrade_now()) }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) { sched::release(self.id(), || self.up.store(0, SeqCst)) }
    unsafe fn downgrade_to_upgradable(&self) {
        sched::release(self.id(), || { self.state.store(1, SeqCst); self.up.store(1, SeqCst) })
    }
}
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

/* ------------------------------- Condvar -------------------------------- */
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(self) -> bool { self.0 } }

#[derive(Default)]
pub struct Condvar { _x: AtomicUsize }
impl Condvar {
    pub const fn new() -> Condvar { Condvar { _x: AtomicUsize::new(0) } }
    fn id(&self) -> usize { self as *const _ as usize }
    pub fn notify_one(&self) -> bool { sched::notify(self.id(), false) > 0 }
    pub fn notify_all(&self) -> usize { sched::notify(self.id(), true) }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let m = unsafe { MutexGuard::mutex(guard).raw() };
        sched::wait(self.id(), m as *const _ as usize, false, || m.held.store(0, SeqCst), || m.try_take());
    }
    pub fn wait_while<T, F>(&self, guard: &mut MutexGuard<'_, T>, mut condition: F)
    where T: ?Sized, F: FnMut(&mut T) -> bool {
        while condition(&mut **guard) { self.wait(guard) }
    }
    pub fn wait_until<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _i: Instant) -> WaitTimeoutResult {
        let m = unsafe { MutexGuard::mutex(guard).raw() };
        WaitTimeoutResult(sched::wait(self.id(), m as *const _ as usize, true, || m.held.store(0, SeqCst), || m.try_take()))
    }
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        self.wait_until(guard, Instant::now() + d)
    }
    pub fn wait_while_for<T, F>(&self, guard: &mut MutexGuard<'_, T>, mut condition: F, d: Duration) -> WaitTimeoutResult
    where T: ?Sized, F: FnMut(&mut T) -> bool {
        while condition(&mut **guard) {
            if self.wait_for(guard, d).timed_out() { return WaitTimeoutResult(condition(&mut **guard)); }
        }
        WaitTimeoutResult(false)
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad("Condvar { .. }") }
}

/* ---------------------- ReentrantMutex and Once -------------------------- */
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub struct Once(std::sync::Once);
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Once { Once(std::sync::Once::new()) }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.0.call_once(f) }
}
