//! Stand-in for parking_lot 0.12: the same types over locks whose waiting can be driven by the scheduler
//! of [`sched`]. Threads not driven by it wait really. As in parking_lot, a writer waiting for the readers
//! to leave holds new readers back, and a thread taking a read lock twice can thus wait for itself.
pub mod sched;
pub use lock_api;
use std::sync::{Condvar as StdCondvar, Mutex as StdMutex, MutexGuard as StdGuard};
use std::time::{Duration, Instant};

#[derive(Default)]
struct St {
    readers: u32,
    writer: bool,
    upgradable: bool,
    /// a writer that waits for the readers to leave
    pending: bool,
}
/// one lock of either kind
struct Core {
    st: StdMutex<St>,
    cv: StdCondvar,
}
impl Core {
    #[allow(clippy::declare_interior_mutable_const)]
    const NEW: Core = Core {
        st: StdMutex::new(St { readers: 0, writer: false, upgradable: false, pending: false }),
        cv: StdCondvar::new(),
    };
    fn st(&self) -> StdGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn addr(&self) -> usize {
        self as *const Core as usize
    }
    /// waits until `f` succeeds
    fn until(&self, what: &'static str, mut f: impl FnMut(&mut St) -> bool) {
        if sched::driven() {
            sched::before_lock();
            loop {
                if f(&mut self.st()) {
                    held(1);
                    return;
                }
                sched::block(self.addr(), what);
            }
        }
        let mut g = self.st();
        while !f(&mut g) {
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        held(1);
    }
    fn once(&self, f: impl FnOnce(&mut St) -> bool) -> bool {
        sched::before_lock();
        let ok = f(&mut self.st());
        held(ok as i32);
        ok
    }
    fn until_time(&self, end: Instant, what: &'static str, mut f: impl FnMut(&mut St) -> bool) -> bool {
        if sched::driven() {
            // a wait with a time limit is driven as one that can end at any time: here at once
            let _ = what;
            return self.once(f);
        }
        let mut g = self.st();
        while !f(&mut g) {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap_or_else(|e| e.into_inner()).0;
        }
        held(1);
        true
    }
    fn release(&self, f: impl FnOnce(&mut St)) {
        held(-1);
        self.change(f)
    }
    fn change(&self, f: impl FnOnce(&mut St)) {
        sched::regain();
        f(&mut self.st());
        self.cv.notify_all();
        sched::unblock(self.addr());
        sched::point();
    }
    fn exclusive(&self, what: &'static str) {
        let mut mine = Pending(self, false);
        let mine = &mut mine.1;
        self.until(what, |s| {
            if *mine {
                if s.readers == 0 {
                    *mine = false;
                    s.pending = false;
                    s.writer = true;
                    return true;
                }
                return false;
            }
            if s.writer || s.pending || s.upgradable {
                return false;
            }
            if s.readers > 0 {
                s.pending = true;
                *mine = true;
                return false;
            }
            s.writer = true;
            true
        });
    }
}
/// a writer that is unwound while it waits no longer holds readers back
struct Pending<'a>(&'a Core, bool);
impl Drop for Pending<'_> {
    fn drop(&mut self) {
        if self.1 {
            self.0.st().pending = false;
            self.0.cv.notify_all();
        }
    }
}
fn held(n: i32) {
    let _ = sched::HELD.try_with(|h| h.set(h.get() + n));
}
fn try_w(s: &mut St) -> bool {
    let ok = !s.writer && !s.pending && !s.upgradable && s.readers == 0;
    s.writer |= ok;
    ok
}
fn try_r(s: &mut St) -> bool {
    let ok = !s.writer && !s.pending;
    s.readers += ok as u32;
    ok
}
fn try_rr(s: &mut St) -> bool {
    let ok = !s.writer;
    s.readers += ok as u32;
    ok
}
fn try_u(s: &mut St) -> bool {
    let ok = !s.writer && !s.pending && !s.upgradable;
    s.upgradable |= ok;
    ok
}

pub struct RawMutex(Core);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex(Core::NEW);
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        self.0.until("waits for a mutex", try_w)
    }
    fn try_lock(&self) -> bool {
        self.0.once(try_w)
    }
    unsafe fn unlock(&self) {
        self.0.release(|s| s.writer = false)
    }
    fn is_locked(&self) -> bool {
        self.0.st().writer
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.release(|s| s.writer = false)
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, t: Duration) -> bool {
        self.0.until_time(Instant::now() + t, "waits for a mutex", try_w)
    }
    fn try_lock_until(&self, t: Instant) -> bool {
        self.0.until_time(t, "waits for a mutex", try_w)
    }
}
pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: RawThreadId = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const u8 as usize).unwrap())
    }
}

pub struct RawRwLock(Core);
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock(Core::NEW);
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        self.0.until("waits for a read lock", try_r)
    }
    fn try_lock_shared(&self) -> bool {
        self.0.once(try_r)
    }
    unsafe fn unlock_shared(&self) {
        self.0.release(|s| s.readers -= 1)
    }
    fn lock_exclusive(&self) {
        self.0.exclusive("waits for a write lock")
    }
    fn try_lock_exclusive(&self) -> bool {
        self.0.once(try_w)
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.release(|s| s.writer = false)
    }
    fn is_locked(&self) -> bool {
        let s = self.0.st();
        s.writer || s.readers > 0 || s.upgradable
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.st().writer
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.0.release(|s| s.readers -= 1)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.0.release(|s| s.writer = false)
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.change(|s| {
            s.writer = false;
            s.readers += 1
        })
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, t: Duration) -> bool {
        self.0.until_time(Instant::now() + t, "waits for a read lock", try_r)
    }
    fn try_lock_shared_until(&self, t: Instant) -> bool {
        self.0.until_time(t, "waits for a read lock", try_r)
    }
    fn try_lock_exclusive_for(&self, t: Duration) -> bool {
        self.0.until_time(Instant::now() + t, "waits for a write lock", try_w)
    }
    fn try_lock_exclusive_until(&self, t: Instant) -> bool {
        self.0.until_time(t, "waits for a write lock", try_w)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.0.until("waits for a read lock", try_rr)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.0.once(try_rr)
    }
}
unsafe impl lock_api::RawRwLockRecursiveTimed for RawRwLock {
    fn try_lock_shared_recursive_for(&self, t: Duration) -> bool {
        self.0.until_time(Instant::now() + t, "waits for a read lock", try_rr)
    }
    fn try_lock_shared_recursive_until(&self, t: Instant) -> bool {
        self.0.until_time(t, "waits for a read lock", try_rr)
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.0.until("waits for an upgradable lock", try_u)
    }
    fn try_lock_upgradable(&self) -> bool {
        self.0.once(try_u)
    }
    unsafe fn unlock_upgradable(&self) {
        self.0.release(|s| s.upgradable = false)
    }
    unsafe fn upgrade(&self) {
        let mut mine = Pending(&self.0, false);
        let mine = &mut mine.1;
        held(-1);
        self.0.until("waits to upgrade a lock", |s| {
            if !*mine {
                s.upgradable = false;
                s.pending = true;
                *mine = true;
            }
            if s.readers == 0 {
                *mine = false;
                s.pending = false;
                s.writer = true;
                return true;
            }
            false
        })
    }
    unsafe fn try_upgrade(&self) -> bool {
        let ok = self.0.once(|s| {
            if s.readers == 0 {
                s.upgradable = false;
                s.writer = true;
                true
            } else {
                false
            }
        });
        held(-(ok as i32));
        ok
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        self.0.release(|s| s.upgradable = false)
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.change(|s| {
            s.upgradable = false;
            s.readers += 1
        })
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.0.change(|s| {
            s.writer = false;
            s.upgradable = true
        })
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v)
}
pub const fn const_rwlock<T>(v: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v)
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
/// a waiting thread is woken by a change of the turn number
#[derive(Default)]
pub struct Condvar {
    turn: StdMutex<u64>,
    cv: StdCondvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { turn: StdMutex::new(0), cv: StdCondvar::new() }
    }
    fn turn(&self) -> StdGuard<'_, u64> {
        self.turn.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn addr(&self) -> usize {
        self as *const Condvar as usize
    }
    pub fn notify_all(&self) -> usize {
        sched::regain();
        *self.turn() += 1;
        self.cv.notify_all();
        sched::unblock(self.addr());
        sched::point();
        0
    }
    pub fn notify_one(&self) -> bool {
        self.notify_all();
        true
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let t = *self.turn();
        MutexGuard::unlocked(g, || {
            if sched::driven() {
                while *self.turn() == t {
                    sched::block(self.addr(), "waits on a condition");
                }
            } else {
                let mut n = self.turn();
                while *n == t {
                    n = self.cv.wait(n).unwrap_or_else(|e| e.into_inner());
                }
            }
        });
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut f: impl FnMut(&mut T) -> bool) {
        while f(&mut *g) {
            self.wait(g)
        }
    }
    pub fn wait_for<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, d: Duration) -> WaitTimeoutResult {
        let t = *self.turn();
        MutexGuard::unlocked(g, || {
            if sched::driven() {
                sched::point();
            } else {
                let n = self.turn();
                if *n == t {
                    drop(self.cv.wait_timeout(n, d));
                }
            }
        });
        let same = *self.turn() == t;
        WaitTimeoutResult(same)
    }
    pub fn wait_until<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, end: Instant) -> WaitTimeoutResult {
        self.wait_for(g, end.saturating_duration_since(Instant::now()))
    }
}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
#[derive(Default)]
pub struct Once(Mutex<bool>);
impl Once {
    pub const fn new() -> Once {
        Once(const_mutex(false))
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        let mut g = self.0.lock();
        if !*g {
            f();
            *g = true;
        }
    }
    pub fn state(&self) -> OnceState {
        match self.0.try_lock() {
            None => OnceState::InProgress,
            Some(g) if *g => OnceState::Done,
            Some(_) => OnceState::New,
        }
    }
}
