#![allow(clippy::all)]
pub use lock_api;
pub use mcsched as mc;
use mcsched::rawlock::RwState;
use std::time::{Duration, Instant};

#[cfg(feature = "send_guard")]
type GuardMarker = lock_api::GuardSend;
#[cfg(not(feature = "send_guard"))]
type GuardMarker = lock_api::GuardNoSend;

pub struct RawRwLock(RwState);

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(RwState::new());
    type GuardMarker = GuardMarker;
    fn lock_exclusive(&self) {
        self.0.write()
    }
    fn try_lock_exclusive(&self) -> bool {
        self.0.try_point("try_write");
        let r = self.0.try_write();
        mcsched::note_result(r as u64);
        r
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.unlock_write()
    }
    fn lock_shared(&self) {
        self.0.read()
    }
    fn try_lock_shared(&self) -> bool {
        self.0.try_point("try_read");
        let r = self.0.try_read();
        mcsched::note_result(r as u64);
        r
    }
    unsafe fn unlock_shared(&self) {
        self.0.unlock_read()
    }
    fn is_locked(&self) -> bool {
        self.0.try_point("is_locked");
        let r = self.0.raw() != 0;
        mcsched::note_result(r as u64);
        r
    }
    fn is_locked_exclusive(&self) -> bool {
        self.0.try_point("is_locked_exclusive");
        let r = self.0.raw() & mcsched::rawlock::WRITER != 0;
        mcsched::note_result(r as u64);
        r
    }
}
unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.0.unlock_read()
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.0.unlock_write()
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.downgrade_write_to_read()
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_shared_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_shared_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_shared(self)
    }
    fn try_lock_exclusive_for(&self, _: Duration) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    fn try_lock_exclusive_until(&self, _: Instant) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
}
unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.0.read_rec()
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.0.try_point("try_read_recursive");
        let r = self.0.try_read_rec();
        mcsched::note_result(r as u64);
        r
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.0.upgradable()
    }
    fn try_lock_upgradable(&self) -> bool {
        self.0.try_point("try_upgradable");
        let r = self.0.try_upgradable();
        mcsched::note_result(r as u64);
        r
    }
    unsafe fn unlock_upgradable(&self) {
        self.0.unlock_upgradable()
    }
    unsafe fn upgrade(&self) {
        self.0.upgrade()
    }
    unsafe fn try_upgrade(&self) -> bool {
        self.0.try_point("try_upgrade");
        let r = self.0.try_upgrade();
        mcsched::note_result(r as u64);
        r
    }
}
unsafe impl lock_api::RawRwLockUpgradeFair for RawRwLock {
    unsafe fn unlock_upgradable_fair(&self) {
        self.0.unlock_upgradable()
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.downgrade_upgradable_to_read()
    }
    unsafe fn downgrade_to_upgradable(&self) {
        self.0.downgrade_write_to_upgradable()
    }
}
unsafe impl lock_api::RawRwLockUpgradeTimed for RawRwLock {
    fn try_lock_upgradable_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    fn try_lock_upgradable_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_lock_upgradable(self)
    }
    unsafe fn try_upgrade_for(&self, _: Duration) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
    unsafe fn try_upgrade_until(&self, _: Instant) -> bool {
        lock_api::RawRwLockUpgrade::try_upgrade(self)
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
#[cfg(feature = "arc_lock")]
pub use lock_api::{
    ArcMutexGuard, ArcReentrantMutexGuard, ArcRwLockReadGuard, ArcRwLockUpgradableReadGuard, ArcRwLockWriteGuard,
};

pub struct RawMutex(RwState);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(RwState::new());
    type GuardMarker = GuardMarker;
    fn lock(&self) {
        self.0.write()
    }
    fn try_lock(&self) -> bool {
        self.0.try_point("try_lock");
        let r = self.0.try_write();
        mcsched::note_result(r as u64);
        r
    }
    unsafe fn unlock(&self) {
        self.0.unlock_write()
    }
    fn is_locked(&self) -> bool {
        self.0.try_point("is_locked");
        let r = self.0.raw() != 0;
        mcsched::note_result(r as u64);
        r
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.unlock_write()
    }
}
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = Duration;
    type Instant = Instant;
    fn try_lock_for(&self, _: Duration) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
    fn try_lock_until(&self, _: Instant) -> bool {
        lock_api::RawMutex::try_lock(self)
    }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RawFairMutex = RawMutex;
pub type FairMutex<T> = Mutex<T>;
pub type FairMutexGuard<'a, T> = MutexGuard<'a, T>;
pub type MappedFairMutexGuard<'a, T> = MappedMutexGuard<'a, T>;

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: u8 = const { 0 });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;
pub type MappedReentrantMutexGuard<'a, T> = lock_api::MappedReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OnceState {
    New,
    Poisoned,
    InProgress,
    Done,
}
/// `Once` in terms of a mutex
pub struct Once(Mutex<()>, mcsched::atomic::AtomicU8);
impl Once {
    pub const fn new() -> Self {
        Once(const_mutex(()), mcsched::atomic::AtomicU8::new(0))
    }
    pub fn state(&self) -> OnceState {
        match self.1.load(mcsched::atomic::Ordering::SeqCst) {
            0 => OnceState::New,
            1 => OnceState::InProgress,
            2 => OnceState::Done,
            _ => OnceState::Poisoned,
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.call(f, false)
    }
    pub fn call_once_force<F: FnOnce(OnceState)>(&self, f: F) {
        let st = self.state();
        self.call(move || f(st), true)
    }
    fn call<F: FnOnce()>(&self, f: F, force: bool) {
        use mcsched::atomic::Ordering::SeqCst;
        if self.1.load(SeqCst) == 2 {
            return;
        }
        let _g = self.0.lock();
        match self.1.load(SeqCst) {
            2 => return,
            3 if !force => panic!("Once instance has previously been poisoned"),
            _ => (),
        }
        struct P<'a>(&'a Once);
        impl Drop for P<'_> {
            fn drop(&mut self) {
                self.0 .1.store(3, mcsched::atomic::Ordering::SeqCst)
            }
        }
        self.1.store(1, SeqCst);
        let p = P(self);
        f();
        std::mem::forget(p);
        self.1.store(2, SeqCst);
    }
}

pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
#[derive(Default)]
pub struct Condvar(std::sync::Mutex<Vec<std::sync::Arc<std::sync::atomic::AtomicBool>>>);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(std::sync::Mutex::new(Vec::new()))
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let f = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        self.0.lock().unwrap().push(f.clone());
        lock_api::MutexGuard::unlocked(g, || mcsched::wait_flag(&f));
    }
    pub fn notify_one(&self) -> bool {
        mcsched::act("notify", self as *const _ as usize, mcsched::Mode::Write);
        let mut v = self.0.lock().unwrap();
        if v.is_empty() {
            return false;
        }
        v.remove(0).store(true, std::sync::atomic::Ordering::SeqCst);
        true
    }
    pub fn notify_all(&self) -> usize {
        mcsched::act("notify", self as *const _ as usize, mcsched::Mode::Write);
        let mut v = self.0.lock().unwrap();
        let n = v.len();
        for f in v.drain(..) {
            f.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        n
    }
}
