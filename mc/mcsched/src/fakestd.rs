//! `std` with synchronization primitives under control of the scheduler.
pub use ::std::*;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::act("atomic load", 24, crate::Mode::Read)
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::act("atomic load", 24, crate::Mode::Read)
    }
}

pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::atomic::*;
        pub use ::std::sync::atomic::{compiler_fence, AtomicPtr, AtomicI16, AtomicI8};
    }
    use crate::rawlock::RwState;
    use ::std::cell::UnsafeCell;
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
    use ::std::thread::panicking;

    pub struct Mutex<T: ?Sized> {
        raw:    RwState,
        poison: AtomicBool,
        v:      UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>, bool);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Self { raw: RwState::new(), poison: AtomicBool::new(false), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            let p = self.poison.load(SeqCst);
            let v = self.v.into_inner();
            if p {
                Err(PoisonError::new(v))
            }
            else {
                Ok(v)
            }
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            self.raw.write();
            let g = MutexGuard(self, panicking());
            if self.poison.load(SeqCst) {
                Err(PoisonError::new(g))
            }
            else {
                Ok(g)
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            self.raw.try_point("try_lock");
            let r = self.raw.try_write();
            crate::note_result(r as u64);
            if !r {
                return Err(TryLockError::WouldBlock);
            }
            let g = MutexGuard(self, panicking());
            if self.poison.load(SeqCst) {
                Err(TryLockError::Poisoned(PoisonError::new(g)))
            }
            else {
                Ok(g)
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, SeqCst)
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(v: T) -> Self {
            Self::new(v)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Mutex")
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if !self.1 && panicking() {
                self.0.poison.store(true, SeqCst);
            }
            self.0.raw.unlock_write()
        }
    }

    pub struct RwLock<T: ?Sized> {
        raw:    RwState,
        poison: AtomicBool,
        v:      UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            Self { raw: RwState::new(), poison: AtomicBool::new(false), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            self.raw.read();
            let g = RwLockReadGuard(self);
            if self.poison.load(SeqCst) {
                Err(PoisonError::new(g))
            }
            else {
                Ok(g)
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            self.raw.write();
            let g = RwLockWriteGuard(self, panicking());
            if self.poison.load(SeqCst) {
                Err(PoisonError::new(g))
            }
            else {
                Ok(g)
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.poison.load(SeqCst)
        }
        pub fn clear_poison(&self) {
            self.poison.store(false, SeqCst)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0.raw.unlock_read()
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if !self.1 && panicking() {
                self.0.poison.store(true, SeqCst);
            }
            self.0.raw.unlock_write()
        }
    }

    /// Initialization is serialized by a mutex
    pub struct OnceLock<T> {
        raw: RwState,
        set: crate::atomic::AtomicBool,
        v:   UnsafeCell<Option<T>>,
    }
    unsafe impl<T: Send> Send for OnceLock<T> {}
    unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            Self { raw: RwState::new(), set: crate::atomic::AtomicBool::new(false), v: UnsafeCell::new(None) }
        }
        pub fn get(&self) -> Option<&T> {
            if self.set.load(SeqCst) {
                unsafe { (*self.v.get()).as_ref() }
            }
            else {
                None
            }
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.v.get_mut().as_mut()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            let mut v = Some(v);
            self.get_or_init(|| v.take().unwrap());
            match v {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if let Some(v) = self.get() {
                return v;
            }
            self.raw.write();
            struct U<'a>(&'a RwState);
            impl Drop for U<'_> {
                fn drop(&mut self) {
                    self.0.unlock_write()
                }
            }
            let _u = U(&self.raw);
            unsafe {
                if (*self.v.get()).is_none() {
                    let v = f();
                    *self.v.get() = Some(v);
                    self.set.store(true, SeqCst);
                }
                (*self.v.get()).as_ref().unwrap()
            }
        }
        pub fn take(&mut self) -> Option<T> {
            *self.set.get_mut() = false;
            self.v.get_mut().take()
        }
        pub fn into_inner(self) -> Option<T> {
            self.v.into_inner()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
}
