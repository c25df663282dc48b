pub use mcsched as mc;
pub use real::*;

#[cfg(feature = "sync")]
pub mod sync {
    pub use real::sync::*;
    use mcsched::{act, note_result, Mode};

    /// The real lock; acquisitions are scheduling points.
    #[derive(Debug, Default)]
    pub struct RwLock<T: ?Sized>(real::sync::RwLock<T>);

    fn blocking<F: std::future::Future>(f: F) -> F::Output {
        mcsched::block_on(f, None).unwrap()
    }

    impl<T> RwLock<T> {
        pub fn new(v: T) -> Self {
            Self(real::sync::RwLock::new(v))
        }
        pub fn with_max_readers(v: T, n: u32) -> Self {
            Self(real::sync::RwLock::with_max_readers(v, n))
        }
        pub const fn const_new(v: T) -> Self {
            Self(real::sync::RwLock::const_new(v))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(v: T) -> Self {
            Self::new(v)
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn p(&self, what: &'static str) {
            act(what, self as *const Self as *const () as usize, Mode::Write)
        }
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            self.p("async read");
            self.0.read().await
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            self.p("async write");
            self.0.write().await
        }
        pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
            self.p("blocking_read");
            blocking(self.0.read())
        }
        pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
            self.p("blocking_write");
            blocking(self.0.write())
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            self.p("try_read");
            let r = self.0.try_read();
            note_result(r.is_ok() as u64);
            r
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            self.p("try_write");
            let r = self.0.try_write();
            note_result(r.is_ok() as u64);
            r
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }

    /// The real mutex; acquisitions are scheduling points.
    #[derive(Debug, Default)]
    pub struct Mutex<T: ?Sized>(real::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub fn new(v: T) -> Self {
            Self(real::sync::Mutex::new(v))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn p(&self, what: &'static str) {
            act(what, self as *const Self as *const () as usize, Mode::Write)
        }
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            self.p("async lock");
            self.0.lock().await
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            self.p("try_lock");
            let r = self.0.try_lock();
            note_result(r.is_ok() as u64);
            r
        }
        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            self.p("blocking_lock");
            blocking(self.0.lock())
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
}
