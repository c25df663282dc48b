//! Stand-ins for `std::sync::atomic` types: every access is a scheduling point (sequentially consistent semantics).
use crate::{act, Mode};
pub use std::sync::atomic::Ordering;
use std::sync::atomic as sa;

macro_rules! common {
    ($name:ident, $std:ident, $t:ty) => {
        #[derive(Debug, Default)]
        pub struct $name(sa::$std);
        impl $name {
            pub const fn new(v: $t) -> Self {
                Self(sa::$std::new(v))
            }
            fn addr(&self) -> usize {
                self as *const Self as usize
            }
            pub fn load(&self, _o: Ordering) -> $t {
                act("atomic load", self.addr(), Mode::Read);
                self.0.load(Ordering::SeqCst)
            }
            pub fn store(&self, v: $t, _o: Ordering) {
                act("atomic store", self.addr(), Mode::Write);
                self.0.store(v, Ordering::SeqCst)
            }
            pub fn swap(&self, v: $t, _o: Ordering) -> $t {
                act("atomic swap", self.addr(), Mode::Write);
                self.0.swap(v, Ordering::SeqCst)
            }
            pub fn compare_exchange(&self, c: $t, n: $t, _s: Ordering, _f: Ordering) -> Result<$t, $t> {
                act("atomic cas", self.addr(), Mode::Write);
                self.0.compare_exchange(c, n, Ordering::SeqCst, Ordering::SeqCst)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.compare_exchange(c, n, s, f)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                _s: Ordering,
                _f: Ordering,
                f: F,
            ) -> Result<$t, $t> {
                act("atomic update", self.addr(), Mode::Write);
                self.0.try_update(Ordering::SeqCst, Ordering::SeqCst, f)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn fetch_and(&self, v: $t, _o: Ordering) -> $t {
                act("atomic rmw", self.addr(), Mode::Write);
                self.0.fetch_and(v, Ordering::SeqCst)
            }
            pub fn fetch_or(&self, v: $t, _o: Ordering) -> $t {
                act("atomic rmw", self.addr(), Mode::Write);
                self.0.fetch_or(v, Ordering::SeqCst)
            }
            pub fn fetch_xor(&self, v: $t, _o: Ordering) -> $t {
                act("atomic rmw", self.addr(), Mode::Write);
                self.0.fetch_xor(v, Ordering::SeqCst)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}
macro_rules! ints {
    ($($name:ident, $t:ty);* $(;)?) => {$(
        common!($name, $name, $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, _o: Ordering) -> $t {
                act("atomic rmw", self.addr(), Mode::Write);
                self.0.fetch_add(v, Ordering::SeqCst)
            }
            pub fn fetch_sub(&self, v: $t, _o: Ordering) -> $t {
                act("atomic rmw", self.addr(), Mode::Write);
                self.0.fetch_sub(v, Ordering::SeqCst)
            }
            pub fn fetch_max(&self, v: $t, _o: Ordering) -> $t {
                act("atomic rmw", self.addr(), Mode::Write);
                self.0.fetch_max(v, Ordering::SeqCst)
            }
        }
    )*};
}
common!(AtomicBool, AtomicBool, bool);
ints!(AtomicU8, u8; AtomicU16, u16; AtomicU32, u32; AtomicU64, u64; AtomicUsize, usize; AtomicI32, i32; AtomicI64, i64; AtomicIsize, isize);
pub fn fence(_o: Ordering) {}
