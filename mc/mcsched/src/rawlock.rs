//! Model of parking_lot's `RawRwLock` and `RawMutex` for the controlled scheduler.
//!
//! Semantics follow parking_lot 0.12: a writer first excludes other writers/upgradable readers by taking the writer
//! bit and then waits for the readers to leave; as long as the bit is taken new readers are held off, except for
//! recursive ones that may pass a writer which still waits. Upgrading takes the writer bit in exchange for the
//! upgradable one. Which of the waiting threads proceeds is a choice of the scheduler.
use crate::{active, lock_point, Mode};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub const WRITER: u32 = 1;
pub const UPGR: u32 = 2;
pub const READER: u32 = 4;

pub struct RwState(AtomicU32);

type Try = fn(&RwState) -> bool;

unsafe fn s<'a>(p: *const ()) -> &'a RwState {
    &*(p as *const RwState)
}

impl RwState {
    pub const fn new() -> Self {
        Self(AtomicU32::new(0))
    }

    pub fn raw(&self) -> u32 {
        self.0.load(SeqCst)
    }

    fn upd(&self, f: impl FnMut(u32) -> Option<u32>) -> bool {
        self.0.try_update(SeqCst, SeqCst, f).is_ok()
    }

    pub fn try_read(&self) -> bool {
        self.upd(|v| (v & WRITER == 0).then(|| v + READER))
    }
    pub fn try_read_rec(&self) -> bool {
        self.upd(|v| (v & WRITER == 0 || v >= READER).then(|| v + READER))
    }
    pub fn try_upgradable(&self) -> bool {
        self.upd(|v| (v & (WRITER | UPGR) == 0).then(|| v + READER + UPGR))
    }
    /// First phase of write lock: take the bit
    fn try_writer_bit(&self) -> bool {
        self.upd(|v| (v & (WRITER | UPGR) == 0).then(|| v | WRITER))
    }
    fn readers_gone(&self) -> bool {
        self.0.load(SeqCst) < READER
    }
    pub fn try_write(&self) -> bool {
        self.upd(|v| (v == 0).then_some(WRITER))
    }
    pub fn try_upgrade(&self) -> bool {
        self.upd(|v| (v == READER + UPGR).then_some(WRITER))
    }
    pub fn unlock_read(&self) {
        crate::release_point(self as *const Self as usize);
        self.0.fetch_sub(READER, SeqCst);
    }
    pub fn unlock_upgradable(&self) {
        crate::release_point(self as *const Self as usize);
        self.0.fetch_sub(READER + UPGR, SeqCst);
    }
    pub fn unlock_write(&self) {
        crate::release_point(self as *const Self as usize);
        self.0.fetch_sub(WRITER, SeqCst);
    }
    pub fn downgrade_write_to_read(&self) {
        crate::release_point(self as *const Self as usize);
        self.0.fetch_add(READER - WRITER, SeqCst);
    }
    pub fn downgrade_write_to_upgradable(&self) {
        crate::release_point(self as *const Self as usize);
        self.0.fetch_add(READER + UPGR - WRITER, SeqCst);
    }
    pub fn downgrade_upgradable_to_read(&self) {
        crate::release_point(self as *const Self as usize);
        self.0.fetch_sub(UPGR, SeqCst);
    }

    fn acquire(&self, what: &'static str, mode: Mode, can: unsafe fn(*const ()) -> bool, t: Try) {
        let p = self as *const Self as *const ();
        if active() {
            loop {
                lock_point(what, p as usize, mode, can, p);
                if t(self) {
                    return;
                }
            }
        }
        let start = Instant::now();
        while !t(self) {
            if start.elapsed() > Duration::from_secs(5) {
                panic!("lock is never released ({what})");
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }

    pub fn read(&self) {
        unsafe fn can(p: *const ()) -> bool {
            s(p).raw() & WRITER == 0
        }
        self.acquire("read", Mode::Read, can, |s| s.try_read());
    }
    pub fn read_rec(&self) {
        unsafe fn can(p: *const ()) -> bool {
            s(p).raw() & WRITER == 0 || s(p).raw() >= READER
        }
        self.acquire("read_recursive", Mode::Read, can, |s| s.try_read_rec());
    }
    pub fn upgradable(&self) {
        unsafe fn can(p: *const ()) -> bool {
            s(p).raw() & (WRITER | UPGR) == 0
        }
        self.acquire("upgradable_read", Mode::Write, can, |s| s.try_upgradable());
    }
    fn drain(&self) {
        unsafe fn can(p: *const ()) -> bool {
            s(p).readers_gone()
        }
        if !self.readers_gone() {
            self.acquire("wait for readers", Mode::Write, can, |s| s.readers_gone());
        }
    }
    pub fn write(&self) {
        unsafe fn can(p: *const ()) -> bool {
            s(p).raw() & (WRITER | UPGR) == 0
        }
        self.acquire("write", Mode::Write, can, |s| s.try_writer_bit());
        self.drain();
    }
    pub fn upgrade(&self) {
        // exchanging the bits is a visible action: it holds off the readers
        crate::act("upgrade", self as *const Self as usize, Mode::Write);
        let ok = self.upd(|v| Some(v - READER - UPGR + WRITER));
        debug_assert!(ok);
        self.drain();
    }
    pub fn try_point(&self, what: &'static str) {
        crate::try_act(what, self as *const Self as usize, Mode::Write);
    }
}
