//! Stateless model checker for real multi-threaded code.
//!
//! Model threads are OS threads of which exactly one runs at a time. Control may change hands only at *scheduling
//! points*: lock acquisitions, atomic accesses, the start of an API operation and points the harness places by hand.
//! Everything in between is thread-local (releasing a lock is a left mover, so it needs no point of its own).
//! The explorer enumerates, depth first, every choice at every point, within a bound on the number of preemptions in
//! the middle of an operation; changes of thread between operations and at blocking points are free. Prefixes that
//! lead to an already explored happens-before class (Mazurkiewicz trace) are not explored twice.
//!
//! A thread that blocks or spins outside of the primitives known to the scheduler is detected by a watchdog and set
//! aside until it shows up again, so code which uses other primitives still runs (only less exhaustively).
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool as StdBool, AtomicU64, AtomicUsize, Ordering as O};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub mod atomic;
pub mod fakestd;
pub mod rawlock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Read,
    Write,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// First step of a thread, or beginning of an API operation: switching away is free
    OpStart,
    /// Visible action that never blocks
    Act(&'static str),
    /// Lock acquisition, enabled by the state of the lock
    Lock(&'static str),
    /// Waits for a waker
    Wait,
}

type Enabled = unsafe fn(*const ()) -> bool;

#[derive(Clone, Copy)]
struct Pending {
    kind:    Kind,
    addr:    usize,
    mode:    Mode,
    enabled: Option<(Enabled, *const ())>,
}
unsafe impl Send for Pending {}

impl Pending {
    fn is_enabled(&self) -> bool {
        match self.enabled {
            None => true,
            Some((f, p)) => unsafe { f(p) },
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Idle,
    Pending,
    Running,
    /// Runs or blocks outside of scheduler's control
    External,
    Done,
}

struct Th {
    st:        St,
    pend:      Pending,
    hash:      u64,
    idx:       u32,
    tags:      Vec<u32>,
    fresh:     bool,
    idle_spin: u32,
    starts:    u32,
}

struct Choice {
    /// alternatives not yet explored
    rest:   Vec<u8>,
    chosen: u8,
}

struct Inner {
    th:           Vec<Th>,
    cur:          usize,
    depth:        usize,
    path:         Vec<Choice>,
    forced:       Option<Vec<u8>>,
    preempt:      u32,
    objs:         HashMap<u64, (u64, u64)>,
    addr_ids:     HashMap<usize, u64>,
    regions:      Vec<(usize, usize, u64)>,
    visited:      HashSet<(u64, u8, u8)>,
    pruned:       bool,
    over:         bool,
    deadlock:     bool,
    steps:        u64,
    trace:        Vec<(u8, Kind, u64, u32)>,
    states:       u64,
    transitions:  u64,
    clock:        u64,
    externals:    u64,
    truncated:    u64,
    worker_panic: Option<String>,
}

pub struct Exec {
    m:        Mutex<Inner>,
    cv:       Vec<Condvar>,
    main:     Condvar,
    progress: AtomicU64,
    bound:    AtomicUsize,
    abandon:  StdBool,
    eager:    StdBool,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

fn mix(parts: &[u64]) -> u64 {
    let mut h = DefaultHasher::new();
    parts.hash(&mut h);
    h.finish()
}

fn cur() -> Option<(Arc<Exec>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// Is the calling thread under control of the explorer?
pub fn active() -> bool {
    CUR.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}

/// Index of the calling model thread
pub fn tid() -> usize {
    cur().map(|c| c.1).unwrap_or(usize::MAX)
}

const MAX_STEPS: u64 = 3000;

impl Inner {
    fn obj_id(&mut self, addr: usize, t: usize) -> u64 {
        for (b, len, id) in &self.regions {
            if addr >= *b && addr < *b + *len {
                return mix(&[1, *id, (addr - *b) as u64]);
            }
        }
        let idx = self.th[t].idx as u64;
        *self
            .addr_ids
            .entry(addr)
            .or_insert_with(|| mix(&[2, t as u64, idx]))
    }

    fn touch(&mut self, t: usize, addr: usize, mode: Mode, kind: u64) {
        let id = self.obj_id(addr, t);
        let mut parts = vec![t as u64, kind, self.th[t].idx as u64, self.th[t].hash];
        let mut objs = vec![id];
        for tag in &self.th[t].tags {
            objs.push(mix(&[3, *tag as u64]));
        }
        for o in &objs {
            let e = self.objs.entry(*o).or_insert((0, 0));
            parts.push(e.0);
            if mode == Mode::Write {
                parts.push(e.1);
            }
        }
        let h = mix(&parts);
        for o in &objs {
            let e = self.objs.get_mut(o).unwrap();
            if mode == Mode::Write {
                *e = (h, 0);
            }
            else {
                e.1 = e.1.wrapping_add(h);
            }
        }
        let th = &mut self.th[t];
        th.hash = h;
        th.idx += 1;
    }

    fn state_hash(&self) -> u64 {
        let mut s = 0u64;
        for (i, t) in self.th.iter().enumerate() {
            s = s.wrapping_add(mix(&[i as u64, t.hash, t.starts as u64, (t.st == St::Done) as u64]));
        }
        s
    }

    /// Selects the thread to run next. `me` is the thread that gives up control.
    fn pick(&mut self, me: usize, bound: u32) -> Option<usize> {
        let mut enabled: Vec<u8> = Vec::with_capacity(self.th.len());
        let me_enabled = self.th[me].st == St::Pending && self.th[me].pend.is_enabled();
        // A thread that only spins gives way to the others
        let me_spins = self.th[me].idle_spin > 24;
        if me_enabled && !me_spins {
            enabled.push(me as u8);
        }
        for (i, t) in self.th.iter().enumerate() {
            if i != me && t.st == St::Pending && t.pend.is_enabled() {
                enabled.push(i as u8);
            }
        }
        if me_enabled && me_spins {
            enabled.push(me as u8);
            self.th[me].idle_spin = 0;
        }
        if enabled.is_empty() {
            return None;
        }
        let voluntary = !me_enabled || me_spins || self.th[me].pend.kind == Kind::OpStart;
        // merged with the start of the operation
        if me_enabled && self.th[me].fresh && !voluntary {
            return Some(me);
        }
        if self.steps > MAX_STEPS {
            if !self.pruned {
                self.truncated += 1;
            }
            self.pruned = true;
        }
        if let Some(f) = &self.forced {
            let want = f.get(self.depth).copied();
            self.depth += 1;
            let c = match want {
                Some(w) if enabled.contains(&w) => w,
                _ => enabled[0],
            };
            return Some(c as usize);
        }
        if !voluntary && self.preempt >= bound {
            enabled.truncate(1);
        }
        if self.depth < self.path.len() {
            let c = self.path[self.depth].chosen;
            let c = if enabled.contains(&c) { c } else { enabled[0] };
            self.depth += 1;
            if !voluntary && c as usize != me {
                self.preempt += 1;
            }
            return Some(c as usize);
        }
        if !self.pruned {
            let key = (
                self.state_hash(),
                if voluntary { 255 } else { me as u8 },
                self.preempt as u8,
            );
            let mut seen = false;
            for p in 0..=key.2 {
                if self.visited.contains(&(key.0, key.1, p)) {
                    seen = true;
                    break;
                }
            }
            if seen {
                self.pruned = true;
            }
            else {
                self.visited.insert(key);
                self.states += 1;
            }
        }
        let chosen = enabled.remove(0);
        if self.pruned {
            enabled.clear();
        }
        self.path.push(Choice { rest: enabled, chosen });
        self.depth += 1;
        if !voluntary && chosen as usize != me {
            self.preempt += 1;
        }
        Some(chosen as usize)
    }

    fn grant(&mut self, t: usize) {
        self.cur = t;
        let p = self.th[t].pend;
        self.th[t].st = St::Running;
        self.steps += 1;
        if p.kind == Kind::OpStart {
            self.th[t].fresh = true;
            self.th[t].starts += 1;
            return;
        }
        self.th[t].fresh = false;
        self.transitions += 1;
        let k = match p.kind {
            Kind::OpStart => 0,
            Kind::Act(s) => mix(&[1, str_hash(s)]),
            Kind::Lock(s) => mix(&[2, str_hash(s)]),
            Kind::Wait => 3,
        };
        if matches!(p.kind, Kind::Act("atomic load")) {
            self.th[t].idle_spin += 1;
        }
        else {
            self.th[t].idle_spin = 0;
        }
        self.touch(t, p.addr, p.mode, k);
        let id = self.obj_id(p.addr, t);
        let tag = self.th[t].tags.last().copied().unwrap_or(0);
        self.trace.push((t as u8, p.kind, id, tag));
    }
}

fn str_hash(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Exec {
    fn new(n: usize) -> Arc<Self> {
        Arc::new(Exec {
            m:        Mutex::new(Inner {
                th:           vec![],
                cur:          0,
                depth:        0,
                path:         vec![],
                forced:       None,
                preempt:      0,
                objs:         HashMap::new(),
                addr_ids:     HashMap::new(),
                regions:      vec![],
                visited:      HashSet::new(),
                pruned:       false,
                over:         true,
                deadlock:     false,
                steps:        0,
                trace:        vec![],
                states:       0,
                transitions:  0,
                clock:        0,
                externals:    0,
                truncated:    0,
                worker_panic: None,
            }),
            cv:       (0..n).map(|_| Condvar::new()).collect(),
            main:     Condvar::new(),
            progress: AtomicU64::new(0),
            bound:    AtomicUsize::new(0),
            abandon:  StdBool::new(false),
            eager:    StdBool::new(false),
        })
    }

    /// The thread `t` announces its next action and waits for it to be granted.
    fn point(&self, t: usize, p: Pending) {
        let mut g = self.m.lock().unwrap();
        self.progress.fetch_add(1, O::Relaxed);
        let was_external = g.th[t].st == St::External;
        g.th[t].pend = p;
        g.th[t].st = St::Pending;
        if was_external && g.th.iter().any(|t| t.st == St::Running) {
            // somebody else is in control now
        }
        else {
            self.switch(&mut g, t);
        }
        loop {
            if g.th[t].st == St::Running && g.cur == t {
                return;
            }
            g = self.cv[t].wait(g).unwrap();
        }
    }

    fn switch(&self, g: &mut Inner, me: usize) {
        match g.pick(me, self.bound.load(O::Relaxed) as u32) {
            Some(n) => {
                g.grant(n);
                if n != me {
                    self.cv[n].notify_one();
                }
            }
            None => {
                if g.th.iter().any(|t| t.st == St::External) {
                    // wait for it to return
                    self.main.notify_one();
                }
                else if g.th.iter().all(|t| t.st == St::Done) {
                    g.over = true;
                    self.main.notify_one();
                }
                else {
                    g.deadlock = true;
                    g.over = true;
                    self.main.notify_one();
                }
            }
        }
    }

    fn finish(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        self.progress.fetch_add(1, O::Relaxed);
        let was_external = g.th[t].st == St::External;
        g.th[t].st = St::Done;
        if was_external && g.th.iter().any(|t| t.st == St::Running) {
            return;
        }
        self.switch(&mut g, t);
    }
}

/// Scheduling point in front of an action that never blocks.
pub fn act(what: &'static str, addr: usize, mode: Mode) {
    if let Some((e, t)) = cur() {
        e.point(t, Pending { kind: Kind::Act(what), addr, mode, enabled: None });
    }
}

/// An action which tries to take a lock or looks at its state.
///
/// A program that does so can tell whether a lock is held at all, hence releasing a lock becomes a scheduling point.
pub fn try_act(what: &'static str, addr: usize, mode: Mode) {
    if let Some((e, _)) = cur() {
        e.eager.store(true, O::SeqCst);
        act(what, addr, mode);
    }
}

/// Goes in front of releasing a lock
pub fn release_point(addr: usize) {
    if let Some((e, _)) = cur() {
        if e.eager.load(O::SeqCst) {
            act("unlock", addr, Mode::Write);
        }
    }
}

/// Scheduling point placed by the harness; `id` names the object it concerns.
pub fn yield_point(id: usize) {
    act("yield", id, Mode::Write);
}

/// Waits for the lock to become available. Returns `false` when not under control.
pub(crate) fn lock_point(what: &'static str, addr: usize, mode: Mode, enabled: Enabled, p: *const ()) -> bool {
    match cur() {
        Some((e, t)) => {
            e.point(t, Pending { kind: Kind::Lock(what), addr, mode, enabled: Some((enabled, p)) });
            true
        }
        None => false,
    }
}

/// Scheduling point that waits for `flag`.
pub fn wait_flag(flag: &StdBool) {
    unsafe fn en(p: *const ()) -> bool {
        (*(p as *const StdBool)).load(O::SeqCst)
    }
    if let Some((e, t)) = cur() {
        e.point(t, Pending {
            kind:    Kind::Wait,
            addr:    8,
            mode:    Mode::Read,
            enabled: Some((en, flag as *const StdBool as *const ())),
        });
    }
    else {
        let start = Instant::now();
        while !flag.load(O::SeqCst) {
            if start.elapsed() > Duration::from_secs(10) {
                panic!("mcsched: would wait forever");
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}

/// Not a scheduling point: makes the outcome of the last action a part of the state.
pub fn note_result(v: u64) {
    if let Some((e, t)) = cur() {
        let mut g = e.m.lock().unwrap();
        let h = g.th[t].hash;
        g.th[t].hash = mix(&[77, h, v]);
    }
}

/// Begin of an API operation on the object `tag`. Returns the time stamp of the invocation.
pub fn op_begin(tag: u32) -> u64 {
    if let Some((e, t)) = cur() {
        e.point(t, Pending { kind: Kind::OpStart, addr: 0, mode: Mode::Read, enabled: None });
        let mut g = e.m.lock().unwrap();
        g.th[t].tags.push(tag);
        g.clock += 1;
        g.clock
    }
    else {
        0
    }
}

/// End of an API operation. Returns the time stamp of the response.
pub fn op_end() -> u64 {
    if let Some((e, t)) = cur() {
        let mut g = e.m.lock().unwrap();
        g.th[t].tags.pop();
        g.th[t].fresh = false;
        g.clock += 1;
        g.clock
    }
    else {
        0
    }
}

/// Declares nested operation on another object (no scheduling point)
pub fn push_tag(tag: u32) {
    if let Some((e, t)) = cur() {
        e.m.lock().unwrap().th[t].tags.push(tag);
    }
}
pub fn pop_tag() {
    if let Some((e, t)) = cur() {
        e.m.lock().unwrap().th[t].tags.pop();
    }
}

/// Gives objects within the memory region a name that is the same in all executions.
pub fn region(exec: &ExecHandle, base: usize, len: usize, id: u64) {
    exec.0.m.lock().unwrap().regions.push((base, len, id));
}

pub struct ExecHandle(Arc<Exec>);

impl ExecHandle {
    pub fn region_of<T>(&self, v: &T, id: u64) {
        region(self, v as *const T as usize, std::mem::size_of::<T>(), id)
    }
}

type Job = Box<dyn FnOnce() + Send>;

struct Slot {
    job: Mutex<Option<Job>>,
    cv:  Condvar,
    os:  AtomicUsize,
}

pub struct Run {
    pub bodies: Vec<Job>,
    /// Called after all threads have finished.
    pub finish: Box<dyn FnOnce() -> Result<(), String>>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions:  u64,
    pub states:      u64,
    pub transitions: u64,
    pub externals:   u64,
    pub truncated:   u64,
    pub incomplete:  u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.executions += o.executions;
        self.states += o.states;
        self.transitions += o.transitions;
        self.externals += o.externals;
        self.truncated += o.truncated;
        self.incomplete += o.incomplete;
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg:      String,
    pub schedule: Vec<u8>,
    pub trace:    String,
}

pub struct Explorer {
    exec:  Arc<Exec>,
    slots: Vec<Arc<Slot>>,
    n:     usize,
}

fn gettid() -> usize {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str()).and_then(|s| s.parse().ok()))
        .unwrap_or(0)
}

fn sleeping(os: usize) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{os}/stat")) {
        Ok(s) => s
            .rsplit(')')
            .next()
            .map(|r| r.trim_start().starts_with('S'))
            .unwrap_or(false),
        Err(_) => false,
    }
}

impl Explorer {
    pub fn new(n: usize) -> Self {
        let exec = Exec::new(n);
        let mut slots = vec![];
        for t in 0..n {
            let slot = Arc::new(Slot { job: Mutex::new(None), cv: Condvar::new(), os: AtomicUsize::new(0) });
            let s = slot.clone();
            let e = exec.clone();
            std::thread::Builder::new()
                .name(format!("model-{t}"))
                .spawn(move || {
                    s.os.store(gettid(), O::SeqCst);
                    loop {
                        let mut g = s.job.lock().unwrap();
                        let job = loop {
                            if e.abandon.load(O::SeqCst) {
                                return;
                            }
                            if let Some(j) = g.take() {
                                break j;
                            }
                            g = s.cv.wait(g).unwrap();
                        };
                        drop(g);
                        CUR.with(|c| *c.borrow_mut() = Some((e.clone(), t)));
                        {
                            // wait for the first grant
                            let mut g = e.m.lock().unwrap();
                            while !(g.th[t].st == St::Running && g.cur == t) {
                                g = e.cv[t].wait(g).unwrap();
                            }
                        }
                        let r = catch_unwind(AssertUnwindSafe(job));
                        if let Err(p) = r {
                            e.m.lock().unwrap().worker_panic.get_or_insert(panic_msg(&p));
                        }
                        CUR.with(|c| *c.borrow_mut() = None);
                        e.finish(t);
                    }
                })
                .unwrap();
            slots.push(slot);
        }
        Explorer { exec, slots, n }
    }

    fn reset_workers(&mut self) {
        let fresh = Explorer::new(self.n);
        self.exec.abandon.store(true, O::SeqCst);
        for s in &self.slots {
            s.cv.notify_all();
        }
        let old = std::mem::replace(self, fresh);
        std::mem::forget(old);
    }

    /// Runs one execution. Returns (deadlock, worker panic)
    fn run_once(&mut self, run: Run) -> (bool, Result<(), String>) {
        let n = run.bodies.len();
        assert!(n <= self.n);
        let exec = self.exec.clone();
        {
            let mut g = exec.m.lock().unwrap();
            g.th = (0..n)
                .map(|_| Th {
                    st:        St::Pending,
                    pend:      Pending { kind: Kind::OpStart, addr: 0, mode: Mode::Read, enabled: None },
                    hash:      0,
                    idx:       0,
                    tags:      vec![],
                    fresh:     false,
                    idle_spin: 0,
                    starts:    0,
                })
                .collect();
            g.depth = 0;
            g.preempt = 0;
            g.objs.clear();
            g.addr_ids.clear();
            g.pruned = false;
            g.over = false;
            g.deadlock = false;
            g.steps = 0;
            g.trace.clear();
            g.clock = 0;
            g.worker_panic = None;
        }
        for (t, b) in run.bodies.into_iter().enumerate() {
            *self.slots[t].job.lock().unwrap() = Some(b);
            self.slots[t].cv.notify_one();
        }
        let mut g = exec.m.lock().unwrap();
        // the first choice
        let next = g.pick(0, exec.bound.load(O::Relaxed) as u32).unwrap();
        g.grant(next);
        exec.cv[next].notify_one();
        let mut last = (exec.progress.load(O::Relaxed), Instant::now());
        let mut sleepy = 0;
        while !g.over {
            let (g2, to) = exec.main.wait_timeout(g, Duration::from_millis(4)).unwrap();
            g = g2;
            if g.over {
                break;
            }
            if to.timed_out() {
                let p = exec.progress.load(O::Relaxed);
                if p != last.0 {
                    last = (p, Instant::now());
                    sleepy = 0;
                    continue;
                }
                let running: Vec<usize> = (0..n).filter(|t| g.th[*t].st == St::Running).collect();
                if let Some(&r) = running.first() {
                    if sleeping(self.slots[r].os.load(O::SeqCst)) {
                        sleepy += 1;
                    }
                    else {
                        sleepy = 0;
                    }
                    // The thread could also be in between of receiving the grant and waking up; several
                    // consecutive observations exclude that.
                    if sleepy >= 5 || last.1.elapsed() > Duration::from_secs(3) {
                        sleepy = 0;
                        last.1 = Instant::now();
                        g.th[r].st = St::External;
                        g.externals += 1;
                        exec.switch(&mut g, r);
                    }
                }
                else if last.1.elapsed() > Duration::from_secs(3) {
                    // only external threads left and they do not come back
                    g.deadlock = true;
                    g.over = true;
                }
            }
        }
        let dl = g.deadlock;
        let wp = g.worker_panic.take();
        drop(g);
        if dl {
            return (true, Ok(()));
        }
        if let Some(m) = wp {
            return (false, Err(format!("harness thread panicked: {m}")));
        }
        (false, (run.finish)())
    }

    fn describe(&self) -> (Vec<u8>, String) {
        let g = self.exec.m.lock().unwrap();
        let sched = match &g.forced {
            Some(f) => f.clone(),
            None => g.path.iter().take(g.depth).map(|c| c.chosen).collect(),
        };
        let mut ids: HashMap<u64, usize> = HashMap::new();
        let mut s = String::new();
        for (t, k, id, tag) in &g.trace {
            let n = ids.len();
            let id = *ids.entry(*id).or_insert(n);
            s.push_str(&format!("  T{t}: {k:?} on object #{id} (field tag {tag})\n"));
        }
        for (t, th) in g.th.iter().enumerate() {
            if th.st == St::Pending {
                s.push_str(&format!("  T{t}: waits at {:?}\n", th.pend.kind));
            }
            else if th.st == St::External {
                s.push_str(&format!("  T{t}: blocked outside of the modelled primitives\n"));
            }
        }
        (sched, s)
    }

    /// Explores all schedules of the program within the bound. `mk` sets up a new execution.
    pub fn explore(
        &mut self,
        preemptions: usize,
        max_exec: u64,
        deadline: Instant,
        mut mk: impl FnMut(&ExecHandle) -> Run,
    ) -> (Stats, Option<Violation>) {
        {
            let mut g = self.exec.m.lock().unwrap();
            g.path.clear();
            g.visited.clear();
            g.forced = None;
            g.states = 0;
            g.transitions = 0;
            g.externals = 0;
            g.truncated = 0;
        }
        self.exec.eager.store(false, O::SeqCst);
        self.exec.bound.store(preemptions, O::Relaxed);
        let mut st = Stats::default();
        let mut viol = None;
        loop {
            self.exec.m.lock().unwrap().regions.clear();
            let was_eager = self.exec.eager.load(O::SeqCst);
            let run = mk(&ExecHandle(self.exec.clone()));
            let (dl, r) = self.run_once(run);
            st.executions += 1;
            if was_eager != self.exec.eager.load(O::SeqCst) && !dl && r.is_ok() {
                // scheduling points have changed, start over
                let mut g = self.exec.m.lock().unwrap();
                g.path.clear();
                g.visited.clear();
                continue;
            }
            if dl || r.is_err() {
                let (schedule, trace) = self.describe();
                let msg = if dl { "deadlock: no thread can continue".to_string() } else { r.unwrap_err() };
                viol = Some(Violation { msg, schedule, trace });
                break;
            }
            // backtrack
            let mut g = self.exec.m.lock().unwrap();
            let depth = g.depth;
            g.path.truncate(depth);
            let mut done = true;
            while let Some(mut c) = g.path.pop() {
                if !c.rest.is_empty() {
                    c.chosen = c.rest.remove(0);
                    g.path.push(c);
                    done = false;
                    break;
                }
            }
            if done {
                break;
            }
            if st.executions >= max_exec || Instant::now() >= deadline {
                st.incomplete += 1;
                break;
            }
        }
        {
            let g = self.exec.m.lock().unwrap();
            st.states = g.states;
            st.transitions = g.transitions;
            st.externals = g.externals;
            st.truncated = g.truncated;
        }
        if viol.is_some() {
            self.reset_workers();
        }
        (st, viol)
    }

    /// Runs the given schedule
    pub fn replay(&mut self, schedule: &[u8], mut mk: impl FnMut(&ExecHandle) -> Run) -> Option<Violation> {
        {
            let mut g = self.exec.m.lock().unwrap();
            g.path.clear();
            g.visited.clear();
            g.forced = Some(schedule.to_vec());
            g.regions.clear();
        }
        self.exec.eager.store(false, O::SeqCst);
        self.exec.bound.store(1000, O::Relaxed);
        let was_eager = self.exec.eager.load(O::SeqCst);
        let run = mk(&ExecHandle(self.exec.clone()));
        let (mut dl, mut r) = self.run_once(run);
        if was_eager != self.exec.eager.load(O::SeqCst) && !dl && r.is_ok() {
            self.exec.m.lock().unwrap().regions.clear();
            let run = mk(&ExecHandle(self.exec.clone()));
            (dl, r) = self.run_once(run);
        }
        let (schedule, trace) = self.describe();
        self.exec.m.lock().unwrap().forced = None;
        if dl || r.is_err() {
            let msg = if dl { "deadlock: no thread can continue".to_string() } else { r.unwrap_err() };
            self.reset_workers();
            return Some(Violation { msg, schedule, trace });
        }
        None
    }
}

impl Drop for Explorer {
    fn drop(&mut self) {
        self.exec.abandon.store(true, O::SeqCst);
        for s in &self.slots {
            let _g = s.job.lock();
            s.cv.notify_all();
        }
    }
}

pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    }
    else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    }
    else {
        "panic".into()
    }
}

/// Polls the future to completion; a pending future waits for its waker at a scheduling point.
/// With `cancel_at == Some(k)` the future is dropped at its k-th (1-based) suspension and `None` is returned.
pub fn block_on<F: std::future::Future>(fut: F, cancel_at: Option<usize>) -> Option<F::Output> {
    use std::task::{Context, Poll, Wake, Waker};
    struct W(StdBool);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.store(true, O::SeqCst)
        }
        fn wake_by_ref(self: &Arc<Self>) {
            self.0.store(true, O::SeqCst)
        }
    }
    let mut fut = Box::pin(fut);
    let w = Arc::new(W(StdBool::new(false)));
    let waker: Waker = w.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut pendings = 0;
    loop {
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {
                pendings += 1;
                note_result(0xbeef);
                if Some(pendings) == cancel_at {
                    // others may act (and even wake this task) before it gets dropped
                    act("cancel", 16, Mode::Write);
                    drop(fut);
                    return None;
                }
                wait_flag(&w.0);
                w.0.store(false, O::SeqCst);
            }
        }
    }
}
