//! Exhaustive exploration of operation sequences on generated structs against reference models.
//!
//! A run is determined by its choices (construction, operations, outcomes of builders); depth-first search replays the
//! program from scratch for each combination of choices.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::{Duration, Instant};

pub mod buildm;
pub mod main;
pub mod model;
pub mod rcm;
pub mod serdem;

// ---------------------------------------------------------------------------------------------------------- context

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Value(u64),
    Err(u64),
    Panic(u64),
}

/// A run of a lazy builder
#[derive(Clone, Debug, PartialEq)]
pub struct Built {
    pub field: usize,
    pub deps:  Vec<u64>,
    pub out:   Outcome,
}

#[derive(Default)]
pub struct Ctx {
    pub choices:   Vec<(u16, u16)>,
    pub pos:       usize,
    pub live:      Vec<(u64, i32)>,
    pub log:       Vec<Built>,
    pub runs:      u64,
    pub fails:     u32,
    pub max_fails: u32,
    pub outcomes:  u32,
    pub notes:     Vec<String>,
    pub broken:    Option<String>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

pub fn choose(n: usize) -> usize {
    assert!(n > 0);
    if n == 1 {
        return 0;
    }
    ctx(|c| {
        let r = if c.pos < c.choices.len() {
            let (i, m) = c.choices[c.pos];
            assert_eq!(m as usize, n, "replay diverged");
            i as usize
        }
        else {
            c.choices.push((0, n as u16));
            0
        };
        c.pos += 1;
        r
    })
}

/// Next combination of choices, if any
pub fn advance(choices: &mut Vec<(u16, u16)>) -> bool {
    while let Some((i, n)) = choices.pop() {
        if i + 1 < n {
            choices.push((i + 1, n));
            return true;
        }
    }
    false
}

fn live_add(id: u64, d: i32) {
    let _ = CTX.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            match c.live.iter().position(|(i, _)| *i == id) {
                Some(p) => {
                    c.live[p].1 += d;
                    if c.live[p].1 == 0 {
                        c.live.swap_remove(p);
                    }
                }
                None => c.live.push((id, d)),
            }
        }
    });
}

pub fn note(s: String) {
    ctx(|c| c.notes.push(s))
}

// ----------------------------------------------------------------------------------------------------------- values

const MIX: u64 = 0x9E37_79B9_7F4A_7C15;

/// A value which counts its instances
pub struct V {
    id:  u64,
    chk: u64,
}

impl V {
    pub fn make(id: u64) -> V {
        V::new(id)
    }

    pub fn new(id: u64) -> V {
        live_add(id, 1);
        V {
            id,
            chk: id.wrapping_mul(MIX),
        }
    }
}

impl Drop for V {
    fn drop(&mut self) {
        if self.chk != self.id.wrapping_mul(MIX) {
            ctx(|c| c.broken = Some("a value was dropped twice or never initialized".into()));
        }
        self.chk = 1;
        live_add(self.id, -1);
    }
}

impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.id())
    }
}

impl Default for V {
    fn default() -> V {
        V::new(ZERO)
    }
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.id() == o.id()
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V{}", self.id())
    }
}

impl serde::Serialize for V {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.id())
    }
}

impl<'de> serde::Deserialize<'de> for V {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<V, D::Error> {
        Ok(V::new(u64::deserialize(d)?))
    }
}

#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
#[serde(from = "u64", into = "u64")]
pub struct C {
    id:  u64,
    chk: u64,
}

impl C {
    pub fn make(id: u64) -> C {
        C::from(id)
    }
}

impl From<u64> for C {
    fn from(id: u64) -> C {
        C {
            id,
            chk: id.wrapping_mul(MIX),
        }
    }
}

impl From<C> for u64 {
    fn from(c: C) -> u64 {
        c.id
    }
}

impl PartialEq for C {
    fn eq(&self, o: &C) -> bool {
        self.id() == o.id()
    }
}

impl Default for C {
    fn default() -> C {
        C::from(ZERO)
    }
}

/// Id of Default::default()
pub const ZERO: u64 = 0;

pub trait Id {
    const TRACKED: bool;
    fn id(&self) -> u64;
    fn mk(id: u64) -> Self;
}

impl Id for V {
    const TRACKED: bool = true;

    fn id(&self) -> u64 {
        if self.chk != self.id.wrapping_mul(MIX) {
            ctx(|c| c.broken = Some("a value was read after it was dropped, or never initialized".into()));
        }
        self.id
    }

    fn mk(id: u64) -> V {
        V::new(id)
    }
}

impl Id for C {
    const TRACKED: bool = false;

    fn id(&self) -> u64 {
        if self.chk != self.id.wrapping_mul(MIX) {
            ctx(|c| c.broken = Some("a damaged value was read".into()));
        }
        self.id
    }

    fn mk(id: u64) -> C {
        C::from(id)
    }
}

impl Id for String {
    const TRACKED: bool = false;

    fn id(&self) -> u64 {
        if self.is_empty() {
            ZERO
        }
        else {
            self[1..].parse().unwrap_or(u64::MAX)
        }
    }

    fn mk(id: u64) -> String {
        if id == ZERO {
            String::new()
        }
        else {
            format!("s{id}")
        }
    }
}

impl Id for u64 {
    const TRACKED: bool = false;

    fn id(&self) -> u64 {
        *self
    }

    fn mk(id: u64) -> u64 {
        id
    }
}

impl Id for i32 {
    const TRACKED: bool = false;

    fn id(&self) -> u64 {
        *self as u64
    }

    fn mk(id: u64) -> i32 {
        id as i32
    }
}

pub fn mk<T: Id>(id: u64) -> T {
    T::mk(id)
}

/// Something that turns into a value
pub struct Pre(pub u64);

impl From<Pre> for V {
    fn from(p: Pre) -> V {
        V::new(p.0)
    }
}

impl From<Pre> for C {
    fn from(p: Pre) -> C {
        C::from(p.0)
    }
}

impl From<Pre> for String {
    fn from(p: Pre) -> String {
        String::mk(p.0)
    }
}

/// Error of fallible lazy builders
#[derive(Debug, Clone, PartialEq)]
pub struct E(pub u64);

pub struct BuilderPanic(pub u64);

// --------------------------------------------------------------------------------------------------------- builders

fn outcome(field: usize, deps: &[u64], fallible: bool) -> Outcome {
    let may_fail = ctx(|c| c.fails < c.max_fails);
    let o = if may_fail { choose(if fallible { 3 } else { 2 }) } else { 0 };
    ctx(|c| {
        c.runs += 1;
        let id = 1000 * (field as u64 + 1) + c.runs;
        let out = match (o, fallible) {
            (0, _) => Outcome::Value(id),
            (1, true) => Outcome::Err(id),
            _ => Outcome::Panic(id),
        };
        if o != 0 {
            c.fails += 1;
        }
        c.log.push(Built {
            field,
            deps: deps.to_vec(),
            out: out.clone(),
        });
        out
    })
}

pub fn built<T: Id>(field: usize, deps: &[u64]) -> T {
    match outcome(field, deps, false) {
        Outcome::Value(id) => T::mk(id),
        Outcome::Panic(id) => std::panic::panic_any(BuilderPanic(id)),
        _ => unreachable!(),
    }
}

pub fn try_built<T: Id>(field: usize, deps: &[u64]) -> Result<T, E> {
    match outcome(field, deps, true) {
        Outcome::Value(id) => Ok(T::mk(id)),
        Outcome::Err(id) => Err(E(id)),
        Outcome::Panic(id) => std::panic::panic_any(BuilderPanic(id)),
    }
}

/// A future which is pending once
pub struct Pause(bool);

pub fn pause() -> Pause {
    Pause(false)
}

impl Future for Pause {
    type Output = ();

    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        }
        else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

fn noop_waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |_| (), |_| (), |_| ());
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..1000 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("the operation never completes");
}

// ------------------------------------------------------------------------------------------------------ exploration

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// A wrong result
    Result,
    /// A displaced value was not handed over
    Displaced,
    /// Lazy builder ran when it shouldn't, or didn't
    Builder,
    /// Wrong set of live values
    Live,
    /// Unexpected panic
    Crash,
    /// Other
    Other,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: Class,
    pub msg:   String,
    pub trace: String,
}

/// What a property asks for
#[derive(Clone)]
pub struct Opts {
    pub property:  String,
    pub classes:   Vec<Class>,
    /// Which operations are in use
    pub op:        fn(model::K) -> bool,
    pub max_fails: u32,
    /// Only look at runs with a failure
    pub need_fail: bool,
    /// Only look at runs with a clone or comparison
    pub need_fork: bool,
    /// Only subjects with one of these tags
    pub tags:      Vec<String>,
    /// Leaves per subject
    pub budget:    u64,
    pub max_depth: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub runs:      u64,
    pub steps:     u64,
    pub states:    u64,
    pub abandoned: u64,
    pub depth:     usize,
    pub sample:    String,
}

pub struct Found {
    pub viol:    Viol,
    pub choices: Vec<(u16, u16)>,
}

/// What one run reports
#[derive(Default)]
pub struct RunOut {
    pub viol:      Option<Viol>,
    pub steps:     u64,
    pub abandoned: bool,
    pub forked:    bool,
    pub trace:     String,
}

pub struct Subject {
    pub name: String,
    pub src:  &'static str,
    pub tags: Vec<&'static str>,
    /// One run: (options, depth, record states, want a trace)
    pub run:  Box<dyn Fn(&Opts, usize, &mut dyn FnMut(u64), bool) -> RunOut + Send + Sync>,
    /// Number of choices per step, of first choices
    pub fan:  Box<dyn Fn(&Opts) -> (u64, u64) + Send + Sync>,
    /// Fixed depth if not by alphabet
    pub depth: Option<usize>,
}

#[derive(Default)]
pub struct Progress {
    pub ticks:   AtomicU64,
    pub current: Mutex<(String, Vec<(u16, u16)>)>,
}

thread_local! {
    static PROGRESS: RefCell<Option<Arc<Progress>>> = const { RefCell::new(None) };
}

pub fn tick() {
    PROGRESS.with(|p| {
        if let Some(p) = &*p.borrow() {
            p.ticks.fetch_add(1, Ordering::Relaxed);
            ctx(|c| {
                let mut cur = p.current.lock().unwrap();
                cur.1.clear();
                cur.1.extend_from_slice(&c.choices[..c.pos]);
            });
        }
    })
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn reset(choices: &[(u16, u16)], max_fails: u32) {
    ctx(|c| {
        c.choices.clear();
        c.choices.extend_from_slice(choices);
        c.pos = 0;
        c.live.clear();
        c.log.clear();
        c.runs = 0;
        c.fails = 0;
        c.max_fails = max_fails;
        c.notes.clear();
        c.broken = None;
    })
}

pub fn depth_for(s: &Subject, o: &Opts) -> usize {
    if let Some(d) = s.depth {
        return d;
    }
    let (first, per) = (s.fan)(o);
    let per = if o.max_fails > 0 { per + 1 } else { per };
    let mut n = first.max(1);
    let mut d = 0;
    while d < o.max_depth && n.saturating_mul(per.max(2)) <= o.budget {
        n *= per.max(2);
        d += 1;
    }
    d.max(2)
}

pub fn explore(s: &Subject, o: &Opts) -> (Stats, Option<Found>) {
    let depth = depth_for(s, o);
    let mut st = Stats {
        depth,
        ..Default::default()
    };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut choices: Vec<(u16, u16)> = vec![];
    loop {
        reset(&choices, o.max_fails);
        let want = st.runs % 997 == 500 && st.sample.is_empty();
        let out = (s.run)(
            o,
            depth,
            &mut |h| {
                seen.insert(h);
            },
            want,
        );
        st.runs += 1;
        st.steps += out.steps;
        st.abandoned += out.abandoned as u64;
        let pos;
        (choices, pos) = ctx(|c| (std::mem::take(&mut c.choices), c.pos));
        // a run that stops early leaves out what would have followed
        choices.truncate(pos);
        if let Some(v) = out.viol {
            st.states = seen.len() as u64;
            return (st, Some(Found { viol: v, choices }));
        }
        if want {
            st.sample = format!("{}: {}", s.name, out.trace.replace('\n', "; "));
        }
        if !advance(&mut choices) {
            break;
        }
    }
    st.states = seen.len() as u64;
    (st, None)
}

pub fn replay(s: &Subject, o: &Opts, choices: &[(u16, u16)], depth: usize) -> RunOut {
    reset(choices, o.max_fails);
    (s.run)(o, depth, &mut |_| (), true)
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Result<u64, String>> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| match p.downcast::<BuilderPanic>() {
        Ok(b) => Ok(b.0),
        Err(p) => Err(p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())),
    })
}

pub fn run_all(
    subjects: &[Subject],
    o: &Opts,
    deadline: Duration,
    on_hang: impl Fn(&str, &[(u16, u16)]) + Send + Sync + 'static,
) -> Vec<(usize, Stats, Option<Found>)> {
    let idx: Vec<usize> = {
        let mut v: Vec<usize> = (0..subjects.len())
            .filter(|i| subjects[*i].tags.iter().any(|t| o.tags.iter().any(|w| w == t)))
            .collect();
        // the large ones first
        v.sort_by_key(|i| {
            let (a, b) = (subjects[*i].fan)(o);
            let d = depth_for(&subjects[*i], o);
            std::cmp::Reverse(a.saturating_mul(b.saturating_pow(d as u32)))
        });
        v
    };
    let next = AtomicUsize::new(0);
    let found = AtomicUsize::new(0);
    let res = Mutex::new(vec![]);
    let nthreads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let progress: Vec<Arc<Progress>> = (0..nthreads).map(|_| Arc::new(Progress::default())).collect();
    let done = Arc::new(AtomicUsize::new(0));
    let hang = Arc::new(on_hang);
    let start = Instant::now();
    std::thread::scope(|sc| {
        for p in &progress {
            let (next, found, res, idx, done) = (&next, &found, &res, &idx, done.clone());
            sc.spawn(move || {
                PROGRESS.with(|q| *q.borrow_mut() = Some(p.clone()));
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= idx.len() || found.load(Ordering::SeqCst) > 0 {
                        break;
                    }
                    let s = &subjects[idx[i]];
                    p.current.lock().unwrap().0 = s.name.clone();
                    let (st, f) = explore(s, o);
                    if f.is_some() {
                        found.fetch_add(1, Ordering::SeqCst);
                    }
                    res.lock().unwrap().push((idx[i], st, f));
                }
                p.current.lock().unwrap().0.clear();
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        let (progress, done, hang) = (progress.clone(), done.clone(), hang.clone());
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant)> = progress.iter().map(|_| (0, Instant::now())).collect();
            while done.load(Ordering::SeqCst) < progress.len() {
                std::thread::sleep(Duration::from_millis(20));
                for (p, l) in progress.iter().zip(last.iter_mut()) {
                    let t = p.ticks.load(Ordering::Relaxed);
                    let cur = p.current.lock().unwrap();
                    if t != l.0 || cur.0.is_empty() {
                        *l = (t, Instant::now());
                    }
                    else if l.1.elapsed() > Duration::from_secs(30) {
                        hang(&cur.0, &cur.1);
                    }
                }
                if start.elapsed() > deadline {
                    eprintln!("out of time");
                    std::process::exit(3);
                }
            }
        });
    });
    res.into_inner().unwrap()
}

pub fn show_choices(c: &[(u16, u16)]) -> String {
    let mut s = String::new();
    for (i, n) in c {
        let _ = write!(s, "{i}/{n} ");
    }
    s
}

/// What type parameters are asked for
pub trait Par: Id + Clone + Default + PartialEq + std::fmt::Debug + Send + Sync + 'static {}
impl<T: Id + Clone + Default + PartialEq + std::fmt::Debug + Send + Sync + 'static> Par for T {}
