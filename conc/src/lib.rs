//! Common parts of concurrency checks: instrumented values, lazy builders that are controlled by the test, histories
//! of operations, sequential specification and linearizability check, enumeration of programs, reporting.
use mcsched::{ExecHandle, Explorer, Run, Stats, Violation};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod driver;
pub mod progs;
pub mod specs;

pub const LAZY_OPS: &[Op] = &[
    Op::Get,
    Op::Hold,
    Op::Rd,
    Op::Mut(1),
    Op::Set(1),
    Op::Clear,
    Op::Has,
    Op::WSet(1),
    Op::WClear,
    Op::WMany(1),
];
pub const LOCK_OPS: &[Op] = &[Op::Get, Op::Hold, Op::Rd, Op::Mut(1), Op::Set(1), Op::WSet(1), Op::WMany(1)];

/// Examines a value under a guard twice
pub fn hold(a: impl Fn() -> u64) -> Ret {
    let v1 = a();
    mcsched::yield_point(101);
    let v2 = a();
    if v1 == v2 {
        Ret::Val(v1)
    }
    else {
        Ret::Bad(format!("value changed under a read guard: {v1} -> {v2}"))
    }
}
pub fn hold_opt(a: impl Fn() -> Option<u64>) -> Ret {
    let v1 = a();
    mcsched::yield_point(101);
    let v2 = a();
    if v1 == v2 {
        Ret::Opt(v1)
    }
    else {
        Ret::Bad(format!("value changed under a read guard: {v1:?} -> {v2:?}"))
    }
}

/// Counts live values
#[derive(Debug)]
pub struct Live(Arc<AtomicI64>);
impl Live {
    pub fn new(c: &Arc<AtomicI64>) -> Self {
        c.fetch_add(1, SeqCst);
        Live(c.clone())
    }
}
impl Clone for Live {
    fn clone(&self) -> Self {
        Live::new(&self.0)
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

/// A value of two halves, to notice torn reads
#[derive(Clone, Debug)]
pub struct Val {
    pub a: u64,
    pub b: u64,
    _live: Live,
}
impl PartialEq for Val {
    fn eq(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b
    }
}
impl Eq for Val {}

pub const TORN: u64 = 999_999_999;

pub trait Value: Send + Sync + 'static {
    fn mk(ctx: &Ctx, id: u64) -> Self;
    fn id(&self) -> u64;
    /// Store the new id in two steps
    fn split(&mut self, id: u64);
}
impl Value for Val {
    fn mk(ctx: &Ctx, id: u64) -> Self {
        Val { a: id, b: id, _live: Live::new(&ctx.live) }
    }
    fn id(&self) -> u64 {
        if self.a != self.b {
            TORN
        }
        else {
            self.a
        }
    }
    fn split(&mut self, id: u64) {
        self.a = id;
        mcsched::yield_point(100);
        self.b = id;
    }
}
impl Value for u64 {
    fn mk(_: &Ctx, id: u64) -> Self {
        id
    }
    fn id(&self) -> u64 {
        *self
    }
    fn split(&mut self, id: u64) {
        *self = id
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Outcome {
    Ok,
    Err,
    Panic,
}

/// One run of a lazy builder
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Build {
    pub tag: u32,
    pub id:  u64,
    pub out: Option<Outcome>,
}

pub struct Ctx {
    pub live:     Arc<AtomicI64>,
    /// Outcomes of builder runs; those beyond the script succeed
    pub script:   Vec<Outcome>,
    pub builds:   AtomicUsize,
    pub building: Mutex<BTreeMap<u32, usize>>,
    pub cur:      Mutex<BTreeMap<usize, Vec<Build>>>,
    pub bad:      Mutex<Option<String>>,
    /// number of suspensions of an async builder
    pub suspend:  usize,
    pub here:     AtomicUsize,
    pub met:      std::sync::atomic::AtomicBool,
}

/// Goes into a plain field of the struct under test
#[derive(Clone)]
pub struct CtxRef(pub Arc<Ctx>, pub u32);
impl Default for CtxRef {
    fn default() -> Self {
        CtxRef(Ctx::new(vec![], 0), 0)
    }
}
impl PartialEq for CtxRef {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for CtxRef {}
impl std::fmt::Debug for CtxRef {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ctx")
    }
}

impl Ctx {
    pub fn new(script: Vec<Outcome>, suspend: usize) -> Arc<Self> {
        Arc::new(Ctx {
            live: Arc::new(AtomicI64::new(0)),
            script,
            builds: AtomicUsize::new(0),
            building: Mutex::new(BTreeMap::new()),
            cur: Mutex::new(BTreeMap::new()),
            bad: Mutex::new(None),
            suspend,
            here: AtomicUsize::new(0),
            met: std::sync::atomic::AtomicBool::new(false),
        })
    }

    fn start(&self, tag: u32) -> (usize, u64, Outcome) {
        let n = self.builds.fetch_add(1, SeqCst);
        let out = self.script.get(n).copied().unwrap_or(Outcome::Ok);
        let id = 100 + n as u64;
        let mut b = self.building.lock().unwrap();
        let c = b.entry(tag).or_insert(0);
        *c += 1;
        if *c > 1 {
            self.bad
                .lock()
                .unwrap()
                .get_or_insert("two runs of the lazy builder are active at the same time".into());
        }
        let mut cur = self.cur.lock().unwrap();
        let l = cur.entry(mcsched::tid()).or_default();
        l.push(Build { tag, id, out: None });
        (l.len() - 1, id, out)
    }
    fn stop(&self, tag: u32, idx: usize, out: Option<Outcome>) {
        *self.building.lock().unwrap().get_mut(&tag).unwrap() -= 1;
        if let Some(l) = self.cur.lock().unwrap().get_mut(&mcsched::tid()) {
            if let Some(b) = l.get_mut(idx) {
                b.out = out;
            }
        }
    }

    /// Body of the lazy builder
    pub fn build<T: Value>(&self, tag: u32) -> Result<T, String> {
        self.build_with(tag, || ())
    }
    /// Body of the lazy builder that uses other fields
    pub fn build_with<T: Value>(&self, tag: u32, inner: impl FnOnce()) -> Result<T, String> {
        let (idx, id, out) = self.start(tag);
        inner();
        mcsched::yield_point(200 + tag as usize);
        self.stop(tag, idx, Some(out));
        match out {
            Outcome::Ok => Ok(T::mk(self, id)),
            Outcome::Err => Err(format!("E{id}")),
            Outcome::Panic => panic!("P{id}"),
        }
    }

    /// Body of the async lazy builder
    pub async fn abuild<T: Value>(&self, tag: u32) -> Result<T, String> {
        self.abuild_with(tag, async {}).await
    }
    pub async fn abuild_with<T: Value>(&self, tag: u32, inner: impl std::future::Future<Output = ()>) -> Result<T, String> {
        struct Guard<'a>(&'a Ctx, u32, usize, Option<Outcome>);
        impl Drop for Guard<'_> {
            fn drop(&mut self) {
                self.0.stop(self.1, self.2, self.3)
            }
        }
        let (idx, id, out) = self.start(tag);
        let mut g = Guard(self, tag, idx, None);
        inner.await;
        mcsched::yield_point(200 + tag as usize);
        for _ in 0..self.suspend {
            Suspend(false).await;
        }
        g.3 = Some(out);
        drop(g);
        match out {
            Outcome::Ok => Ok(T::mk(self, id)),
            Outcome::Err => Err(format!("E{id}")),
            Outcome::Panic => panic!("P{id}"),
        }
    }

    /// Wait for another thread to get here, too
    pub fn meet(&self) {
        if self.here.fetch_add(1, SeqCst) + 1 >= 2 {
            self.met.store(true, SeqCst);
        }
        mcsched::wait_flag(&self.met);
    }

    pub fn take_builds(&self) -> Vec<Build> {
        self.cur
            .lock()
            .unwrap()
            .remove(&mcsched::tid())
            .unwrap_or_default()
    }
}

/// Suspends once, ready to continue immediately
pub struct Suspend(pub bool);
impl std::future::Future for Suspend {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            std::task::Poll::Ready(())
        }
        else {
            self.0 = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    /// implied by others: successful run of the lazy builder
    Init,
    /// accessor
    Get,
    /// accessor; the guard is kept for a while and is examined twice
    Hold,
    /// reader helper
    Rd,
    /// accessor_mut: replace the value by its parts
    Mut(u64),
    Set(u64),
    Clear,
    Has,
    /// writer guard: store
    WSet(u64),
    /// writer guard: clear
    WClear,
    /// writer guard: store, store, clear, store
    WMany(u64),
    /// clone the object; report predicate and value of the clone
    Clone,
    /// compare the object with itself
    EqSelf,
    /// compare the object with another one
    EqOther(bool),
    /// debug output
    Debug,
    /// take a read guard and keep it until another thread has got one
    Meet,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ret {
    Val(u64),
    Opt(Option<u64>),
    Bool(bool),
    Err(String),
    Panic(String),
    List(Vec<Option<u64>>),
    /// has, value
    Copy(bool, Option<u64>),
    Unit,
    Bad(String),
    Cancelled,
    Na,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub t:      usize,
    pub field:  usize,
    pub op:     Op,
    pub ret:    Ret,
    pub inv:    u64,
    pub resp:   u64,
    pub builds: Vec<Build>,
}

impl Ev {
    pub fn show(&self) -> String {
        format!(
            "[{}..{}] T{} field{} {:?} -> {:?}{}",
            self.inv,
            self.resp,
            self.t,
            self.field,
            self.op,
            self.ret,
            if self.builds.is_empty() { String::new() } else { format!(" (builder runs: {:?})", self.builds) }
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FieldKind {
    Lazy,
    Optional,
    /// always has a value
    Locked,
}

pub type State = Option<u64>;

/// Sequential specification: returns the next state if the event is allowed in the given one.
pub fn apply(kind: FieldKind, st: State, e: &Ev) -> Option<State> {
    use Op::*;
    // The value an accessor must deliver
    let read = |ok: &dyn Fn(u64) -> Option<State>, bad: &dyn Fn(&Ret) -> bool| -> Option<State> {
        match (kind, st) {
            (_, Some(v)) => {
                if e.builds.is_empty() {
                    ok(v)
                }
                else {
                    None
                }
            }
            // exactly one builder run which fails, made by this very operation
            (FieldKind::Lazy, None) => (e.builds.len() == 1 && bad(&e.ret)).then_some(None),
            _ => None,
        }
    };
    let failed = |b: &Ret| -> bool {
        match (e.builds.first(), b) {
            (Some(b), Ret::Err(m)) => b.out == Some(Outcome::Err) && *m == format!("E{}", b.id),
            (Some(b), Ret::Panic(m)) => b.out == Some(Outcome::Panic) && *m == format!("P{}", b.id),
            _ => false,
        }
    };
    let no_build = |r: Option<State>| if e.builds.is_empty() { r } else { None };
    match e.op {
        Init => (st.is_none()).then(|| Some(e.builds[0].id)),
        Get | Hold | Rd => match kind {
            FieldKind::Optional => no_build((e.ret == Ret::Opt(st)).then_some(st)),
            _ => read(&|v| (e.ret == Ret::Val(v)).then_some(Some(v)), &failed),
        },
        Mut(n) => match kind {
            FieldKind::Optional => no_build((e.ret == Ret::Opt(st)).then_some(Some(n))),
            _ => read(&|v| (e.ret == Ret::Val(v)).then_some(Some(n)), &failed),
        },
        Set(n) | WSet(n) => no_build((e.ret == Ret::Opt(st)).then_some(Some(n))),
        Clear | WClear => no_build((e.ret == Ret::Opt(st)).then_some(None)),
        Has => no_build((e.ret == Ret::Bool(st.is_some())).then_some(st)),
        WMany(n) => {
            let want = if kind == FieldKind::Locked {
                Ret::List(vec![st, Some(n), Some(n + 1000)])
            }
            else {
                Ret::List(vec![st, Some(n), Some(n + 1000), None])
            };
            no_build((e.ret == want).then_some(Some(n + 2000)))
        }
        Clone => no_build((e.ret == Ret::Copy(st.is_some(), st)).then_some(st)),
        EqSelf => no_build((e.ret == Ret::Bool(true)).then_some(st)),
        EqOther(_) => Some(st),
        Debug => no_build((e.ret == Ret::Unit).then_some(st)),
        Meet => apply(kind, st, &Ev { op: Get, ..e.clone() }),
    }
}

/// Is there a legal sequential order of events that respects real time?
///
/// An operation that has run lazy builders successfully is several steps: initializations, then the operation as such.
/// Others may observe the new values in between.
pub fn linearizable(kinds: &[FieldKind], init: &[State], evs: &[Ev]) -> bool {
    let mut all: Vec<Ev> = vec![];
    let mut after: Vec<u32> = vec![];
    for e in evs {
        let mut e = e.clone();
        let mut prev = 0u32;
        let cancelled = e.ret == Ret::Cancelled;
        let mut rest = vec![];
        for b in std::mem::take(&mut e.builds) {
            let tag = b.tag as usize;
            if b.out == Some(Outcome::Ok) && kinds[tag] == FieldKind::Lazy && !(cancelled && tag == e.field) {
                let before = all
                    .iter()
                    .enumerate()
                    .filter(|(i, o)| prev & (1 << i) != 0 && o.field == tag)
                    .fold(0, |m, (i, _)| m | (1 << i));
                let ret = if cancelled { Ret::Cancelled } else { Ret::Unit };
                all.push(Ev { op: Op::Init, field: tag, ret, builds: vec![b], ..e.clone() });
                after.push(before);
                prev |= 1 << (all.len() - 1);
            }
            else {
                rest.push(b);
            }
        }
        e.builds = rest;
        all.push(e);
        after.push(prev);
    }
    lin(kinds, init, &all, &after)
}

fn lin(kinds: &[FieldKind], init: &[State], evs: &[Ev], after: &[u32]) -> bool {
    assert!(evs.len() <= 32);
    struct Cx<'a> {
        kinds: &'a [FieldKind],
        evs:   &'a [Ev],
        after: &'a [u32],
        seen:  HashSet<(u32, Vec<State>)>,
    }
    fn go(c: &mut Cx, st: &[State], done: u32) -> bool {
        let evs = c.evs;
        if done.count_ones() as usize == evs.len() {
            return true;
        }
        if !c.seen.insert((done, st.to_vec())) {
            return false;
        }
        for (i, e) in evs.iter().enumerate() {
            if done & (1 << i) != 0 || c.after[i] & !done != 0 {
                continue;
            }
            // all that responded before the invocation of `e` must be done
            if evs
                .iter()
                .enumerate()
                .any(|(j, o)| done & (1 << j) == 0 && j != i && o.resp < e.inv)
            {
                continue;
            }
            let f = e.field;
            let with = |n: State| {
                let mut s = st.to_vec();
                s[f] = n;
                s
            };
            let next = done | (1 << i);
            if e.ret == Ret::Cancelled {
                // no effect, or all of it
                if go(c, st, next) {
                    return true;
                }
                let full = match e.op {
                    Op::Set(n) | Op::WSet(n) => Some(Some(n)),
                    Op::Clear | Op::WClear => Some(None),
                    Op::Get | Op::Hold | Op::Rd | Op::Mut(_) | Op::Init => match e.builds.as_slice() {
                        [b] if b.out == Some(Outcome::Ok) && st[f].is_none() => Some(Some(b.id)),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(n) = full {
                    if go(c, &with(n), next) {
                        return true;
                    }
                }
                continue;
            }
            // The predicate takes no lock: it may observe intermediate states of a writer guard
            if e.op == Op::Has
                && evs
                    .iter()
                    .any(|o| matches!(o.op, Op::WMany(_)) && o.field == f && o.inv < e.resp && e.inv < o.resp)
            {
                if go(c, st, next) {
                    return true;
                }
                continue;
            }
            if let Op::EqOther(_) = e.op {
                if e.builds.is_empty() && e.ret == Ret::Bool(st[0] == st[1]) && go(c, st, next) {
                    return true;
                }
                continue;
            }
            if let Some(n) = apply(c.kinds[f], st[f], e) {
                if go(c, &with(n), next) {
                    return true;
                }
            }
        }
        false
    }
    go(&mut Cx { kinds, evs, after, seen: HashSet::new() }, init, 0)
}

/// What a struct under test has to offer
pub trait Subject: Send + Sync + 'static {
    /// Executes an operation on the field number `field`; `None` when cancelled.
    fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret>;
    fn region(&self, _h: &ExecHandle) {}
}

#[derive(Clone)]
pub struct Flavour {
    pub name:   &'static str,
    pub kinds:  Vec<FieldKind>,
    pub ops:    Vec<Op>,
    pub copies: bool,
    /// creates an object; `init[i]`: the value of i-th field
    pub make:   Arc<dyn Fn(&Arc<Ctx>, &[State]) -> Arc<dyn Subject> + Send + Sync>,
    pub fallible: bool,
    pub is_async: bool,
}

/// Threads' operations: (field, operation, cancel at suspension)
pub type Step = (usize, Op, Option<usize>);

#[derive(Clone, Debug)]
pub struct Program {
    pub threads: Vec<Vec<Step>>,
    pub init:    Vec<State>,
    pub script:  Vec<Outcome>,
    pub suspend: usize,
}

/// Runs an operation and records it
fn record(s: &Arc<dyn Subject>, ctx: &Arc<Ctx>, t: usize, st: Step) -> Ev {
    let (field, op, cancel) = st;
    let inv = mcsched::op_begin(field as u32);
    let r = catch_unwind(AssertUnwindSafe(|| s.run(field, op, ctx, cancel)));
    let ret = match r {
        Ok(Some(r)) => r,
        Ok(None) => Ret::Cancelled,
        Err(p) => Ret::Panic(mcsched::panic_msg(&p)),
    };
    let builds = ctx.take_builds();
    let resp = mcsched::op_end();
    Ev { t, field, op, ret, inv, resp, builds }
}

pub fn mk_run(fl: &Flavour, p: &Program, h: &ExecHandle, check: Check) -> Run {
    let ctx = Ctx::new(p.script.clone(), p.suspend);
    let subj = (fl.make)(&ctx, &p.init);
    subj.region(h);
    let log: Arc<Mutex<Vec<Ev>>> = Arc::new(Mutex::new(vec![]));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, steps) in p.threads.iter().enumerate() {
        let steps = steps.clone();
        let (s, c, l) = (subj.clone(), ctx.clone(), log.clone());
        bodies.push(Box::new(move || {
            for st in steps {
                let e = record(&s, &c, t, st);
                l.lock().unwrap().push(e);
            }
        }));
    }
    let kinds = fl.kinds.clone();
    let has_clear: Vec<bool> = kinds.iter().map(|k| *k != FieldKind::Locked).collect();
    let init = p.init.clone();
    let has_pred = fl.ops.contains(&Op::Has);
    let has_clr = fl.ops.contains(&Op::Clear);
    let copies = fl.copies;
    let finish = Box::new(move || -> Result<(), String> {
        let mut evs = std::mem::take(&mut *log.lock().unwrap());
        let bad = |m: String, evs: &[Ev]| {
            let mut s = m;
            for e in evs {
                s.push_str("\n    ");
                s.push_str(&e.show());
            }
            Err(s)
        };
        if let Some(m) = ctx.bad.lock().unwrap().take() {
            return bad(m, &evs);
        }
        // Quiescent epilogue, executed by the main thread
        let mut now = 1_000_000;
        for f in 0..kinds.len() {
            let mut ops = vec![];
            if has_pred && has_clear[f] {
                ops.push(Op::Has);
            }
            ops.push(Op::Get);
            if has_pred && has_clear[f] {
                ops.push(Op::Has);
            }
            if has_clr && has_clear[f] {
                ops.push(Op::Clear);
            }
            if has_pred && has_clear[f] && has_clr {
                ops.push(Op::Has);
            }
            for op in ops {
                let mut e = record(&subj, &ctx, 99, (f, op, None));
                e.inv = now;
                e.resp = now + 1;
                now += 2;
                evs.push(e);
            }
        }
        for e in &evs {
            if let Ret::Bad(m) = &e.ret {
                return bad(m.clone(), &evs);
            }
        }
        if !linearizable(&kinds, &init, &evs) {
            return bad("the history has no legal sequential order".into(), &evs);
        }
        (check)(&evs, &ctx).or_else(|m| bad(m, &evs))?;
        drop(subj);
        let _ = copies;
        let live = ctx.live.load(SeqCst);
        if live != 0 {
            return bad(format!("{live} values are still alive after the object is gone"), &evs);
        }
        Ok(())
    });
    Run { bodies, finish }
}

/// Additional property of a finished execution
pub type Check = Arc<dyn Fn(&[Ev], &Ctx) -> Result<(), String> + Send + Sync>;
pub fn no_check() -> Check {
    Arc::new(|_, _| Ok(()))
}

pub struct Job {
    pub flavour: Flavour,
    pub program: Program,
    pub preempt: usize,
    pub check:   Check,
}

#[derive(Default)]
pub struct Totals {
    pub stats:    Stats,
    pub programs: u64,
    pub skipped:  u64,
    pub by_flav:  BTreeMap<String, (u64, u64)>,
    pub by_shape: BTreeMap<String, (u64, u64)>,
    pub viol:     Vec<(usize, Violation)>,
}

pub fn explore_all(jobs: Arc<Vec<Job>>, workers: usize, deadline: Instant, max_exec: u64) -> Totals {
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicU64::new(0));
    let out = Arc::new(Mutex::new(Totals::default()));
    let mut hs = vec![];
    for _ in 0..workers {
        let (jobs, next, out, stop) = (jobs.clone(), next.clone(), out.clone(), stop.clone());
        hs.push(std::thread::spawn(move || {
            let mut ex: BTreeMap<usize, Explorer> = BTreeMap::new();
            loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= jobs.len() || stop.load(SeqCst) != 0 {
                    break;
                }
                if Instant::now() >= deadline {
                    out.lock().unwrap().skipped += 1;
                    continue;
                }
                let j = &jobs[i];
                let n = j.program.threads.len();
                let e = ex.entry(n).or_insert_with(|| Explorer::new(n));
                let (st, v) = e.explore(j.preempt, max_exec, deadline, |h| {
                    mk_run(&j.flavour, &j.program, h, j.check.clone())
                });
                let mut o = out.lock().unwrap();
                o.stats.add(&st);
                o.programs += 1;
                let b = o.by_flav.entry(j.flavour.name.to_string()).or_default();
                b.0 += 1;
                b.1 += st.executions;
                let shape: Vec<String> = j.program.threads.iter().map(|t| t.len().to_string()).collect();
                let b = o.by_shape.entry(format!("{} ops, {} preemptions", shape.join("+"), j.preempt)).or_default();
                b.0 += 1;
                b.1 += st.executions;
                if let Some(v) = v {
                    o.viol.push((i, v));
                    stop.store(1, SeqCst);
                }
            }
            drop(ex);
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    Arc::into_inner(out).unwrap().into_inner().unwrap()
}

pub fn secs(s: u64) -> Duration {
    Duration::from_secs(s)
}
