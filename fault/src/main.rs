//! C33: panics of the user's code leave objects usable, with the state from before or after the operation.
//!
//! fault COVERAGE.json REPLAY.txt LENGTH; fault --replay SUBJECT EVENT[,EVENT] OP...
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;
mod subjects;

thread_local! {
    /// Calls of user code so far, whether they are counted, and which ones panic
    static CALLS: Cell<u32> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static AT: Cell<[u32; 2]> = const { Cell::new([0; 2]) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static STEP: Cell<u32> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static DROPS: Cell<bool> = const { Cell::new(true) };
    static WRONG: Cell<Option<&'static str>> = const { Cell::new(None) };
}

/// Any code of the user
pub fn fault() {
    if ON.get() {
        let n = CALLS.get() + 1;
        CALLS.set(n);
        if AT.get().contains(&n) && !std::thread::panicking() {
            FIRED.set(true);
            std::panic::panic_any(());
        }
    }
}

/// rustc forgets what a function is about to return when a temporary of it panics on its way out (rust-lang/rust#47949)
pub fn drops(on: bool) { DROPS.set(on) }

pub fn hung() -> ! {
    WRONG.set(Some("waits for itself"));
    panic!()
}

const MIX: u32 = 0x9E37_79B9;
pub struct W { id: u32, chk: u32 }
pub struct Raw(pub u32);
impl W {
    pub fn new(n: u32, k: u32) -> W {
        LIVE.set(LIVE.get() + 1);
        W { id: n + k, chk: (n + k).wrapping_mul(MIX) ^ 1 }
    }
    pub fn id(&self) -> u32 {
        if self.chk != self.id.wrapping_mul(MIX) ^ 1 { WRONG.set(Some("a value was used after it had been dropped")) }
        self.id
    }
}
impl Drop for W {
    fn drop(&mut self) {
        self.id();
        self.chk = 0;
        LIVE.set(LIVE.get() - 1);
        if DROPS.get() { fault() }
    }
}
impl std::clone::Clone for W { fn clone(&self) -> W { let n = self.id(); fault(); W::new(n, 0) } }
impl Default for W { fn default() -> W { fault(); W::new(0, 0) } }
impl PartialEq for W { fn eq(&self, o: &W) -> bool { fault(); self.id() == o.id() } }
impl std::fmt::Debug for W { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { fault(); write!(f, "{}", self.id()) } }
impl From<Raw> for W { fn from(r: Raw) -> W { fault(); W::new(r.0, 0) } }
pub fn five() -> W { fault(); W::new(5, 0) }
/// What lazy builders do
pub fn built() -> W { fault(); let w = W::new(500 + STEP.get(), 0); fault(); w }

pub fn id(w: Option<&W>) -> Out { Old(w.map(|w| w.id())) }
pub fn keep(w: Option<W>) -> Out {
    ON.set(false);
    id(w.as_ref())
}
pub fn keep3(w: [Option<W>; 3]) -> Out {
    ON.set(false);
    Olds([0, 1, 2].map(|k| w[k].as_ref().map(|w| w.id())))
}

#[derive(Clone, Debug)]
pub struct Sorry;

impl serde::Serialize for W { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { fault(); s.serialize_u32(self.id()) } }
impl<'de> serde::Deserialize<'de> for W {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<W, D::Error> {
        fault();
        let w = W::new(<u32 as serde::Deserialize>::deserialize(d)?, 0);
        fault();
        Ok(w)
    }
}
/// The value in {"f":value}
pub fn shown(t: &str) -> Out { Old(t.trim_start_matches("{\"f\":").trim_end_matches('}').parse().ok()) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { Get, Mut, Set, Clear, Has, Reader, Writer, Clone, Eq, Debug, New, Build, Bare, Swap, Other, Ser, De }
pub use Op::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Out { V(u32), Old(Option<u32>), Olds([Option<u32>; 3]), B(bool), Unit, Panic }
pub use Out::*;

pub trait Subject {
    fn step(&mut self, op: Op, n: u32) -> Out;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Lazy, Opt, Val }

pub struct Case {
    pub name: &'static str,
    pub text: &'static str,
    pub kind: Kind,
    pub given: bool,
    pub required: bool,
    pub empty_ok: bool,
    pub ops: Vec<Op>,
    pub make: fn() -> Box<dyn Subject>,
}

type State = [Option<u32>; 2];

impl Case {
    fn start(&self) -> Option<u32> {
        if self.given { Some(5) } else if self.kind == Kind::Val { Some(0) } else { None }
    }

    /// Outcome and states on the way, the last one is the one after the operation
    fn spec(&self, s: State, op: Op, i: u32) -> (Out, Vec<State>) {
        let n = 10 * (i + 1);
        let at = |v| [v, s[1]];
        let other = |v| [s[0], v];
        let ready = if self.kind == Kind::Lazy { s[0].or(Some(500 + i)) } else { s[0] };
        match op {
            Get => (Old(ready), vec![at(ready)]),
            Mut => (Unit, vec![at(ready), at(Some(n))]),
            Set => (Old(s[0]), vec![at(Some(n))]),
            Clear => (Old(s[0]), vec![at(None)]),
            Has => (B(s[0].is_some()), vec![s]),
            Reader => (V(ready.unwrap_or(0)), vec![at(ready)]),
            Writer if self.kind == Kind::Val => (Unit, vec![at(Some(n)), at(Some(n + 1))]),
            Writer => (Olds([s[0], Some(n), None]), vec![at(Some(n)), at(None), at(Some(n + 1))]),
            Clone => (Unit, vec![other(s[0])]),
            Eq => (B(s[0] == s[1]), vec![s]),
            Debug => (B(true), vec![s]),
            New => (Unit, vec![other(self.start())]),
            Build => (Unit, vec![other(Some(n))]),
            Bare if self.required => (B(false), vec![s]),
            Bare => (B(true), vec![other(self.start())]),
            Other => (V(7), vec![s]),
            // what is serialized is a clone of the object
            Ser => (Old(ready), vec![s]),
            De => (Unit, vec![other(Some(n))]),
            Swap => (Unit, vec![[s[1], s[0]]]),
        }
    }

    /// Runs the operations; calls of user code, and the first operation which isn't as it must be
    fn check(&self, ops: &[Op], at: [u32; 2]) -> (u32, Option<(usize, String)>) {
        CALLS.set(0);
        ON.set(false);
        WRONG.set(None);
        LIVE.set(0);
        AT.set(at);
        let mut t = (self.make)();
        let mut may: Vec<State> = vec![[self.start(); 2]];
        let mut bad = None;
        for (i, &op) in ops.iter().enumerate() {
            FIRED.set(false);
            STEP.set(i as u32);
            DROPS.set(true);
            ON.set(true);
            let got = catch_unwind(AssertUnwindSafe(|| t.step(op, 10 * (i as u32 + 1)))).unwrap_or(Panic);
            ON.set(false);
            if let Some(w) = WRONG.get() {
                bad = Some((i, w.to_string()));
                break;
            }
            let mut next: Vec<State> = vec![];
            let mut wants = vec![];
            for &s in &may {
                let (out, way) = self.spec(s, op, i as u32);
                let new = if FIRED.get() {
                    // what isn't reached at all or isn't noticed isn't a problem of this property
                    if got != Panic { vec![] } else { [&[s][..], &way].concat() }
                } else if got == out {
                    vec![*way.last().unwrap()]
                } else {
                    vec![]
                };
                wants.push(out);
                next.extend(new);
            }
            next.sort();
            next.dedup();
            if next.is_empty() {
                bad = Some((i, if FIRED.get() { format!("observed {got:?}, the panic must go on to the caller") } else { format!("observed {got:?}, must be {}", wants.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join(" or ")) }));
                break;
            }
            may = next;
        }
        let n = CALLS.get();
        if catch_unwind(AssertUnwindSafe(|| drop(t))).is_err() && bad.is_none() {
            bad = Some((ops.len(), "dropping the objects panicked".into()));
        }
        if bad.is_none() {
            if let Some(w) = WRONG.get() {
                bad = Some((ops.len(), w.to_string()));
            } else if LIVE.get() != 0 {
                bad = Some((ops.len(), format!("{} values are left over at the end", LIVE.get())));
            }
        }
        (n, bad)
    }
}

type Slot = Mutex<Option<(usize, Vec<Op>, [u32; 2], Instant)>>;

struct Run<'a> { cases: &'a [Case], twice: bool, slot: &'a Slot, n: [u64; 3], bad: &'a Mutex<Vec<String>> }

impl Run<'_> {
    fn one(&mut self, c: usize, ops: &[Op], at: [u32; 2]) -> u32 {
        {
            let mut s = self.slot.lock().unwrap();
            match &mut *s {
                Some(s) => { s.0 = c; s.1.clear(); s.1.extend(ops); s.2 = at; s.3 = Instant::now(); }
                None => *s = Some((c, ops.to_vec(), at, Instant::now())),
            }
        }
        let (calls, bad) = self.cases[c].check(ops, at);
        self.n[0] += 1;
        self.n[1] += ops.len() as u64;
        if let Some((i, what)) = bad {
            let line = describe(&self.cases[c], &ops[..ops.len().min(i + 1)], at, &what);
            let mut b = self.bad.lock().unwrap();
            if b.len() < 300 && !b.contains(&line) { b.push(line) }
        }
        calls
    }

    fn walk(&mut self, c: usize, path: &mut Vec<Op>, left: usize) {
        if left == 0 {
            self.n[2] += 1;
            let n = self.one(c, path, [0; 2]);
            for k in 1..=n {
                let m = self.one(c, path, [k, 0]);
                if self.twice {
                    for l in k + 1..=m {
                        self.one(c, path, [k, l]);
                    }
                }
            }
            return;
        }
        for o in 0..self.cases[c].ops.len() {
            path.push(self.cases[c].ops[o]);
            self.walk(c, path, left - 1);
            path.pop();
        }
    }
}

fn describe(c: &Case, ops: &[Op], at: [u32; 2], what: &str) -> String {
    let calls = at.iter().filter(|&&k| k > 0).map(|k| k.to_string()).collect::<Vec<_>>().join(",");
    format!("{} {} {} : {what}   // {}", c.name, if calls.is_empty() { "0" } else { &calls }, ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" "), c.text)
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let cases = subjects::all();
    if a[1] == "--replay" {
        let case = cases.iter().find(|c| c.name == a[2]).unwrap();
        let mut at = [0; 2];
        for (k, x) in a[3].split(',').enumerate() { at[k] = x.parse().unwrap() }
        let ops: Vec<Op> = a[4..].iter().map(|n| *case.ops.iter().find(|o| format!("{o:?}") == *n).unwrap()).collect();
        println!("{}", case.text);
        match case.check(&ops, at) {
            (_, Some((i, what))) => { println!("step {}: {what}", i + 1); std::process::exit(1) }
            (n, None) => println!("as it must be, {n} calls of user code"),
        }
        return;
    }
    let depth: usize = a[3].parse().unwrap();
    let total = [const { AtomicU64::new(0) }; 3];
    let bad = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..8).map(|_| Mutex::new(None)).collect();
    let left = AtomicU64::new(8);
    // deeper with one panic, less deep with two of them; shorter sequences are prefixes
    let mut jobs: Vec<(usize, bool, usize, Vec<Op>)> = vec![];
    for (twice, depth) in [(false, depth), (true, depth - 1)] {
        for (c, case) in cases.iter().enumerate() {
            jobs.extend(case.ops.iter().map(|&o| (c, twice, depth, vec![o])));
        }
    }
    let jobs = Mutex::new(jobs);
    std::thread::scope(|sc| {
        for slot in &slots {
            let (jobs, bad, total, cases, left) = (&jobs, &bad, &total, &cases, &left);
            sc.spawn(move || {
                let mut r = Run { cases, twice: false, slot, n: [0; 3], bad };
                loop {
                    let Some((c, twice, depth, mut path)) = jobs.lock().unwrap().pop() else { break };
                    r.twice = twice;
                    r.walk(c, &mut path, depth - 1);
                }
                *slot.lock().unwrap() = None;
                for k in 0..3 { total[k].fetch_add(r.n[k], Ordering::SeqCst); }
                left.fetch_sub(1, Ordering::SeqCst);
            });
        }
        // none of the operations takes long
        while left.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(50));
            for s in &slots {
                if let Some((c, ops, at, t)) = &*s.lock().unwrap() {
                    if t.elapsed().as_secs() >= 20 {
                        bad.lock().unwrap().push(describe(&cases[*c], ops, *at, "blocks for ever"));
                        report(&a, cases.len(), &total, depth, &bad.lock().unwrap());
                    }
                }
            }
        }
    });
    let bad = bad.into_inner().unwrap();
    report(&a, cases.len(), &total, depth, &bad);
}

fn report(a: &[String], subjects: usize, total: &[AtomicU64; 3], depth: usize, bad: &[String]) -> ! {
    let [runs, steps, seqs] = [0, 1, 2].map(|k| total[k].load(Ordering::SeqCst));
    println!("{subjects} subjects, {seqs} sequences, {runs} runs, {steps} operations");
    let cov = format!("{{\"states\": {runs}, \"transitions\": {steps}, \"traces_validated_against_impl\": {runs}, \"sequences\": {seqs}, \"depth\": {depth}, \"samples\": [\"each call of user code during each sequence of {depth} operations panics, each pair of calls during sequences of {}\"]}}", depth - 1);
    std::fs::write(&a[1], cov).unwrap();
    if bad.is_empty() { std::process::exit(0) }
    let mut bad = bad.to_vec();
    bad.sort_by_key(|b| b.len());
    let text = bad.iter().take(60).map(|b| format!("{b}\n")).collect::<String>();
    print!("{text}");
    std::fs::write(&a[2], format!("fault --replay SUBJECT CALLS OPERATIONS\n{text}")).unwrap();
    std::process::exit(1);
}
