//! C30: the containers of lazy and locked fields, used directly and through helpers in any order, behave as one cell.
//!
//! direct COVERAGE.json REPLAY.txt LENGTH; direct --replay SUBJECT OP...
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
mod subjects;

thread_local! { pub static TURN: Cell<u32> = const { Cell::new(0) }; pub static NEW: Cell<u32> = const { Cell::new(0) }; }

pub fn build() -> u32 {
    let t = TURN.get();
    TURN.set(t + 1);
    100 + t
}

/// Every other builder run fails
pub fn try_build() -> Result<u32, Fail> {
    let v = build();
    if v % 2 == 0 { Err(Fail(v)) } else { Ok(v) }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fail(pub u32);
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "failed") }
}
impl std::error::Error for Fail {}

/// A new value, the same ones in the same order each time
pub fn fresh() -> u32 {
    NEW.set(NEW.get() + 1);
    500 + NEW.get()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Get, GetMut, Set, Clear, Has, Reader, Writer,
    Read, TryRead, ReadMut, TryReadMut, Store, StoreDrop, WClear, Multi, DClear, IsSet, Init, Debug, Clone, Eq, EqSelf, Swap, Take,
    AsRef, Borrow, Give,
}
pub use Op::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    V(u32),
    E(u32),
    Old(Option<u32>),
    Olds([Option<u32>; 3]),
    B(bool),
    Unit,
    Panic,
}
pub use Out::*;

/// What is seen of an implementation
pub trait Subject {
    fn step(&mut self, op: Op) -> Out;
    /// The values of the containers, which are consumed
    fn end(self: Box<Self>) -> [Option<u32>; 2];
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Lazy, Fallible, Locked }

pub struct Case {
    pub name: &'static str,
    pub kind: Kind,
    pub ops: Vec<Op>,
    pub make: fn() -> Box<dyn Subject>,
}

struct Model { kind: Kind, v: [Option<u32>; 2], turn: u32, new: u32 }

impl Model {
    fn fresh(&mut self) -> u32 { self.new += 1; 500 + self.new }
    fn init(&mut self) -> Result<u32, u32> {
        if let Some(v) = self.v[0] { return Ok(v) }
        let v = 100 + self.turn;
        self.turn += 1;
        if self.kind == Kind::Fallible && v % 2 == 0 { return Err(v) }
        self.v[0] = Some(v);
        Ok(v)
    }
    fn step(&mut self, op: Op) -> Out {
        match op {
            Get | Reader | TryRead | AsRef | Borrow => match self.init() { Ok(v) => V(v), Err(e) => E(e) },
            Read => match self.init() { Ok(v) => V(v), Err(_) => Panic },
            GetMut | TryReadMut | ReadMut => match self.init() {
                Ok(v) => { self.v[0] = Some(v + 1000); V(v) }
                Err(e) => if op == ReadMut { Panic } else { E(e) },
            },
            Set | Writer | Store | Give => { let n = self.fresh(); Old(self.v[0].replace(n)) }
            StoreDrop => { let (a, b) = (self.fresh(), self.fresh()); let o = self.v[0].replace(a); self.v[0] = Some(b); Olds([o, Some(a), None]) }
            Clear | WClear | DClear | Take => Old(self.v[0].take()),
            Multi => {
                let (a, b) = (self.fresh(), self.fresh());
                let o = self.v[0].take();
                self.v[0] = Some(b);
                Olds([o, Some(a), None])
            }
            Has | IsSet => B(self.v[0].is_some()),
            Init => { let _ = self.init(); Unit }
            Debug => Old(self.v[0]),
            Clone => { self.v[1] = self.v[0]; Unit }
            Eq => B(self.v[0] == self.v[1]),
            EqSelf => B(true),
            Swap => { self.v.swap(0, 1); Unit }
        }
    }
}

/// Index of the first operation with another outcome
fn check(case: &Case, ops: &[Op]) -> Option<(usize, String)> {
    TURN.set(0);
    NEW.set(0);
    let mut s = (case.make)();
    let mut m = Model { kind: case.kind, v: if case.kind == Kind::Locked { [Some(7), Some(8)] } else { [None, None] }, turn: 0, new: 0 };
    for (i, &op) in ops.iter().enumerate() {
        let want = m.step(op);
        let got = catch_unwind(AssertUnwindSafe(|| s.step(op))).unwrap_or(Panic);
        if got != want { return Some((i, format!("observed {got:?}, must be {want:?}"))) }
        if TURN.get() != m.turn { return Some((i, format!("{} runs of the builder, must be {}", TURN.get(), m.turn))) }
    }
    let got = catch_unwind(AssertUnwindSafe(|| s.end()));
    match got {
        Ok(got) if got == m.v => None,
        Ok(got) => Some((ops.len(), format!("into_inner gave {got:?}, must be {:?}", m.v))),
        Err(_) => Some((ops.len(), "into_inner panicked".into())),
    }
}

fn walk(case: &Case, path: &mut Vec<Op>, left: usize, n: &mut (u64, u64), bad: &Mutex<Vec<String>>) {
    if left == 0 {
        n.0 += 1;
        n.1 += path.len() as u64 + 1;
        if let Some((i, what)) = check(case, path) {
            let mut b = bad.lock().unwrap();
            let shown = &path[..path.len().min(i + 1)];
            let line = format!("{} {} : {what}", case.name, shown.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" "));
            if b.len() < 200 && !b.contains(&line) { b.push(line) }
        }
        return;
    }
    for &op in &case.ops {
        path.push(op);
        walk(case, path, left - 1, n, bad);
        path.pop();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let cases = subjects::all();
    if a[1] == "--replay" {
        let case = cases.iter().find(|c| c.name == a[2]).unwrap();
        let ops: Vec<Op> = a[3..].iter().map(|n| *case.ops.iter().find(|o| format!("{o:?}") == *n).unwrap()).collect();
        match check(case, &ops) {
            Some((i, what)) => { println!("step {}: {what}", i + 1); std::process::exit(1) }
            None => println!("as it must be"),
        }
        return;
    }
    let depth: usize = a[3].parse().unwrap();
    let (seqs, steps, bad) = (AtomicU64::new(0), AtomicU64::new(0), Mutex::new(vec![]));
    let mut samples = vec![];
    for case in &cases {
        // shorter sequences are prefixes
        let jobs = Mutex::new(case.ops.iter().flat_map(|&x| case.ops.iter().map(move |&y| vec![x, y])).collect::<Vec<_>>());
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| {
                    let mut n = (0, 0);
                    loop {
                        let Some(mut path) = jobs.lock().unwrap().pop() else { break };
                        walk(case, &mut path, depth - 2, &mut n, &bad);
                    }
                    seqs.fetch_add(n.0, Ordering::SeqCst);
                    steps.fetch_add(n.1, Ordering::SeqCst);
                });
            }
        });
        samples.push(format!("{}: all sequences of {depth} of {:?}", case.name, case.ops));
    }
    let bad = bad.into_inner().unwrap();
    let (seqs, steps) = (seqs.into_inner(), steps.into_inner());
    println!("{} subjects, {seqs} sequences, {steps} operations", cases.len());
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    let cov = format!("{{\"states\": {seqs}, \"transitions\": {steps}, \"traces_validated_against_impl\": {seqs}, \"depth\": {depth}, \"samples\": [{}]}}",
        samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
    std::fs::write(&a[1], cov).unwrap();
    if !bad.is_empty() {
        let mut bad = bad;
        bad.sort_by_key(|b| b.len());
        let text = bad.iter().map(|b| format!("{b}\n")).collect::<String>();
        print!("{text}");
        std::fs::write(&a[2], format!("direct --replay SUBJECT OPERATIONS\n{text}")).unwrap();
        std::process::exit(1);
    }
}
