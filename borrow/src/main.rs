//! C34: helpers of inner mutable fields while callers hold references to their content.
//!
//! borrow COVERAGE.json REPLAY.txt LENGTH; borrow --replay SUBJECT START OP...
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;
mod subjects;

#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct W(pub u32);
pub struct Raw(pub u32);
impl From<Raw> for W { fn from(r: Raw) -> W { W(r.0) } }
pub struct Small(pub u8);
impl From<Small> for u32 { fn from(r: Small) -> u32 { r.0 as u32 } }
#[allow(non_snake_case)]
pub fn fiveW() -> W { W(5) }
pub fn fiveu32() -> u32 { 5 }
/// The value of f in the text of an object
pub fn shown(t: &str) -> Option<u32> {
    let v: serde_json::Value = serde_json::from_str(t).unwrap();
    v.get("f").and_then(|f| f.as_u64()).map(|n| n as u32)
}

pub type Reading<'a> = Box<dyn Fn() -> Option<u32> + 'a>;
/// Stores something, or not, and shows the content
pub type Writing<'a> = Box<dyn FnMut(Option<Option<u32>>) -> Option<u32> + 'a>;

pub trait Subject {
    fn shared(&self) -> Reading<'_> { unreachable!() }
    fn excl(&self) -> Writing<'_>;
    fn get(&self) -> Option<u32>;
    fn set(&self, n: u32) -> Option<u32>;
    fn clear(&self) -> Option<u32> { unreachable!() }
    fn has(&self) -> bool { unreachable!() }
    fn other(&self, n: u32) -> Option<u32>;
    fn debug(&self) -> bool;
    fn dup(&self) -> Option<u32>;
    fn eq(&self, _: Option<u32>) -> bool { unreachable!() }
    fn ser(&self) -> Option<u32> { unreachable!() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Shared, Excl, Set, Get, Once, Clear, Has, Other, Debug, Dup, Eq, Ser, Take, Look(u8), Store(u8), Empty(u8), Release(u8) }

pub struct Case {
    pub name: &'static str,
    pub text: &'static str,
    pub ops: Vec<Op>,
    pub start: Option<u32>,
    pub new: fn() -> Box<dyn Subject>,
    pub build: fn() -> Box<dyn Subject>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out { V(Option<u32>), B(bool), Done, Panic }
use Out::*;

const SLOTS: usize = 3;
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct State { v: Option<u32>, held: [u8; SLOTS] }

impl State {
    fn free(&self) -> Option<usize> { self.held.iter().position(|&h| h == 0) }
    fn excl(&self) -> bool { self.held.contains(&2) }
    fn any(&self) -> bool { self.held.iter().any(|&h| h != 0) }
    fn can(&self, op: Op) -> bool {
        match op {
            Op::Shared | Op::Excl => self.free().is_some(),
            Op::Look(k) | Op::Release(k) => self.held[k as usize] != 0,
            Op::Store(k) | Op::Empty(k) => self.held[k as usize] == 2,
            _ => true,
        }
    }
    /// The specification: shared uses need that nobody has exclusive access, exclusive ones that there is nobody at all,
    /// and otherwise fail without effect
    fn step(&mut self, op: Op, n: u32) -> Out {
        let shared = |s: &State, o| if s.excl() { Panic } else { o };
        let v = self.v;
        let free = self.free();
        match op {
            Op::Shared => {
                if self.excl() { return Panic }
                self.held[free.unwrap()] = 1;
                Done
            }
            Op::Excl => {
                if self.any() { return Panic }
                self.held[free.unwrap()] = 2;
                Done
            }
            Op::Look(_) => V(v),
            Op::Release(k) => { self.held[k as usize] = 0; Done }
            Op::Store(_) => { self.v = Some(n); V(self.v) }
            Op::Empty(_) => { self.v = None; V(None) }
            Op::Get | Op::Dup | Op::Ser => shared(self, V(v)),
            Op::Has => shared(self, B(v.is_some())),
            Op::Eq => shared(self, B(true)),
            Op::Other => V(Some(3)),
            Op::Debug => B(true),
            Op::Set | Op::Once | Op::Clear => {
                if self.any() { return Panic }
                self.v = if op == Op::Clear { None } else { Some(n) };
                if op == Op::Once { Done } else { V(v) }
            }
            Op::Take => unreachable!(),
        }
    }
}

enum Held<'a> { No, S(Reading<'a>), X(Writing<'a>) }

fn step<'a>(s: &'a dyn Subject, held: &mut [Held<'a>; SLOTS], op: Op, n: u32, v: Option<u32>) -> Out {
    let free = held.iter().position(|h| matches!(h, Held::No));
    catch_unwind(AssertUnwindSafe(|| match op {
        Op::Shared => { held[free.unwrap()] = Held::S(s.shared()); Done }
        Op::Excl => { held[free.unwrap()] = Held::X(s.excl()); Done }
        Op::Look(k) => match &mut held[k as usize] { Held::S(g) => V(g()), Held::X(g) => V(g(None)), Held::No => unreachable!() },
        Op::Release(k) => { held[k as usize] = Held::No; Done }
        Op::Store(k) => { let Held::X(g) = &mut held[k as usize] else { unreachable!() }; V(g(Some(Some(n)))) }
        Op::Empty(k) => { let Held::X(g) = &mut held[k as usize] else { unreachable!() }; V(g(Some(None))) }
        Op::Get => V(s.get()),
        Op::Dup => V(s.dup()),
        Op::Ser => V(s.ser()),
        Op::Has => B(s.has()),
        Op::Eq => B(s.eq(v) && !s.eq(Some(99))),
        Op::Other => V(s.other(n)),
        Op::Debug => B(s.debug()),
        Op::Set => V(s.set(n)),
        Op::Clear => V(s.clear()),
        Op::Once => { s.excl()(Some(Some(n))); Done }
        Op::Take => unreachable!(),
    })).unwrap_or(Panic)
}

/// Runs a sequence and shows it if it goes wrong
fn check(c: &Case, built: bool, ops: &[Op], say: bool) -> Option<String> {
    let s = if built { (c.build)() } else { (c.new)() };
    let mut held = [const { Held::No }; SLOTS];
    let mut st = State { v: if built { Some(9) } else { c.start }, held: [0; SLOTS] };
    let mut text = String::new();
    let mut bad = false;
    for (i, &op) in ops.iter().enumerate() {
        let n = 10 * (i as u32 + 1);
        let v = st.v;
        let want = st.step(op, n);
        let got = step(&*s, &mut held, op, n, v);
        if say {
            text += &format!("{op:?} {n}: {got:?}{}\n", if got == want { String::new() } else { format!(", must be {want:?}") });
        }
        if got != want { bad = true; break }
    }
    if !bad {
        // afterwards, with nothing held
        drop(held);
        let want = st.v;
        let got = catch_unwind(AssertUnwindSafe(|| s.get()));
        if got.as_ref().ok() != Some(&want) {
            bad = true;
            if say { text += &format!("content at the end: {got:?}, must be {want:?}\n") }
        }
    }
    bad.then_some(text)
}

struct Search<'a> { c: &'a Case, built: bool, ops: Vec<Op>, len: usize, seqs: u64, steps: u64, panics: u64, states: std::collections::HashSet<State> }

impl Search<'_> {
    fn go(&mut self, st: State, path: &mut Vec<Op>) -> bool {
        self.states.insert(State { v: st.v.map(|_| 1), ..st });
        if path.len() == self.len {
            self.seqs += 1;
            self.steps += path.len() as u64;
            return check(self.c, self.built, path, false).is_some();
        }
        for i in 0..self.ops.len() {
            let op = self.ops[i];
            if !st.can(op) { continue }
            let mut t = st;
            if t.step(op, 10 * (path.len() as u32 + 1)) == Panic { self.panics += 1 }
            path.push(op);
            if self.go(t, path) { return true }
            path.pop();
        }
        false
    }
}

fn alphabet(c: &Case) -> Vec<Op> {
    let mut ops: Vec<Op> = c.ops.iter().copied().filter(|&o| o != Op::Take).collect();
    for k in 0..SLOTS as u8 {
        ops.extend([Op::Look(k), Op::Store(k), Op::Release(k)]);
        if c.ops.contains(&Op::Take) { ops.push(Op::Empty(k)) }
    }
    ops
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let cases = subjects::cases();
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--replay" {
        let c = cases.iter().find(|c| c.name == a[2]).unwrap();
        let ops: Vec<Op> = a[4..].iter().map(|t| alphabet(c).into_iter().find(|o| format!("{o:?}").replace(['(', ')'], "") == *t).unwrap()).collect();
        let r = check(c, a[3] == "build", &ops, true);
        print!("{}\n{}", c.text, r.as_deref().unwrap_or("as specified\n"));
        std::process::exit(r.is_some() as i32);
    }
    let len: usize = a[3].parse().unwrap();
    let began = Instant::now();
    let (next, broken) = (AtomicUsize::new(0), AtomicBool::new(false));
    let (seqs, steps, panics) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let (found, states) = (Mutex::new(Vec::new()), Mutex::new(0u64));
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= 2 * cases.len() || broken.load(Ordering::Relaxed) { return }
                let (c, built) = (&cases[k / 2], k % 2 == 1);
                // shortest sequences first
                for l in 1..=len {
                    let mut s = Search { c, built, ops: alphabet(c), len: l, seqs: 0, steps: 0, panics: 0, states: Default::default() };
                    let mut path = Vec::new();
                    let bad = s.go(State { v: if built { Some(9) } else { c.start }, held: [0; SLOTS] }, &mut path);
                    seqs.fetch_add(s.seqs, Ordering::Relaxed);
                    steps.fetch_add(s.steps, Ordering::Relaxed);
                    panics.fetch_add(s.panics, Ordering::Relaxed);
                    if l == len { *states.lock().unwrap() += s.states.len() as u64 }
                    if bad {
                        found.lock().unwrap().push((k, path));
                        broken.store(true, Ordering::Relaxed);
                        return;
                    }
                }
            });
        }
    });
    let (seqs, steps, panics, states) = (seqs.into_inner(), steps.into_inner(), panics.into_inner(), states.into_inner().unwrap());
    println!("{} subjects, {seqs} sequences, {steps} operations, {panics} conflicts, {states} states, {:.1} s", cases.len(), began.elapsed().as_secs_f32());
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|(k, p)| (p.len(), *k));
    let cov = serde_json::json!({"states": seqs, "transitions": steps, "traces_validated_against_impl": seqs, "sequences": seqs,
        "conflicting operations": panics, "states of the specification": states, "depth": len,
        "samples": [format!("all sequences of up to {len} operations on {} structs from two initial states, up to {SLOTS} references held at once", cases.len())]});
    std::fs::write(&a[1], cov.to_string()).unwrap();
    if let Some((k, p)) = found.first() {
        let c = &cases[k / 2];
        let start = if k % 2 == 1 { "build" } else { "new" };
        let ops: Vec<String> = p.iter().map(|o| format!("{o:?}").replace(['(', ')'], "")).collect();
        let text = format!("{}\nobject made by {start}\n{}replay: borrow --replay {} {start} {}\n", c.text, check(c, k % 2 == 1, p, true).unwrap_or("(does not repeat)\n".into()), c.name, ops.join(" "));
        print!("{text}");
        std::fs::write(&a[2], text).unwrap();
        std::process::exit(1);
    }
}
