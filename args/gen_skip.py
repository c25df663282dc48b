"""C22: fields with `skip` are left alone whatever else is said at their level or at that of the struct.

Every declaration must compile; the field `f` keeps its type, has no helpers, gets its default value in each way an object can come
into being and has no part in serialization."""
import itertools
from gen_excl import FIELD, STRUCT, F_GROUPS, S_GROUPS, MODES, Decl, pairs

SKIP_DEFAULTS = {None: "N(String::new())", "default(N::new(7))": "N::new(7)", "default(n8())": "N::new(8)"}
NAMES = ["f", "f_mut", "set_f", "read_f", "write_f", "clear_f", "has_f", "nick", "nick_mut", "set_nick", "build_f", "build_nick"]


class Skip(Decl):
    def __init__(self, sargs, fargs, default, where):
        super().__init__(sargs, [x for x in fargs if x and not x.startswith("default")])
        self.default, self.where = default, where

    def ok(self):
        s = self.s
        if self.has("serde", s) and (self.has("no_new", s) or (self.has("lazy", s) and self.asyncish())):
            return False
        return True

    def count(self):
        return self.seen

    def module(self, i):
        s = self.s
        h = lambda n: self.has(n, s)
        fa = list(self.f) + ([self.default] if self.default else [])
        fa.insert(min(self.where, len(fa)), "skip")
        lazy = h("lazy")
        user = ""
        if lazy:
            a = "async " if Decl(s, []).asyncish() else ""
            r, v = ("Result<V, E>", "Ok(V(1))") if h("fallible") else ("V", "V(1)")
            user = f"impl S {{ {a}fn build_g(&self) -> {r} {{ {v} }} }}\n"
        want = SKIP_DEFAULTS[self.default]
        steps = []
        if not h("no_new"):
            steps.append("let s = S::new(); ty(&s.f); if s.f != want { bad += 1; }")
        if h("builder"):
            steps.append("let s = S::builder().g(V(3)).build().unwrap(); ty(&s.f); if s.f != want { bad += 10; }")
            steps.append("let _: [fn() -> Absent; 1] = [SBuilder::f];")
        if h("default") and not h("rc"):
            steps.append("let s: S = Default::default(); if s.f != want { bad += 100; }")
        if h("serde") and not h("no_new"):
            steps.append('let j = serde_json::to_string(&S::new()).unwrap(); if j.contains("\\"f\\"") || j.contains("nick") { bad += 1000; }')
            steps.append("let s: S = serde_json::from_str(&j).unwrap(); if s.f != want { bad += 10000; }")
        clone = "#[derive(Clone)] " if h("serde") else ""
        self.seen = len(NAMES) + 2 * len(steps)   # absent helpers; type and value after each way of construction
        return (f"pub mod {i} {{\nuse super::*;\n#[fxstruct({', '.join(s)})]\n{clone}pub struct S {{ #[fieldx({', '.join(fa)})] f: N, g: V }}\n{user}"
                f"fn ty(_: &N) {{}}\npub fn left(s: &S) -> &N {{ &s.f }}\n"
                f"pub async fn run() -> (u32, u32) {{\n    let want = {want};\n    let mut bad = 0;\n    absent_all([{', '.join('S::' + n for n in NAMES)}]);\n    "
                + "\n    ".join(f"{{ {x} }}" if not x.startswith("let j") and not x.startswith("let s: S = serde") else x for x in steps) + "\n    (bad, 0)\n}\n}\n")


def generate(tier):
    def one(sargs, fargs, default=None, where=0):
        d = Skip([x for x in sargs if x], fargs, default, where)
        if d.ok():
            yield d
    allf = [x for n, fs in FIELD.items() if n not in ("skip", "default") for x in fs]
    alls = [x for fs in STRUCT.values() for x in fs]
    for m in MODES.values():
        for s in [""] + alls:
            if m and s.split("(")[0] in ("sync", "r#async", "mode", "inner_mut"):
                continue
            for f in [""] + allf:
                if m and f and tier == "quick" and not s:
                    continue
                yield from one([m, s], [f], None if len(f) % 2 else "default(N::new(7))", where=len(s) % 2)
    for x, y, bad in pairs(STRUCT, S_GROUPS):
        if not bad:
            for m in ("", "sync", "r#async"):
                if m and {x.split("(")[0], y.split("(")[0]} & {"sync", "r#async", "mode", "inner_mut"}:
                    continue
                for k, dflt in enumerate(SKIP_DEFAULTS):
                    if tier != "quick" or (len(x) + len(y)) % 3 == k:
                        yield from one([m, x, y], [], dflt)
    for x, y, bad in pairs(FIELD, F_GROUPS):
        if not bad and "skip" not in (x, y) and not x.startswith("default") and not y.startswith("default"):
            for k, s in enumerate(("", "builder, default", "serde", "rc, builder", "sync, lock", "lazy, get, clearer")):
                if tier != "quick" or (len(x) + len(y)) % 6 == k:
                    yield from one(s.split(", "), [x, y], list(SKIP_DEFAULTS)[len(x) % 3], where=len(y) % 3)


HEAD = """use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
#[derive(Debug, Clone, Copy, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct V(pub u32);
/// Neither Copy nor to be serialized
#[derive(Debug, Clone, Default, PartialEq)]
pub struct N(pub String);
impl N { pub fn new(n: u32) -> N { N(n.to_string()) } }
pub fn n8() -> N { N::new(8) }
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") } }
impl std::error::Error for E {}
impl From<fieldx::error::FieldXError> for E { fn from(_: fieldx::error::FieldXError) -> Self { E } }
pub struct Absent;
pub fn absent_all<const N: usize>(_: [fn() -> Absent; N]) {}
pub trait Candidates {
""" + "".join(f"    fn {n}() -> Absent {{ Absent }}\n" for n in NAMES) + """}
impl<T> Candidates for T {}
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
