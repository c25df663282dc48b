"""C31: the struct remains what was declared: names, order, visibility and attributes of fields, attributes and visibility of
the struct; fields which need no container keep their type."""
import itertools
from gen_generics import KINDS, STRUCTS

MODES = ["", "sync", "r#async"]
MORE = ["skip", "skip, default(5)", "rename(\"other\"), get", "serde(\"n\"), get", "builder, get(public)", "get_mut, set, public(crate)"]
ALL = [k for k in KINDS if "Self::" not in k and "fallible" not in k and "into" not in k] + MORE
ATTRS = ["", "/// Words, and <more> ", "#[t(1)]", "#[allow(unused)] #[u(a = \"b\", c)]", "#[cfg_attr(all(), t(2))] #[u]"]
VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(in super::super)"]
HEADS = ["", "/// About it", "#[repr(C)]", "#[t(7)] #[must_use] #[u(x, y)]", "#[allow(dead_code)] #[cfg_attr(all(), t(9))]"]


def squeeze(t):
    out = []
    for part in t.split("\n"):
        if part.startswith("///"):
            # blanks are not seen by the macro either
            out.append("#[doc=\"" + part[3:].replace(" ", "") + "\"]")
        else:
            part = part.replace("#[cfg_attr(all(), t(2))]", "#[t(2)]").replace("#[cfg_attr(all(), t(9))]", "#[t(9)]")
            out.append(part.replace(" ", ""))
    return "".join(out)


class Shape:
    def __init__(self, mode, s, head, vis, *fields):
        if "serde" in s:    # attributes of fields go to the shadow struct, too
            fields = [(k, "/// Words" if "[t" in a or "[u" in a or ", t(" in a else a, v) for k, a, v in fields]
        self.mode, self.s, self.head, self.vis, self.fields = mode, s, head, vis, fields

    def locked(self, k):
        return "lazy" in k or "lazy" in self.s and "skip" not in k or any(x in k for x in ("optional", "predicate", "clearer", "lock", "reader", "writer", "inner_mut"))

    def ok(self):
        m, s = self.mode, self.s
        if sum("rename" in (k or "") for k, a, v in self.fields) > 1: # two parameters of one name
            return False
        for k, a, v in self.fields:
            k = k or ""
            lazy = "lazy" in k or "lazy" in s and "skip" not in k
            if "inner_mut" in k and (m or "lazy" in s):
                return False
            if ("reader" in k or "lock" in k) and not m:
                return False
            if "lazy" in s and ("optional" in k or "lock" in k or "predicate" in k or "reader" in k) and "lazy" not in k:
                return False
            if "serde" in s and m == "r#async" and lazy:
                return False
            if "serde(" in k and "serde" not in s:
                return False
            if "skip" in k and "no_new" in s:
                return False
            if "skip" in k and "serde" in s:
                return False
            # attributes of fields are those of the struct's fields only, serde's derives don't know t and u, nor do the builders
        return True

    def module(self, i):
        sargs = ", ".join(x for x in (self.mode, self.s) if x)
        decl, want, impl = "", [], ""
        for n, (k, a, v) in zip("fghijk", self.fields):
            decl += f"    {a}\n    #[fieldx({k})]\n    {v} {n}: u32,\n" if k is not None else f"    {a}\n    {v} {n}: u32,\n"
            ty = "" if k is not None and self.locked(k) or k is None and "lazy" in self.s else "u32"
            want.append(squeeze(a) + v.replace(" ", "") + n + ":" + ty)
            if "lazy" in (k or "") or "lazy" in self.s and "skip" not in (k or ""):
                impl += f"{'async ' if self.mode == 'r#async' else ''}fn build_{n if 'rename' not in (k or '') else 'other'}(&self) -> u32 {{ 1 }} "
        own = squeeze(self.head) + self.vis.replace(" ", "") + "struct"
        wants = ", ".join("r##\"" + w + "\"##" for w in [own] + want)
        return (f"pub mod {i} {{ use super::*; pub mod inner {{\nuse super::super::*;\n#[fxstruct({sargs})]\n#[derive(Clone, Shape)]\n{self.head}\n{self.vis} struct S {{\n{decl}}}\n"
                .replace("#[derive(Clone, Shape)]", "#[derive(Shape)]" if "serde" not in self.s else "#[derive(Clone, Shape)]") +
                f"impl S {{ {impl} fn five() -> u32 {{ 5 }} fn spare() -> Sh {{ todo!() }} fn post_build(self) -> Self {{ self }} fn after(self) -> Result<Self, E> {{ Ok(self) }} }}\n}}\n"
                .replace("fn spare() -> Sh { todo!() }", "fn spare() -> Self { Self::new() }" if "spare" in self.s else "") +
                f"pub async fn run() -> (u32, u32) {{\n    (same(<inner::S as Shaped>::SHAPE, &[{wants}], {str('rc' in self.s).lower()}), 0)\n}}\n}}\n")

    def count(self):
        return 1 + len(self.fields)


def generate(tier):
    n = 0
    # every kind next to fields without arguments, each kind of attributes and visibility
    for m, s, k, p in itertools.product(MODES, STRUCTS, ALL, (0, 1, 2)):
        n += 1
        a = ATTRS[(n + p) % len(ATTRS)], VIS[(n // 2 + p) % 4]
        b = [(None, ATTRS[(n + 2) % len(ATTRS)], VIS[(n + 1) % 4]), (None, ATTRS[(n + 3) % len(ATTRS)], VIS[(n // 3) % 4])]
        b.insert(p, (k, *a))
        d = Shape(m, s, HEADS[n % len(HEADS)], ["pub", "pub(crate)", "pub(in super::super)"][n % 3], *b)
        if d.ok():
            yield d
    # pairs
    for m, s, k1, k2 in itertools.product(MODES, ("", "builder", "rc", "serde", "get, set, lazy"), ALL, ALL):
        n += 1
        if tier == "quick" and (ALL.index(k1) + ALL.index(k2) + MODES.index(m)) % 3:
            continue
        d = Shape(m, s, HEADS[n % len(HEADS)], "pub", (k1, ATTRS[n % len(ATTRS)], VIS[n % 4]), (None, ATTRS[n // 2 % len(ATTRS)], ""), (k2, ATTRS[n // 3 % len(ATTRS)], VIS[n // 4 % 4]))
        if d.ok():
            yield d
    # all attributes, visibilities and heads
    for m, k, a, v, h, w in itertools.product(MODES, ("get", "lazy, get", "optional, set", "skip"), ATTRS, VIS[:4], HEADS, ("", "pub", "pub(crate)", "pub(super)")):
        d = Shape(m, "builder", h, w or "pub", (None, a, v), (k, a, v))
        yield d


HEAD = """use fieldx::fxstruct;
use mark::Shape;
use serde::{Deserialize, Serialize};
pub trait Shaped { const SHAPE: &'static [&'static str]; }
#[derive(Debug, Clone)]
pub enum E { E, Unset(String) }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") } }
impl std::error::Error for E {}
impl From<fieldx::error::FieldXError> for E { fn from(_: fieldx::error::FieldXError) -> Self { E::E } }
pub trait Mk { fn mk(v: u32) -> Self; }
impl Mk for u32 { fn mk(v: u32) -> u32 { v } }
/// Attributes which the macro adds in front of the struct are passed over; with rc there is one more field, somewhere
pub fn same(got: &[&str], want: &[&str], rc: bool) -> u32 {
    let all = got;
    let got: Vec<&str> = all.iter().copied().filter(|g| !(rc && g.contains("Weak<"))).collect();
    if got.len() != want.len() || all.len() != want.len() + rc as usize { return 1 }
    if !head(got[0], want[0]) { return 2 }
    for (g, w) in got[1..].iter().zip(&want[1..]) {
        if !(if w.ends_with(':') { g.starts_with(w) } else { g == w }) { return 3 }
    }
    0
}
/// All attributes of `want` are there, in their order
fn head(got: &str, want: &str) -> bool {
    let cut = |s: &str| { let mut v: Vec<String> = vec![]; for x in s.replace("#[", "\\u{1}#[").split('\\u{1}') { if !x.is_empty() { v.push(x.into()) } } v };
    let split = |s: &str| { let i = s.rfind(']').map_or(0, |i| i + 1); (cut(&s[..i]), s[i..].to_string()) };
    let ((ga, gv), (wa, wv)) = (split(got), split(want));
    let mut it = ga.iter();
    gv == wv && wa.iter().all(|w| it.any(|g| g == w))
}
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
