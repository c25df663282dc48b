"""C21: how visible generated methods are and fields remain.

Every declaration sits in crate::mN::mid::inner.  From the six places (where the struct itself can be seen: its module, a child of it, the module's parent, its
grandparent, elsewhere in the crate, another crate) each helper is either used with no alternative in scope, or it must give way
to a function of a trait, which is what the compiler does with methods it is not allowed to see."""
import itertools

MODES = {"p": "", "s": "sync", "a": "r#async"}
LEVELS = ["none", "pub", "crate", "super", "in", "path", "private"]
PLACES = {"private": 2, "super": 3, "in": 4, "path": 4, "crate": 5, "pub": 6}
OWN = [v for v in PLACES if v != "path"]
NAMES = {"get": "f", "get_mut": "f_mut", "set": "set_f", "reader": "read_f", "writer": "write_f", "clearer": "clear_f",
         "predicate": "has_f"}


def arg(v, i):
    return {"none": "", "pub": "public", "crate": "public(crate)", "super": "public(super)",
            "in": f"public(in_mod = crate::{i})",
            "path": f"public(crate::{i})", "private": "private"}[v]


def vis(v, i):
    return {"private": "", "pub": "pub ", "crate": "pub(crate) ", "super": "pub(super) ", "in": f"pub(in crate::{i}) "}[v]




class Methods:
    def __init__(self, mode, kind, own, helper, field, shelper, struct):
        self.mode, self.kind, self.own = mode, kind, own
        self.l = (helper, field, shelper, struct)

    def result(self):
        for v in self.l:
            if v != "none":
                return v
        return self.own

    def helpers(self):
        hs = ["get", "get_mut", "set"]
        if self.mode != "p":
            hs += ["reader", "writer"]
        if "opt" in self.kind or self.kind == "lazy":
            hs += ["clearer", "predicate"]
        return hs

    def decl(self, i):
        h, f, sh, s = (arg(v, i) for v in self.l)
        sa = [MODES[self.mode], s] + ([f"{x}({sh})" for x in self.helpers()] if sh else [])
        fa = [{"none": "", "opt": "optional", "lazy": "lazy", "inner": "inner_mut", "inner_opt": "inner_mut, optional"}[self.kind], f]
        fa += [f"{x}({h})" if h else x for x in self.helpers()]
        asy = "async " if self.mode == "a" else ""
        user = f"    impl S {{ {asy}fn build_f(&self) -> V {{ V(1) }} }}\n" if self.kind == "lazy" else ""
        return (f"    #[fxstruct({', '.join(x for x in sa if x)})]\n    {vis(self.own, i)}struct S {{\n"
                f"        #[fieldx({', '.join(x for x in fa if x)})] f: V }}\n{user}    pub type T = S;\n")

    def uses(self, t, place):
        if place >= PLACES[self.own]:
            return "", ""
        ns = [f"{t}::{NAMES[h]}" for h in self.helpers()]
        if place < PLACES[self.result()]:
            return f"seen(({', '.join(ns)},));", ""
        return "", f"absent_all([{', '.join(ns)}]);"

    def module(self, i):
        c = ["inner", "inner::child", "mid", i, "elsewhere"]
        b = []
        for p, t in enumerate(["T", "super::T", "inner::T", "mid::inner::T", f"{i}::mid::inner::T"]):
            v, u = self.uses(t, p)
            b.append(f"pub fn seen{p}() {{ {v} }} " if v else u and f"pub fn unseen{p}() {{ use crate::Candidates; {u} }} ")
        return (f"pub mod {i} {{ use crate::*;\n  {b[3]}\n  pub mod mid {{ use crate::{{fxstruct, V, seen, absent_all}};\n  {b[2]}\n  pub mod inner {{ use crate::{{fxstruct, V, seen, absent_all}};\n"
                f"{self.decl(i)}  {b[0]}\n  pub mod child {{ use crate::{{seen, absent_all}}; {b[1]} }}\n  }} }} }}\npub mod e{i} {{ use crate::{{{i}, seen, absent_all}}; {b[4]} }}\n")

    def extern_uses(self, i):
        v, u = self.uses(f"args::{i}::mid::inner::T", 5)
        return f"pub mod {i} {{ use args::{{seen, absent_all}}; pub fn uses() {{ " + (v or u and "use args::Candidates; " + u) + f" }} }}\n// {self.mode} {self.kind} {self.own} {self.l}\n"

    def count(self):
        return len(self.helpers())


class Fields:
    """Declarations of fields"""

    def __init__(self, mode, kind, own, level):
        self.mode, self.kind, self.own, self.level = mode, kind, own, level

    def helper(self):
        return {"none": "get, get_mut, set", "opt": "optional, clearer, set", "lazy": "lazy, predicate", "lock": "reader, writer",
                "inner": "inner_mut", "skip": "skip"}[self.kind]

    def module(self, i):
        fl = dict(zip("abcde", OWN))
        asy = "async " if self.mode == "a" else ""
        users = "".join(f"        {asy}fn build_{n}(&self) -> V {{ V(1) }}\n" for n in fl) if self.kind == "lazy" else ""
        decl = (f"    #[fxstruct({', '.join(x for x in (MODES[self.mode], arg(self.level, i)) if x)})]\n    {vis(self.own, i)}struct S {{\n"
                + "".join(f"        #[fieldx({self.helper()})] {vis(v, i)}{n}: V,\n" for n, v in fl.items())
                + f"    }}\n    impl S {{\n{users}    }}\n"
                "    pub type T = S;\n    impl std::ops::Deref for S { type Target = Hidden; fn deref(&self) -> &Hidden { &HIDDEN } }\n")
        b = []
        for p, t in enumerate(["T", "super::T", "inner::T", "mid::inner::T", f"{i}::mid::inner::T"]):
            b.append(self.uses(t, p))
        return (f"pub mod {i} {{ use crate::*;\n  {b[3]}\n  pub mod mid {{ use crate::{{fxstruct, V, hidden, shown}};\n  {b[2]}\n  pub mod inner {{ use crate::{{fxstruct, V, hidden, shown, Hidden, HIDDEN}};\n"
                f"{decl}  {b[0]}\n  pub mod child {{ use crate::{{hidden, shown}}; {b[1]} }}\n  }} }} }}\npub mod e{i} {{ use crate::{{{i}, hidden, shown}}; {b[4]} }}\n")

    def uses(self, t, p):
        if p >= PLACES[self.own]:
            return ""
        fl = dict(zip("abcde", OWN))
        return (f"pub fn place{p}(t: &{t}) {{ "
                + " ".join(f"shown(&t.{n});" if p < PLACES[v] else f"hidden(&t.{n});" for n, v in fl.items()) + " }")

    def extern_uses(self, i):
        return f"pub mod {i} {{ use args::{{hidden, shown}}; {self.uses(f'args::{i}::mid::inner::T', 5)} }}\n// fields {self.mode} {self.kind} {self.own} {self.level}\n"

    def count(self):
        return 30


class Extern:
    """The place in another crate"""

    def __init__(self, d, i):
        self.d, self.i = d, i

    def module(self, ident):
        return self.d.extern_uses(self.i)

    def count(self):
        return self.d.count()


HEAD = """use fieldx::fxstruct;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct V(pub u32);
pub struct Absent;
pub struct Hidden { pub a: Absent, pub b: Absent, pub c: Absent, pub d: Absent, pub e: Absent }
pub static HIDDEN: Hidden = Hidden { a: Absent, b: Absent, c: Absent, d: Absent, e: Absent };
pub struct Inval;
pub trait NotAbsent<X> {}
impl<T: ?Sized> NotAbsent<()> for T {}
impl NotAbsent<Inval> for Absent {}
pub fn shown<X, T: NotAbsent<X>>(_: &T) {}
pub fn hidden(_: &Absent) {}
pub fn seen<T>(_: T) {}
pub fn absent_all<const N: usize>(_: [fn() -> Absent; N]) {}
pub trait Candidates {
""" + "".join(f"    fn {n}() -> Absent {{ Absent }}\n" for n in NAMES.values()) + "}\nimpl<T> Candidates for T {}\n"


def kinds():
    for m in "psa":
        for k in ["none", "opt", "lazy"] + (["inner", "inner_opt"] if m == "p" else []):
            yield m, k


def generate(tier):
    seen = set()
    for m, k in kinds():
        for own in ("pub", "private") if (m, k) != ("s", "opt") else OWN:
            for l in itertools.product(LEVELS, repeat=4):
                n = sum(x != "none" for x in l)
                if tier == "quick" and n > (4 if (m, k, own) == ("s", "opt", "pub") else 3 if own == "pub" else 1):
                    continue
                yield Methods(m, k, own, *l)
        for own in OWN:
            yield Methods(m, k, own, *["none"] * 4)
    for m in "psa":
        for k in ["none", "opt", "lazy", "skip"] + (["inner"] if m == "p" else ["lock"]):
            for own in ("pub", "private"):
                for level in LEVELS:
                    yield Fields(m, k, own, level)


def external(tier):
    """For another crate: at most one level set"""
    for m, k in kinds():
        for l in itertools.product(LEVELS, repeat=4):
            if sum(x != "none" for x in l) <= (3 if tier != "quick" else 2 if (m, k) == ("s", "opt") else 1):
                yield Methods(m, k, "pub", *l)
        if k != "inner_opt":
            for level in ("none", "pub"):
                yield Fields(m, k, "pub", level)
