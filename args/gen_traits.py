"""C29: constructors and trait implementations are generated exactly when they are asked for or the documentation says so, and
what they make is what the declaration says."""
import itertools

MODES = {"p": "", "s": "sync", "a": "r#async"}
NEW = ["", "no_new", "no_new(off)"]
DEFAULT = ["", "default", "default(off)"]
BUILDER = ["", "builder", "builder(off)", "builder(required)"]
SERDE = ["", "serde", "serde(serialize(off))", "serde(deserialize(off))", "serde(off)"]
RC = ["", "rc", "rc(off)"]
LAZY = ["", "lazy"]
# of the field f; None: there is no field
KINDS = [None, "get(clone)", "get(clone), default(T::five())", "lazy, get(clone)", "lazy, get(clone), default(T::five())", "optional, get(clone)", "optional, get(clone), default(T::five())",
         "inner_mut, get(clone)", "inner_mut, get(clone), default(T::five())", "lock, get(clone)", "lock, get(clone), default(T::five())", "skip", "skip, default(T::five())", "skip, lazy", "builder, get(clone)",
         "lazy(off), get(clone)", "default(off, T::five()), get(clone)", "sync, lazy, get(clone)", "sync, optional, get(clone)", "get_mut, get(off), set"]
# with one half of serde off the user may derive that one; Drop is implemented by the user
DERIVE = ["", "Debug", "Clone, Debug", "Clone, Debug, Serialize", "Clone, Debug, Deserialize", "Drop"]


class Traits:
    def __init__(self, mode, new, default, builder, serde, rc, lazy, kind, derive):
        self.mode, self.new, self.default, self.builder, self.serde, self.rc, self.lazy_s, self.kind, self.derive = mode, new, default, builder, serde, rc, lazy, kind, derive

    def skip(self):
        return "skip" in (self.kind or "")

    def lazy(self):
        k = self.kind
        if k is None or self.skip() or "lazy(off)" in k:
            return False
        return "lazy" in k or self.lazy_s == "lazy"

    def given(self):
        return "default(T" in (self.kind or "")

    def has_new(self):
        return self.new != "no_new" and self.default != "default(off)"

    def sync(self):
        return self.mode != "p" or "sync" in (self.kind or "")

    def has_default(self):
        """None: it isn't specified"""
        if self.default:
            return self.default == "default"
        if self.has_new() or self.given():
            return True
        if self.lazy() and self.sync():
            return True if self.mode != "p" and "lazy" in self.kind else None
        return None if "skip, lazy" == self.kind else False

    def has_builder(self):
        if self.builder:
            return self.builder != "builder(off)"
        return "builder" in (self.kind or "")

    def serdes(self):
        s = self.serde
        return s not in ("", "serde(off)", "serde(serialize(off))"), s not in ("", "serde(off)", "serde(deserialize(off))")

    def users(self):
        return "Serialize" in self.derive, "Deserialize" in self.derive

    def rcs(self):
        return self.rc == "rc"

    def optional(self):
        return "optional" in (self.kind or "")

    def ok(self):
        k = self.kind or ""
        if self.mode == "p" and "lock" in k or self.mode != "p" and ("inner_mut" in k or "sync" in k):
            return False
        if self.lazy_s and any(x in k for x in ("optional", "lock", "inner_mut", "sync", "get_mut")):
            return False
        if self.builder == "builder(off)" and "builder" in k:
            return False
        se, de = self.serdes()
        if se and self.mode == "a" and self.lazy():
            return False
        if self.serde not in ("", "serde(off)") and self.rcs():
            return False
        if self.derive == "Drop" and self.serde not in ("", "serde(off)"):
            return False        # values are moved out of the object
        if any(self.users()):
            if self.serde != ("serde(serialize(off))" if self.users()[0] else "serde(deserialize(off))"):
                return False
            if self.rcs() or self.lazy() or self.optional() or "inner_mut" in k or "lock" in k:
                return False    # containers
        # serde's deserialization needs values of what it skips, and `new`
        if (se or de) and (self.skip() or self.has_default() is not True):
            return False
        if self.mode == "a" and "Clone" in self.derive and (self.lazy() or self.optional() or "lock" in k):
            return False
        if se and "Clone" not in self.derive:
            return False        # serde's `into`
        return True

    def module(self, i):
        k = self.kind
        m = MODES[self.mode]
        sargs = ", ".join(x for x in (m, self.new, self.default, self.builder, self.serde, self.rc, self.lazy_s) if x)
        se, de = self.serdes()
        d = self.has_default()
        if k is None or self.given() or self.lazy() or self.optional():
            ty = "T"
        else:
            ty = "D" if d is not False or self.skip() or de else "T"
        if k and "inner_mut" in k and se:
            ty = "D"
        kind = (k or "").replace("T::five", ty + "::five")
        a = "async " if self.mode == "a" else ""
        locked = self.mode == "a" and (self.lazy() or self.optional() or "lock" in kind)
        aw = ".await" if locked else ""
        see, made = [], 0
        add = lambda e, w: see.append(f"see!({e}, {w});")
        b = lambda x: str(bool(x)).lower()
        if d is not None:
            add("Probe::<S>::DEFAULT", b(d))
        add("Probe::<S>::CLONE", b("Clone" in self.derive))
        add("Probe::<S>::DEBUG", b("Debug" in self.derive))
        add("Probe::<S>::SERIALIZE", b(se or self.users()[0]))
        add("Probe::<S>::DESERIALIZE", b(de or self.users()[1]))
        own = f"{'Arc' if self.mode != 'p' or 'sync' in kind else 'Rc'}<S>" if self.rcs() else "S"
        val = lambda s: f"{s}.f" if self.skip() else f"{s}.f(){aw}" if "get(clone)" in kind else f"{s}.f"
        want = f"Some({ty}(5))" if self.given() and self.optional() else "None" if self.optional() else f"{ty}(5)" if self.given() else f"{ty}(7)" if self.lazy() else f"{ty}(0)"
        if self.has_new():
            made += 1
            see.append(f"{{ let s: {own} = S::new();" + (f" see!({val('s')}, {want});" if k else " let _ = s;") + " }")
        else:
            see.append("{ let _: Absent = S::new(); }")
        if d:
            made += 1
            see.append("{ let s: S = Default::default();" + (f" see!({val('s')}, {want});" if k and not (self.rcs() and self.lazy()) else " let _ = s;") + " }")
        if self.has_builder():
            free = k is None or self.given() or self.lazy() or self.optional() or self.skip()
            free = free and (k is None or self.builder != 'builder(required)' or self.skip())
            made += free + bool(k and not self.skip())
            see.append(f"{{ let b: Result<{own}, fieldx::error::FieldXError> = S::builder().build(); see!(b.is_ok(), {b(free)}); "
                       + (f"if let Ok(s) = b {{ see!({val('s')}, {want}); }} " if k else "") + "}")
            if k and not self.skip():
                w = f"Some({ty}(9))" if self.optional() else f"{ty}(9)"
                see.append(f"{{ let s: {own} = S::builder().f({ty}(9)).build().unwrap(); see!({val('s')}, {w}); }}")
        else:
            see.append("{ let _: Absent = S::builder(); }")
        derive = f"#[derive({self.derive})]\n" if self.derive else ""
        user = ""
        if self.derive == "Drop":
            derive = ""
            user = "impl Drop for S { fn drop(&mut self) { DROPS.set(DROPS.get() + 1) } }\n"
            see = ["DROPS.set(0);"] + see + [f"see!(DROPS.get(), {made});"]
        self.seen = len(see)
        impl = f"impl S {{ {a}fn build_f(&self) -> {ty} {{ {ty}(7) }} }}\n" if self.lazy() else ""
        field = f"#[fieldx({kind})] f: {ty}" if k else ""
        return (f"pub mod {i} {{\nuse super::*;\n#[fxstruct({sargs})]\n" + derive + f"pub struct S {{ {field} }}\n{impl}{user}impl Fallback for S {{}}\n"
                "pub async fn run() -> (u32, u32) {\n    let mut bad = 0;\n    macro_rules! see { ($e:expr, $w:expr) => { if $e != $w { bad += 1; } } }\n    "
                + "\n    ".join(see) + "\n    (bad, 0)\n}\n}\n")

    def count(self):
        return self.seen


def generate(tier):
    for a in itertools.product(MODES, NEW, DEFAULT, BUILDER, SERDE, RC, LAZY, KINDS, DERIVE):
        x = dict(zip(("mode", "new", "default", "builder", "serde", "rc", "lazy", "kind", "derive"), a))
        off = sum(v in ("no_new(off)", "builder(off)", "serde(off)", "rc(off)") for v in a if v)
        if off > 1 or x["derive"] == "Debug" and off:
            continue
        h = NEW.index(a[1]) + 2 * DEFAULT.index(a[2]) + 3 * BUILDER.index(a[3]) + SERDE.index(a[4]) + 5 * RC.index(a[5]) + KINDS.index(a[7]) + 4 * DERIVE.index(a[8])
        if tier == "quick" and (x["serde"] and x["builder"] or x["derive"] or x["rc"]) and h % 4:
            continue
        d = Traits(*a)
        if d.ok():
            yield d


HEAD = """use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use std::sync::Arc;
/// There is no default value of it
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct T(pub u32);
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct D(pub u32);
impl T { pub fn five() -> T { T(5) } }
impl D { pub fn five() -> D { D(5) } }
thread_local! { pub static DROPS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) } }
/// Inherent functions win over those of the trait
pub struct Absent;
pub trait Fallback { fn new() -> Absent { Absent } fn builder() -> Absent { Absent } }
pub struct Probe<T>(std::marker::PhantomData<T>);
pub trait No { const DEFAULT: bool = false; const CLONE: bool = false; const DEBUG: bool = false; const SERIALIZE: bool = false; const DESERIALIZE: bool = false; }
impl<T> No for Probe<T> {}
impl<T: Default> Probe<T> { pub const DEFAULT: bool = true; }
impl<T: Clone> Probe<T> { pub const CLONE: bool = true; }
impl<T: std::fmt::Debug> Probe<T> { pub const DEBUG: bool = true; }
impl<T: Serialize> Probe<T> { pub const SERIALIZE: bool = true; }
impl<T: serde::de::DeserializeOwned> Probe<T> { pub const DESERIALIZE: bool = true; }
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
