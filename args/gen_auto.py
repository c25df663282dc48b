"""C25: objects, object builders and futures can be sent to and shared between threads exactly as their fields allow."""
import itertools

MODES = ["", "sync", "r#async"]
OVERRIDE = ["", "sync", "mode(sync)", "r#async", "mode(async)", "mode(plain)"]
# (Send, Sync)
TYPES = {"u32": (1, 1), "Cell<u32>": (1, 0), "OnlySync": (0, 1), "Rc<u32>": (0, 0)}
KINDS = ["get", "optional, get", "optional, lock(off), get", "lazy, get", "lazy, get(clone), fallible(error(E))", "lock, get", "reader, writer", "inner_mut, get", "optional, inner_mut, get",
         "lazy, get, get_mut, set, clearer, predicate", "optional, get(clone), set, clearer, predicate", "lock, get(clone), set", "lazy, reader, writer", "skip",
         "lazy, default(Make::make()), get", "lazy, clone, get, set, clearer, predicate", "optional, reader, writer, clearer, predicate",
         "lazy, get(clone), set, clearer, fallible(error(Far))"]


class Auto:
    """fields: (override, kind, type)"""
    def __init__(self, mode, sargs, *fields):
        self.mode, self.s, self.fields = mode, sargs, fields

    def modes(self, f):
        own = lambda f: 2 if "async" in f[0] else 1 if "sync" in f[0] else 0 if "plain" in f[0] else None
        if own(f) is None and not self.mode and any(own(x) for x in self.fields):
            return "s"      # one sync field makes a plain struct a sync one
        return "psa"[MODES.index(self.mode) if own(f) is None else own(f)]

    def rcs(self):
        return "rc" in self.s

    def storage(self, f):
        """Send, Sync of what holds the field"""
        s, y = TYPES[f[2]]
        k, m = f[1], self.modes(f)
        if k == "skip":
            return s, y
        locked = m != "p" and ("lock," in k or "lazy" in k or ("optional" in k and "lock(off)" not in k) or "reader" in k)
        if locked:
            return s, s and y
        if "lazy" in k or "inner_mut" in k:
            return s, 0
        return s, y

    def object(self):
        st = [self.storage(f) for f in self.fields]
        s, y = all(x[0] for x in st), all(x[1] for x in st)
        if self.rcs():
            if all(self.modes(f) == "p" or f[1] == "skip" for f in self.fields) and not self.mode:
                return False, False     # a weak reference of Rc
            return s and y, s and y
        return s, y

    def builder(self):
        ts = [TYPES[f[2]] for f in self.fields if f[1] != "skip"]
        return all(t[0] for t in ts), all(t[1] for t in ts)

    def ok(self):
        for f in self.fields:
            m, k = self.modes(f), f[1]
            if "inner_mut" in k and (m != "p" or f[0]):
                return False
            if m == "p" and ("lock" in k or "reader" in k):
                return False
            if k == "skip" and f[0]:
                return False
            if "clone" in k and f[2] == "Cell<u32>" and False:
                return False
            # async builders are called by futures which can be sent
            if m == "a" and "lazy" in k and (not self.object()[1] or TYPES[f[2]] != (1, 1)):
                return False
        return True

    def futures(self):
        out = []
        for n, f in zip("fgh", self.fields):
            k = f[1]
            if self.modes(f) != "a" or k == "skip" or TYPES[f[2]] != (1, 1) or not self.object()[1]:
                continue
            ms = [m for m, w in (("f", "get"), ("set_f", "set"), ("clear_f", "clearer"), ("has_f", "predicate"), ("read_f", "reader"), ("write_f", "writer")) if w in k.replace("get_mut", "")]
            lazy = "lazy" in k
            locked = lazy or "lock," in k or ("optional" in k and "lock(off)" not in k) or "reader" in k
            for m in ms:
                if not locked or m == "has_f" and lazy:
                    continue
                if m == "set_f" and False:
                    continue
                out.append(f"fut(s.{m.replace('f', n) if m != 'f' else n}({'Make::make()' if m == 'set_f' else ''}));".replace("clear_" + n, "clear_" + n))
            if lazy and "get_mut" in k:
                out.append(f"if false {{ fut(s.{n}_mut()); }}")
        return out

    def module(self, i):
        fs, impl = "", ""
        for n, f in zip("fgh", self.fields):
            fs += f"#[fieldx({', '.join(x for x in (f[0], f[1]) if x)})] {n}: {f[2]}, "
            if "lazy" in f[1]:
                a = "async " if self.modes(f) == "a" else ""
                r, v = (f"Result<{f[2]}, {'Far' if 'Far' in f[1] else 'E'}>", "Ok(Make::make())") if "fallible" in f[1] else (f[2], "Make::make()")
                impl += f"{a}fn build_{n}(&self) -> {r} {{ {v} }} "
        sargs = ", ".join(x for x in (self.mode, self.s) if x)
        b = self.builder() if self.s == "builder" else None
        fut = self.futures()
        see = [f"see!(Probe::<S>::SEND, {str(bool(self.object()[0])).lower()});", f"see!(Probe::<S>::SYNC, {str(bool(self.object()[1])).lower()});"]
        if b:
            see += [f"see!(Probe::<SBuilder>::SEND, {str(bool(b[0])).lower()});", f"see!(Probe::<SBuilder>::SYNC, {str(bool(b[1])).lower()});"]
        self.seen = len(see) + len(fut)
        return (f"pub mod {i} {{\nuse super::*;\n#[fxstruct({sargs})]\npub struct S {{ {fs}}}\nimpl S {{ {impl}}}\n"
                f"pub fn futures(s: &mut S) {{ {' '.join(fut)} }}\npub async fn run() -> (u32, u32) {{\n    let mut bad = 0;\n"
                "    macro_rules! see { ($e:expr, $w:expr) => { if $e != $w { bad += 1; } } }\n    " + "\n    ".join(see) + "\n    (bad, 0)\n}\n}\n")

    def count(self):
        return self.seen


def generate(tier):
    def one(*a):
        d = Auto(*a)
        if d.ok():
            yield d
    for m, s, o, k, t in itertools.product(MODES, ("builder", "rc", "rc, builder", ""), OVERRIDE, KINDS, TYPES):
        if tier == "quick" and not s:
            continue
        yield from one(m, s, (o, k, t))
    few = [KINDS[i] for i in (0, 1, 3, 5, 6, 7, 10, 13)]
    for m, s, k1, k2, t1, t2, o1, o2 in itertools.product(MODES, ("builder", "rc"), few, few, TYPES, TYPES, ("", "sync"), ("", "mode(plain)")):
        if tier == "quick" and (few.index(k1) + few.index(k2) + list(TYPES).index(t1) + 2 * list(TYPES).index(t2)) % 3:
            continue
        yield from one(m, s, (o1, k1, t1), (o2, k2, t2))


HEAD = """use fieldx::fxstruct;
use std::cell::Cell;
use std::rc::Rc;
#[derive(Clone, Default)]
pub struct OnlySync(pub std::marker::PhantomData<std::sync::MutexGuard<'static, u32>>);
#[derive(Debug, Clone)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") } }
impl std::error::Error for E {}
impl From<fieldx::error::FieldXError> for E { fn from(_: fieldx::error::FieldXError) -> Self { E } }
/// An error which can neither be sent nor shared; no object holds one
#[derive(Debug, Clone)]
pub struct Far(pub Rc<str>);
impl std::fmt::Display for Far { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Far") } }
impl std::error::Error for Far {}
impl From<fieldx::error::FieldXError> for Far { fn from(_: fieldx::error::FieldXError) -> Self { Far("".into()) } }
pub trait Make { fn make() -> Self; }
impl<T: Default> Make for T { fn make() -> T { T::default() } }
/// Inherent constants win over those of the trait
pub struct Probe<T>(std::marker::PhantomData<T>);
pub struct Share<T>(std::marker::PhantomData<T>);
pub trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T> No for Probe<T> {}
mod sends { impl<T: Send> super::Probe<T> { pub const SEND: bool = true; } }
mod syncs { impl<T: Sync> super::Probe<T> { pub const SYNC: bool = true; } }
pub fn fut<F: std::future::Future + Send>(_: F) {}
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
