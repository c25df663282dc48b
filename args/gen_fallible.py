"""C28: which lazy builders may fail and with which error; the error gets to the caller, leaves the field unset, and the next
call tries again."""
import itertools

MODES = {"p": "", "s": "sync", "a": "r#async"}
SFALL = ["", "fallible", "fallible(error(E))", "fallible(off)", "fallible(off, error(E))", "fallible(error(E), off)", "fallible(error(m::E1))"]
FFALL = ["", "fallible", "fallible(off)", "fallible(error(E2))", "fallible(off, error(E2))"]
# lazy at the struct, lazy of the field
LAZY = [("", "lazy"), ("lazy", ""), ("lazy", "lazy"), ("", ""), ("lazy", "lazy(off)")]
HELPERS = ["get", "get(clone)", "get(copy)", "get_mut", "get, predicate, clearer", "get, set", "reader", "get, writer", "get, optional", "lock, get", "inner_mut, get"]
G = ["lazy(off), get", "lazy", "lazy, fallible(off)", "lazy, fallible", "lazy, fallible(error(E2))"]


def error(t):
    return "m::E1" if "m::E1" in t else "E2" if "E2" in t else "E" if "error(E)" in t else None


class Fallible:
    def __init__(self, mode, where, sf, ff, lazy, h, g):
        self.mode, self.where, self.sf, self.ff, self.lazy, self.h, self.g = mode, where, sf, ff, lazy, h, g

    def is_lazy(self, own):
        return own == "lazy" or own == "" and self.lazy[0] == "lazy"

    def fails(self, ff, own):
        """The type of errors, None if it never fails, "?" if it isn't known"""
        if not self.is_lazy(own):
            return None
        t = ff if "fallible" in ff else self.sf
        if "fallible" not in t or "off" in t:
            return None
        return error(ff) or error(self.sf) or "?"

    def own_g(self):
        return self.g.split(",")[0]

    def e(self):
        return self.fails(self.ff, self.lazy[1])

    def eg(self):
        return self.fails(self.g, self.own_g())

    def ok(self):
        lazy = self.is_lazy(self.lazy[1])
        if self.where == "field" and self.mode == "p":
            return False
        if any(x in self.h for x in ("optional", "lock", "inner_mut")):
            if lazy or self.ff or self.lazy[0] or "inner_mut" in self.h and self.mode != "p" or "lock" in self.h and self.mode == "p":
                return False
        if any(x in self.h for x in ("reader", "writer")) and (self.mode == "p" or not lazy):
            return False
        if not lazy and ("predicate" in self.h or self.ff):
            return False
        return True

    def rejected(self):
        return "?" in (self.e(), self.eg())

    def builder(self, n, e, a, own):
        if not self.is_lazy(own):
            return ""
        return f"{a}fn build_{n}(&self) -> " + (f"Result<V, {e}> {{ turn().map_err({e}) }} " if e and e != "?" else "V { always() } ")

    def module(self, i):
        asy = self.mode == "a"
        m = MODES[self.mode]
        sargs = ", ".join(x for x in (m if self.where == "struct" else "", self.lazy[0], self.sf) if x)
        fargs = ", ".join(x for x in (m if self.where == "field" else "", self.lazy[1], self.h, self.ff, "" if self.is_lazy(self.lazy[1]) else "default(V(5))") if x)
        e, eg = self.e(), self.eg()
        ga = "async " if asy and self.where == "struct" else ""
        impl = self.builder("f", e, "async " if asy else "", self.lazy[1]) + self.builder("g", eg, ga, self.own_g())
        steps = self.steps("f", e, self.h, self.is_lazy(self.lazy[1]), asy, self.mode != "p") + ["reset();"]
        if self.is_lazy(self.own_g()):
            steps += self.steps("g", eg, "get", True, bool(ga), True)
        else:
            steps += ["{ let v: &V = s.g(); see!(v.0, 0); }"]
        self.seen = len(steps)
        return (f"pub mod {i} {{\nuse super::*;\n#[fxstruct({sargs})]\npub struct S {{ #[fieldx({fargs})] f: V, #[fieldx({self.g})] g: V }}\n"
                f"impl S {{ {impl}}}\npub async fn run() -> (u32, u32) {{\n    let (mut bad, mut s) = (0, S::new());\n    reset();\n"
                "    macro_rules! see { ($e:expr, $w:expr) => { if $e != $w { bad += 1; } } }\n    " + "\n    ".join(steps) +
                "\n    let _ = &mut s;\n    (bad, 0)\n}\n}\n")

    def steps(self, n, e, h, lazy, asy, locked):
        aw = ".await" if asy else ""
        if not lazy:
            if "get_mut" in h:
                return [f"{{ let v: &mut V = {'s.f_mut()' if 'lock' not in h else ''}; see!(v.0, 5); }}"]
            if "clone" in h or "copy" in h:
                return ["{ let v: V = s.f(); see!(v.0, 5); }"]
            if "optional" in h:
                aw = ".await" if asy else ""
                return [f"{{ let v = s.f(){aw}; let v: &Option<V> = &v; see!(v.as_ref().map(|v| v.0), Some(5)); }}"]
            if "lock" in h:
                return [f"{{ let v = s.f(){aw}; let v: &V = &v; see!(v.0, 5); }}"]
            if "inner_mut" in h:
                return ["{ let v: fieldx::Ref<V> = s.f(); see!(v.0, 5); }"]
            return ["{ let v: &V = s.f(); see!(v.0, 5); }"]
        get = f"s.{n}(){aw}"
        if "get_mut" in h:
            get = f"s.{n}_mut(){aw}"
        if "reader" in h:
            get = f"s.read_{n}(){aw}"
        has, out = f"see!(s.has_{n}(), $);", []
        p = "predicate" in h
        val = "V" if "clone" in h or "copy" in h else "u32"
        num = "" if val == "V" else ".map(|v| v.0)"
        if e:
            see = lambda w: f"{{ let r: Result<{val}, {e}> = {get}{num}; see!(r, {w}); }}"
            err = lambda k: f"Err({e}({k}))"
            good = lambda k: f"Ok(V({k}))" if val == "V" else f"Ok({k})"
        else:
            see = lambda w: f"{{ let v = {get}; let v: u32 = v.0; see!(v, {w}); }}" if val != "V" else f"{{ let v: V = {get}; see!(v.0, {w}); }}"
            err, good = None, lambda k: str(k)
        if p:
            out.append(has.replace("$", "false"))
        if e:
            out += [see(err(0)), see(err(1))]
            if p:
                out.append(has.replace("$", "false"))
                out.append(f"see!(s.clear_{n}(){aw}.map(|v| v.0), None);")
        if "set" in h:
            out += [f"see!(s.set_{n}(V(77)){aw}.map(|v| v.0), None);", see(good(77)), f"see!(turns(), {2 if e else 0});"]
            return out
        if "writer" in h:
            out += [f"{{ let mut w = s.write_{n}(){aw}; w.store(V(66)); }}", see(good(66)), f"see!(turns(), {2 if e else 0});"]
            return out
        k = 2 if e else 0
        out += [see(good(k)), see(good(k)), f"see!(turns(), {k + 1});"]
        if p:
            out.append(has.replace("$", "true"))
            out.append(f"see!(s.clear_{n}(){aw}.map(|v| v.0), Some({k}));")
            out.append(has.replace("$", "false"))
            if e:
                out += [see(err(3)), f"see!(turns(), 4);"]
            else:
                out += [see(good(1)), "see!(turns(), 2);"]
        if "get_mut" in h:
            out.append(f"{{ let mut v = {get}{'.unwrap()' if e else ''}; v.0 += 10; }}")
            out.append(see(good(k + 10)))
        return out

    def count(self):
        return getattr(self, "seen", 1)


def every(tier):
    for mode, where, sf, ff, lazy, h, g in itertools.product(MODES, ("struct", "field"), SFALL, FFALL, LAZY, HELPERS, G):
        if tier == "quick" and g != G[0] and (SFALL.index(sf) + FFALL.index(ff) + LAZY.index(lazy) + HELPERS.index(h) + G.index(g) + "psa".index(mode)) % 6:
            continue
        d = Fallible(mode, where, sf, ff, lazy, h, g)
        if d.ok():
            yield d


def accepted(tier):
    return (d for d in every(tier) if not d.rejected())


def rejected(tier):
    return (d for d in every(tier) if d.rejected())


HEAD = """use fieldx::fxstruct;
use std::cell::Cell;
thread_local! { static TURN: Cell<u32> = Cell::new(0); }
pub fn reset() { TURN.with(|t| t.set(0)); }
pub fn turns() -> u32 { TURN.with(|t| t.get()) }
/// Fails twice, and then every second time
pub fn turn() -> Result<V, u32> {
    let t = turns();
    TURN.with(|c| c.set(t + 1));
    if t < 2 || t % 2 == 1 { Err(t) } else { Ok(V(t)) }
}
pub fn always() -> V { let t = turns(); TURN.with(|c| c.set(t + 1)); V(t) }
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct V(pub u32);
macro_rules! errors { ($($e:ident)*) => { $(
    #[derive(Debug, Clone, PartialEq)]
    pub struct $e(pub u32);
    impl std::fmt::Display for $e { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") } }
    impl std::error::Error for $e {}
)* } }
errors! { E E2 }
pub mod m { errors! { E1 } }
// an error which could be converted must not be
impl From<E> for E2 { fn from(_: E) -> E2 { E2(999) } }
impl From<E2> for E { fn from(_: E2) -> E { E(999) } }
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
