"""C23: attributes given by the `attributes*` arguments get to the items they are meant for, and nowhere else."""
import itertools

MODES = {"p": "", "s": "sync", "a": "r#async"}
NAMES = {"get": "f", "get_mut": "f_mut", "set": "set_f", "reader": "read_f", "writer": "write_f", "clearer": "clear_f",
         "predicate": "has_f"}
# cfg(any()) removes what it is put on
CFG = {"none": "", "yes": "attributes_fn(cfg(all()))", "no": "attributes_fn(cfg(any()))", "mixed": 'attributes_fn(doc = "x", cfg(all()), allow(clippy::all), cfg(any()))',
       "allow": 'attributes_fn(allow(unused, clippy::all), doc = "x", cfg(all()))'}


class Fn:
    """Which helpers remain; the settings `helper`, `shelper` are those of helper `h`, all other ones have none of their own"""

    def __init__(self, mode, kind, h, helper, field, shelper, other="none"):
        self.mode, self.kind, self.h, self.l, self.other = mode, kind, h, (helper, field, shelper), other

    def helpers(self):
        return [h for h in NAMES if self.mode != "p" or h not in ("reader", "writer")] + ["builder"]

    def here(self, h, fld):
        """Does the helper of the field exist?"""
        helper, field, shelper = self.l
        l = (helper if h == self.h else "none", field, shelper if h == self.h else "none") if fld == "f" else (
            self.other if h == self.h else "none", "none", shelper if h == self.h else "none")
        for v in l:
            if v != "none":
                return v in ("yes", "allow")
        return True

    def module(self, i):
        helper, field, shelper = self.l
        kind = {"opt": "optional", "lazy": "lazy"}[self.kind]
        arg = lambda h, v: f"{h}({CFG[v]})" if v != "none" else h
        sa = [MODES[self.mode]] + ([arg(self.h, shelper)] if shelper != "none" else []) + ["builder"] * (self.h != "builder" or shelper == "none")
        fa = [kind, CFG[field]] + [arg(h, helper if h == self.h else "none") for h in self.helpers()]
        ga = [kind] + [arg(h, self.other if h == self.h else "none") for h in self.helpers()]
        user = ""
        if self.kind == "lazy":
            asy = "async " if self.mode == "a" else ""
            user = f"impl S {{ {asy}fn build_f(&self) -> V {{ V(1) }} {asy}fn build_g(&self) -> V {{ V(1) }} }}\n"
        there, gone = [], []
        for fld in "fg":
            for h in self.helpers():
                n = "SBuilder::" + fld if h == "builder" else "S::" + NAMES[h].replace("f", fld) if h != "clearer" else f"S::clear_{fld}"
                (there if self.here(h, fld) else gone).append(n)
        return (f"pub mod {i} {{ use super::{{fxstruct, V, Absent}};\n#[fxstruct({', '.join(x for x in sa if x)})]\npub struct S {{\n"
                f"    #[fieldx({', '.join(x for x in fa if x)})] f: V,\n    #[fieldx({', '.join(ga)})] g: V }}\n{user}"
                f"fn there() {{ let _ = ({', '.join(there)}{',' if there else ''}); }}\n"
                f"fn gone() {{ use super::Candidates; super::absent_all([{', '.join(gone)}]); }}\n"
                f"pub async fn run() -> (u32, u32) {{ (0, 0) }}\n}}\n")

    def count(self):
        return len(self.helpers()) * 2


class Tag:
    """Attributes of generated structs and their fields"""

    def __init__(self, mode, rc, attrs, builder, serde, fbuilder, fserde, forward, impls):
        self.mode, self.rc, self.attrs, self.builder, self.serde = mode, rc, attrs, builder, serde
        self.fbuilder, self.fserde, self.forward, self.impls = fbuilder, fserde, forward, impls

    def ok(self):
        if self.rc and self.serde != "off":
            return False
        btag = self.builder == "own" or (self.builder == "on" and self.attrs)
        stag = self.serde == "own" or (self.serde == "on" and self.attrs)
        if self.fbuilder and not btag or self.fserde and not stag:
            return False
        # which attributes get forwarded is specified when something is listed
        if (self.serde == "off") != (self.forward == "off"):
            return False
        if self.fserde and self.forward == "struct":
            return False
        if "b" in self.impls and self.builder == "off":
            return False
        return stag or self.forward in ("off", "nothing")

    def module(self, i):
        sa = [MODES[self.mode], "rc" if self.rc else ""]
        if self.attrs:
            sa.append("attributes(derive(mark::Tagged), t(a))")
        if "a" in self.impls:
            sa.append("attributes_impl(mark::tag(a))")
        if self.builder != "off":
            x = ['attributes(doc = "x", derive(mark::Tagged), t(b))'] * (self.builder == "own") + ["attributes_impl(mark::tag(b))"] * ("b" in self.impls)
            sa.append(f"builder({', '.join(x)})" if x else "builder")
        fwd = {"off": "", "nothing": "forward_attrs(none)", "struct": "forward_attrs(t)", "field": "forward_attrs(t)"}[self.forward]
        if self.serde != "off":
            x = ['"Shadow"'] + ["attributes(allow(clippy::all), derive(mark::Tagged), t(c))"] * (self.serde == "own") + [fwd] * (self.forward in ("struct", "nothing"))
            sa.append(f"serde({', '.join(x)})")
        fa = ["get"]
        if self.fbuilder:
            fa.append('builder(attributes(doc = "x", t(d)))')
        x = ['attributes(doc = "x", t(e))'] * bool(self.fserde) + [fwd] * (self.forward == "field" or bool(self.fserde) and self.forward == "nothing")
        if x:
            fa.append(f"serde({', '.join(x)})")
        e = {}
        e["S"] = "f: to,ug; g: tp,uq;".strip()
        checks = [("S", " f: to,ug; g: tp;")]
        if self.builder != "off":
            b = "tb" if self.builder == "own" else "ta" if self.attrs else None
            checks.append(("SBuilder", None if b is None else b + (" f: td;" if self.fbuilder else "")))
        if self.serde != "off":
            c = "tc" if self.serde == "own" else "ta" if self.attrs else None
            ftags = sorted(["te"] * bool(self.fserde) + ["to"] * (self.forward in ("struct", "field")))
            gtags = ["tp"] * (self.forward == "struct")
            if self.forward == "field":
                gtags = None
            if c is not None:
                want = c + (f" f: {','.join(ftags)};" if ftags else "") + (f" g: {','.join(gtags)};" if gtags else "")
                checks.append(("Shadow", want))
            else:
                checks.append(("Shadow", None))
        t = [f"    if !eq(tags!({n}), {'None' if w is None else f'Some({chr(34)}{w}{chr(34)})'}) {{ bad += {10 ** k}; }}\n" for k, (n, w) in enumerate(checks)]
        consts = [("S::TAG_a", "a" in self.impls), ("S::TAG_b", False)]
        if self.builder != "off" and ("b" in self.impls or not self.impls):
            consts += [("SBuilder::TAG_b", "b" in self.impls), ("SBuilder::TAG_a", False)]
        t += [f"    if {n} != {str(v).lower()} {{ bad += {1000 * 10 ** k}; }}\n" for k, (n, v) in enumerate(consts)]
        # attributes of the other field are forwarded by a rule of its own there
        gattr = "" if self.forward == "field" else "#[t(p)] "
        sw = " f: to,ug;" + ("" if self.forward == "field" else " g: tp;")
        t[0] = f"    if !eq(tags!(S), Some(\"{sw}\")) {{ bad += 1; }}\n"
        return (f"pub mod {i} {{ use super::*;\n#[fxstruct({', '.join(y for y in sa if y)})]\n#[derive(Clone, mark::Tagged)]\npub struct S {{\n"
                f"    #[fieldx({', '.join(fa)})] #[t(o)] #[u(g)] f: V,\n    {gattr}g: V }}\n"
                f"pub async fn run() -> (u32, u32) {{\n    #[allow(unused)] use super::{{NoTags, Untagged}};\n    let mut bad = 0;\n{''.join(t)}    (bad, 0)\n}}\n}}\n")

    def count(self):
        return 4


def generate(tier):
    lv = ("none", "yes", "no")
    for mode in MODES:
        for kind in ("opt", "lazy"):
            for h in list(NAMES) + ["builder"]:
                if mode == "p" and h in ("reader", "writer"):
                    continue
                for a in itertools.product(lv, lv, lv):
                    yield Fn(mode, kind, h, *a)
                for a in [("mixed", "yes", "yes"), ("none", "mixed", "yes"), ("none", "none", "mixed"), ("allow", "no", "no"), ("none", "allow", "no"),
                          ("none", "none", "allow")]:
                    yield Fn(mode, kind, h, *a)
                for a in itertools.product(lv, lv, lv, lv[1:]):
                    if tier != "quick" or kind == "opt":
                        yield Fn(mode, kind, h, *a)
    for a in itertools.product(MODES, (False, True), (False, True), ("off", "on", "own"), ("off", "on", "own"), (False, True), (False, True),
                               ("off", "nothing", "struct", "field"), ("", "a", "b", "ab")):
        d = Tag(*a)
        if d.ok():
            yield d


HEAD = """use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
#[derive(Debug, Clone, Copy, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct V(pub u32);
pub trait Tags { const TAGS: &'static str; }
/// What has no Tags says so
pub struct Ask<T>(std::marker::PhantomData<T>);
impl<T: Tags> Ask<T> { pub fn tags() -> Option<&'static str> { Some(T::TAGS) } }
pub trait Untagged { fn tags() -> Option<&'static str> { None } }
impl<T> Untagged for Ask<T> {}
#[macro_export]
macro_rules! tags { ($t:ty) => { Ask::<$t>::tags() } }
pub fn eq(a: Option<&str>, b: Option<&str>) -> bool { a == b }
pub trait NoTags { const TAG_a: bool = false; const TAG_b: bool = false; }
impl<T> NoTags for T {}
pub struct Absent;
pub fn absent_all<const N: usize>(_: [fn() -> Absent; N]) {}
pub trait Candidates {
""" + "".join(f"    fn {n}() -> Absent {{ Absent }}\n" for f in "fg" for n in [f, f + "_mut", "set_" + f, "read_" + f, "write_" + f, "clear_" + f, "has_" + f]) + """}
impl<T> Candidates for T {}
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
