"""C19: in which mode an accessor works (a copy, a clone, a reference, an Option with a reference), and where setters and
builder methods convert their argument."""
import itertools

MODES = {"p": "", "s": "sync", "a": "r#async"}
CC = {"none": "", "copy": "copy", "clone": "clone", "nocopy": "copy(off)", "noclone": "clone(off)"}
GET = {"none": "", "on": "get", "copy": "get(copy)", "clone": "get(clone)", "as_ref": "get(as_ref)"}


class Acc:
    """sget, scc, fget, fcc: settings of the struct and of the field"""

    def __init__(self, mode, kind, sget, scc, fget, fcc):
        self.mode, self.kind, self.sget, self.scc, self.fget, self.fcc = mode, kind, sget, scc, fget, fcc

    def result(self):
        if self.fget in ("copy", "clone", "as_ref"):
            return self.fget
        if self.fcc in ("copy", "clone"):
            return self.fcc
        m = self.sget if self.sget in ("copy", "clone", "as_ref") else self.scc if self.scc in ("copy", "clone") else "ref"
        return "ref" if self.fcc == "no" + m else m

    def ok(self):
        asref = "as_ref" in (self.sget, self.fget)
        return not asref or (self.mode == "p" and self.kind == "opt")

    def text(self):
        sa = [MODES[self.mode], GET[self.sget], CC[self.scc]]
        fa = [{"none": "", "opt": "optional", "lazy": "lazy", "inner": "inner_mut", "inner_opt": "inner_mut, optional",
               "lock": "reader"}[self.kind], GET[self.fget], CC[self.fcc], "" if self.kind == "lazy" else "default(C(7, 0))"]
        sa, fa = ", ".join(x for x in sa if x), ", ".join(x for x in fa if x)
        return f"#[fxstruct({sa})]", f"#[fieldx({fa})] " if fa else ""

    def module(self, ident):
        s, f = self.text()
        opt = "opt" in self.kind
        asy = self.mode == "a" and self.kind != "none"
        ty = "Option<C>" if opt else "C"
        r = self.result()
        get = "s.f()" + (".await" if asy else "")
        users = f"impl S {{ {'async ' if asy else ''}fn build_f(&self) -> C {{ C(7, 0) }} }}\n" if self.kind == "lazy" else ""
        if opt:
            pat = {"copy": f"let v: Option<C> = {get}; v.unwrap().1", "clone": f"let v: Option<C> = {get}; v.unwrap().1",
                   "as_ref": f"let v: Option<&C> = {get}; v.unwrap().1 + 10",
                   "ref": f"let g = {get}; rd::<{ty}>(&g).as_ref().unwrap().1 + 10"}[r]
        else:
            pat = {"copy": f"let v: C = {get}; v.1", "clone": f"let v: C = {get}; v.1",
                   "ref": f"let g = {get}; rd::<{ty}>(&g).1 + 10"}[r]
        want = {"copy": 0, "clone": 1, "ref": 10, "as_ref": 10}[r]
        return (f"pub mod {ident} {{\nuse super::*;\n{s}\npub struct S {{ {f}f: C, #[fieldx(get(off))] g: u8 }}\n{users}"
                f"pub async fn run() -> (u32, u32) {{\n    let s = S::new();\n    ({{ {pat} }}, {want})\n}}\n}}\n")

    def count(self):
        return 2    # kind of result, value


def accessors(tier):
    for mode in "psa":
        kinds = ["none", "opt", "lazy"] + (["inner", "inner_opt"] if mode == "p" else ["lock"])
        for k in kinds:
            for a in itertools.product(list(GET)[1:], CC, GET, CC):
                d = Acc(mode, k, *a)
                if d.ok():
                    yield d


INTO = {"none": "", "on": "into", "off": "into(off)"}


class Into:
    def __init__(self, mode, kind, sset, sbuilder, sinto, fset, fbuilder, finto):
        self.mode, self.kind = mode, kind
        self.S = {"set": sset, "builder": sbuilder, "into": sinto}
        self.F = {"set": fset, "builder": fbuilder, "into": finto}

    def arg(self, h, v):
        if h == "into":
            return INTO[v]
        return {"none": "", "plain": h, "on": f"{h}(into)", "off": f"{h}(into(off))"}[v]

    def into(self, h):
        for l in (self.F, self.S):
            for k in (h, "into"):
                if l[k] in ("on", "off"):
                    return l[k] == "on"
        return False

    def text(self):
        sa = [MODES[self.mode]] + [self.arg(k, v) for k, v in self.S.items()]
        fa = [{"none": "", "opt": "optional", "lazy": "lazy"}[self.kind]] + [self.arg(k, v) for k, v in self.F.items()]
        sa, fa = ", ".join(x for x in sa if x), ", ".join(x for x in fa if x)
        return f"#[fxstruct({sa})]", f"#[fieldx({fa})] " if fa else ""

    def module(self, ident):
        s, f = self.text()
        asy = self.mode == "a" and self.kind != "none"
        aw = ".await" if asy else ""
        users = f"impl S {{ {'async ' if asy else ''}fn build_f(&self) -> V {{ V(1) }} }}\n" if self.kind == "lazy" else ""
        v = {True: "Pre", False: "Default::default()"}
        return (f"pub mod {ident} {{\nuse super::*;\n{s}\npub struct S {{ {f}f: V }}\n{users}"
                f"pub {'async ' if asy else ''}fn uses(s: &mut S) {{\n    let _ = s.set_f({v[self.into('set')]}){aw};\n"
                f"    let b: SBuilder = S::builder().f({v[self.into('builder')]});\n}}\n}}\n")

    def count(self):
        return 2


def intos(tier):
    for mode in "psa":
        for k in ("none", "opt", "lazy"):
            if tier == "quick" and mode != "s" and k != "none":
                continue
            for a in itertools.product(("plain", "on"), ("plain", "on", "off"), INTO, ("none", "plain", "on"),
                                       ("none", "plain", "on", "off"), INTO):
                yield Into(mode, k, *a)


HEAD = """use fieldx::fxstruct;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct V(pub u32);
pub struct Pre;
impl From<Pre> for V { fn from(_: Pre) -> V { V(9) } }
// the second number tells clones
#[derive(Copy, Debug, Default, PartialEq)]
pub struct C(pub u32, pub u32);
impl Clone for C { fn clone(&self) -> C { C(self.0, 1) } }
pub fn rd<T>(x: &impl std::ops::Deref<Target = T>) -> &T { x }
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
