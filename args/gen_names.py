"""C19: which helpers exist and how they are called.

Declarations are enumerated exhaustively within the bounds below; for every one of them the reference model (taken from the
documented rules) says which methods exist.  The declaration is compiled with the real macro; a method which must exist is
called, of every other candidate name it is required that it resolves to a trait function which gives way to any inherent one.
"""
import itertools

HELPERS = ["get", "get_mut", "set", "reader", "writer", "clearer", "predicate", "builder"]
PREFIX = {"get": "", "get_mut": "", "set": "set_", "reader": "read_", "writer": "write_", "clearer": "clear_",
          "predicate": "has_", "builder": "", "lazy": "build_"}
F_FORMS = ["none", "on", "off", "name", "nameoff"]
S_FORMS = ["none", "on", "off", "pfx", "pfxoff"]
MODES = {"p": "", "s": "sync", "a": "r#async"}


def form(h, f, nm):
    return {"none": "", "on": h, "off": f"{h}(off)", "name": f'{h}("{nm}")', "pfx": f'{h}("{nm}")',
            "nameoff": f'{h}("{nm}", off)', "pfxoff": f'{h}("{nm}", off)', "opt_in": "builder(opt_in)",
            "opt_in_pfx": f'builder("{nm}", opt_in)'}[f]


def explicit(f):
    """on, off or silent"""
    return {"none": None, "on": True, "name": True, "pfx": True, "off": False, "nameoff": False, "pfxoff": False,
            "opt_in": True, "opt_in_pfx": True}[f]


class Decl:
    """F, S: {helper: form} of the first field and of the struct; the second field has no arguments"""

    def __init__(self, mode, kind, F, S, rename=False):
        self.mode, self.kind, self.F, self.S, self.rename = mode, kind, F, S, rename

    def ff(self, fld, h):
        return self.F.get(h, "none") if fld == "f" else "none"

    def on(self, fld, h):
        v = explicit(self.ff(fld, h))
        if v is not None:
            return v
        s = self.S.get(h, "none")
        if h == "builder" and s.startswith("opt_in"):
            return False
        v = explicit(s)
        if v is not None:
            return v
        if h == "get":
            return self.on(fld, "clearer") or self.on(fld, "predicate") or self.lazy(fld)
        return False

    def lazy(self, fld):
        v = explicit(self.ff(fld, "lazy"))
        if v is None:
            v = explicit(self.S.get("lazy", "none"))
        if v is None:
            v = fld == "f" and self.kind == "lazy"
        return v

    def optional(self, fld):
        if self.lazy(fld):
            return False
        return (fld == "f" and self.kind == "opt") or self.on(fld, "clearer") or self.on(fld, "predicate")

    def locked(self, fld):
        if self.mode == "p" and not self.any_lock():
            return False
        return self.optional(fld) or self.on(fld, "reader") or self.on(fld, "writer")

    def any_lock(self):
        return any(self.on(x, h) for x in "fg" for h in ("reader", "writer"))

    def base(self, fld):
        return "ren" if fld == "f" and self.rename else fld

    def name(self, fld, h):
        if fld == "f" and self.F.get(h, "none").startswith("name"):
            return "nm_" + h
        s = self.S.get(h, "none")
        p = f"px_{h}_" if "pfx" in s else PREFIX[h]
        return p + self.base(fld) + ("_mut" if h == "get_mut" else "")

    def has_builder(self):
        return any(explicit(self.ff(x, "builder")) for x in "fg") or bool(explicit(self.S.get("builder", "none")))

    def text(self):
        sa = [MODES[self.mode]] + [form(h, v, f"px_{h}_") for h, v in self.S.items()]
        fa = [{"lazy": "lazy", "opt": "optional", "none": ""}[self.kind]] if "lazy" not in self.F else []
        fa += [form(h, v, f"nm_{h}") for h, v in self.F.items()]
        if self.rename:
            fa.append('rename("ren")')
        sa, fa = [x for x in sa if x], [x for x in fa if x]
        return (f"#[fxstruct({', '.join(sa)})]\n", f"    #[fieldx({', '.join(fa)})]\n" if fa else "")

    def candidates(self):
        res, bld = [], []
        for b in dict.fromkeys(["f", "g", self.base("f")]):
            for h in HELPERS:
                sfx = "_mut" if h == "get_mut" else ""
                ps = [PREFIX[h]]
                if h in self.F or h in self.S:
                    ps += [f"px_{h}_", ""]
                for p in ps:
                    (bld if h == "builder" else res).append(p + b + sfx)
        for h in self.F:
            (bld if h == "builder" else res).append("nm_" + h)
        return sorted(set(res)), sorted(set(bld))

    def module(self, ident):
        st, fl = self.text()
        aw = ".await" if self.mode == "a" else ""
        asy = "async " if self.mode == "a" else ""
        present, uses, users = set(), [], []
        bpresent = []
        for x in "fg":
            lz, op, lk = self.lazy(x), self.optional(x), self.locked(x)
            ty = "Option<V>" if op else "V"
            w = aw if (lz or lk) else ""
            if lz:
                users.append(f"    {asy}fn {self.name(x, 'lazy')}(&self) -> V {{ V(1) }}\n")
                present.add(self.name(x, "lazy"))
                uses.append(f"wrapped(&s.{x});")
            for h in HELPERS:
                if not self.on(x, h):
                    continue
                n = self.name(x, h)
                if h == "builder":
                    bpresent.append(n)
                    continue
                present.add(n)
                c = f"s.{n}"
                uses.append({
                    "get": f"rd::<{ty}>(&{c}(){w});",
                    "get_mut": f"wr::<{ty}>(&mut {c}(){w});",
                    "set": f"let _: {'Option<V>' if lz or op else 'V'} = {c}(V(1)){w};",
                    "reader": f"rd::<{ty}>(&{c}(){w});",
                    "writer": (f"let _: Option<V> = {c}(){w}.store(V(2));" if lz else f"wr::<{ty}>(&mut {c}(){w});"),
                    "clearer": f"let _: Option<V> = {c}(){w};",
                    "predicate": f"let _: bool = {c}(){'' if lz else w};",
                }[h])
        cand, bcand = self.candidates()
        absent = ["S::" + n for n in cand if n not in present]
        if self.has_builder():
            uses.append("let mut b = S::builder();")
            for n in bpresent:
                uses.append(f"let mut b: SBuilder = b.{n}(V(3));")
            uses.append("let _ = b.build();")
            absent += ["SBuilder::" + n for n in bcand if n not in bpresent]
        else:
            absent.append("S::builder")
        return (f"pub mod {ident} {{\nuse super::*;\n{st}pub struct S {{\n{fl}    f: V,\n    g: V,\n}}\n"
                f"impl S {{\n{''.join(users)}}}\n"
                f"pub {asy}fn uses(s: &mut S) {{\n    " + "\n    ".join(uses) + "\n}\n"
                f"pub fn absent() {{\n    absent_all([{', '.join(absent)}]);\n}}\n}}\n")

    def count(self):
        return sum(len(c) for c in self.candidates())


def ok(d):
    """documented combinations only"""
    F, S = d.F, d.S
    if S.get("builder") in ("off", "pfxoff") and explicit(d.ff("f", "builder")):
        return False    # the struct says there is no builder at all
    if d.lazy("f") and d.kind == "opt" or S.get("lazy") in ("on", "pfx") and d.kind == "opt":
        return False    # exclude each other
    if d.mode == "p" and d.any_lock() and (d.lazy("f") or d.lazy("g")):
        return False
    if d.mode == "p" and d.kind == "opt" and d.any_lock():
        return False
    if d.mode == "p" and d.any_lock() and (d.optional("f") or d.optional("g")):
        return False    # fields of a struct without a mode: one of them is plain, another one is not
    return True


def singles():
    """one helper, all forms at both levels, all modes and kinds, with and without a new name"""
    for mode in "psa":
        for kind in ("none", "opt", "lazy"):
            for h in HELPERS:
                sforms = S_FORMS + (["opt_in", "opt_in_pfx"] if h == "builder" else [])
                for f, s, ren in itertools.product(F_FORMS, sforms, (False, True)):
                    yield Decl(mode, kind, {h: f} if f != "none" else {}, {h: s} if s != "none" else {}, ren)
        for f, s, ren, g in itertools.product(F_FORMS, S_FORMS, (False, True), ("none", "on", "off")):
            yield Decl(mode, "none", {"lazy": f} if f != "none" else {},
                       {k: v for k, v in (("lazy", s), ("get", g)) if v != "none"}, ren)


def pairs(modes, kinds):
    """two helpers"""
    ff, sf = F_FORMS[:4], S_FORMS[:4]
    for mode in modes:
        for kind in kinds:
            for a, b in itertools.combinations(HELPERS, 2):
                for fa, sa, fb, sb in itertools.product(ff, sf, ff, sf):
                    yield Decl(mode, kind, {h: x for h, x in ((a, fa), (b, fb)) if x != "none"},
                               {h: x for h, x in ((a, sa), (b, sb)) if x != "none"})


def generate(tier):
    ds = list(singles()) + list(pairs("s" if tier == "quick" else "psa", ["opt"] if tier == "quick" else ["none", "opt", "lazy"]))
    seen, res = set(), []
    for d in ds:
        k = (d.mode, d.kind, tuple(sorted(d.F.items())), tuple(sorted(d.S.items())), d.rename)
        if ok(d) and k not in seen:
            seen.add(k)
            res.append(d)
    return res


HEAD = """use fieldx::fxstruct;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct V(pub u32);
pub struct Absent;
pub fn absent_all<const N: usize>(_: [fn() -> Absent; N]) {}
pub fn rd<T>(_: &impl std::ops::Deref<Target = T>) {}
pub fn wr<T>(_: &mut impl std::ops::DerefMut<Target = T>) {}
// anything but V
pub struct Inval;
pub trait NotV<X> {}
impl<T: ?Sized> NotV<()> for T {}
impl NotV<Inval> for V {}
pub fn wrapped<X, T: NotV<X>>(_: &T) {}
"""


def head(decls):
    names = sorted({n for d in decls for c in d.candidates() for n in c} | {"builder"})
    return HEAD + ("pub trait Candidates {\n" + "".join(f"    fn {n}() -> Absent {{ Absent }}\n" for n in names)
                   + "}\nimpl<T> Candidates for T {}\n")
