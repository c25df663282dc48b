"""C26: what a declaration means doesn't depend on the Cargo features it doesn't use; a disabled feature can't be asked for.

The group is generated for one set of features at a time (FEATURES, a list by commas)."""
import itertools, os
from gen_generics import Generic, KINDS, STRUCTS, HEAD

ALL = ("sync", "async", "serde")
SETS = [s for n in range(4) for s in itertools.combinations(ALL, n)]
ARG = {"sync": "sync", "async": "r#async", "serde": "serde"}
MODE_OF = {"sync": "sync", "async": "r#async", "plain": ""}
OFF = {"sync": ["sync(off)"], "async": ["r#async(off)"], "serde": ["serde(off)"]}


class Here(Generic):
    """A concrete struct with the mode given at either level, and arguments which are switched off"""
    def __init__(self, where, mode, sargs, fargs, soff="", foff=""):
        super().__init__(mode, "none", sargs, fargs)
        self.where, self.soff, self.foff = where, soff, foff

    def ok(self):
        if not super().ok():
            return False
        m, s, f = self.mode, self.s, self.f
        if self.where == "field":
            # other fields of the struct are those of a sync struct then
            if "inner_mut" in f or "lazy" in s or not any(x in f for x in ("lazy", "optional", "predicate", "lock", "reader")):
                return False
        if m and ("sync(off)" in self.soff + self.foff or "async(off)" in self.soff + self.foff):
            return False
        if "serde" in s and "serde(off)" in self.soff + self.foff:
            return False
        return True

    def module(self, i):
        t = super().module(i)
        m = self.mode
        add = ", ".join(x for x in (self.soff,) if x)
        old = f"#[fxstruct({', '.join(x for x in (m, self.s) if x)})]"
        assert old in t
        new = [x for x in ("" if self.where == "field" else m, self.s, add) if x]
        t = t.replace(old, f"#[fxstruct({', '.join(new)})]")
        old = f"#[fieldx({self.f})]"
        assert old in t
        new = [x for x in (m if self.where == "field" else "", self.f, self.foff) if x]
        return t.replace(old, f"#[fieldx({', '.join(new)})]")


def features():
    return tuple(x for x in os.environ["FEATURES"].split(",") if x)


def supported(tier):
    on = features()
    modes = [""] + [ARG[x] for x in ("sync", "async") if x in on]
    for where, m, s, f in itertools.product(("struct", "field"), modes, STRUCTS, KINDS):
        if "serde" in s and "serde" not in on or where == "field" and not m:
            continue
        if tier == "quick" and where == "field" and (KINDS.index(f) + STRUCTS.index(s)) % 3:
            continue
        d = Here(where, m, s, f)
        if d.ok():
            yield d
    # what is off can be said without the feature
    for x in ALL:
        for off, s, f in itertools.product(OFF[x], STRUCTS, KINDS):
            if "serde" in s and "serde" not in on:
                continue
            if tier == "quick" and (KINDS.index(f) + STRUCTS.index(s)) % 4:
                continue
            for d in (Here("struct", "", s, f, soff=off), Here("struct", "", s, f, foff=off)):
                if d.ok():
                    yield d


ASK = {"sync": ["sync"], "async": ["r#async"], "serde": ["serde", 'serde("Sh")', "serde(serialize(off))", "serde(default)"]}
ASK_FIELD = {"sync": ["sync"], "async": ["r#async"], "serde": ["serde", 'serde("n")', "serde(serialize(off))"]}


class Asks:
    def __init__(self, feature, sargs, fargs):
        self.feature, self.s, self.f = feature, sargs, fargs

    def module(self, i):
        fallible = "fallible" in self.f
        a = "async " if self.feature == "async" else ""
        r, v = ("Result<u32, E>", "Ok(Mk::mk(7))") if fallible else ("u32", "Mk::mk(7)")
        return (f"pub mod {i} {{\nuse super::*;\n#[fxstruct({self.s})]\n#[derive(Clone)]\npub struct S {{ #[fieldx({self.f})] f: u32, g: V }}\n"
                f"impl S {{ {a}fn build_f(&self) -> {r} {{ {v} }} {a}fn build_g(&self) -> V {{ V(1) }} fn five() -> u32 {{ 5 }} "
                f"fn post_build(self) -> Self {{ self }} fn after(self) -> Result<Self, E> {{ Ok(self) }} }}\n}}\n")

    def count(self):
        return 1

    def reason(self):
        return self.feature


def refused(tier):
    on = features()
    for x in ALL:
        if x in on:
            continue
        plain = [s for s in STRUCTS if "serde" not in s]
        for a in ASK[x]:
            for s, f in itertools.product(plain, KINDS):
                if x in ("sync", "async") and "inner_mut" in f:
                    continue
                if tier == "quick" and (KINDS.index(f) + STRUCTS.index(s)) % 5:
                    continue
                yield Asks(x, ", ".join(y for y in (a, s) if y), f)
                if s:
                    yield Asks(x, ", ".join(y for y in (s, a) if y), f)
        for a in ASK_FIELD[x]:
            for s, f in itertools.product(plain, KINDS):
                if x in ("sync", "async") and "inner_mut" in f:
                    continue
                if tier == "quick" and (KINDS.index(f) + STRUCTS.index(s)) % 5:
                    continue
                yield Asks(x, s, f"{a}, {f}")
                yield Asks(x, s, f"{f}, {a}")
