"""C20: which arguments may be used together.

All pairs of arguments (and the triples made of an excluded pair and a bystander) at the level of a struct, of a field and of a
helper.  Declarations of group `excl` must be rejected with an error inside of the declaration, those of group `okay` compile."""
import itertools

MODES = {"p": "", "s": "sync", "a": "r#async"}

# name -> forms which set it
VIS = {"public": ["public", "public(crate)"], "private": ["private"]}
HELPERS = {"get": ["get"], "get_mut": ["get_mut"], "set": ["set", "set(into)"], "reader": ["reader"], "writer": ["writer"],
           "clearer": ["clearer"], "predicate": ["predicate"], "builder": ["builder"]}
COMMON = {**VIS, **HELPERS, "copy": ["copy"], "clone": ["clone"], "lazy": ["lazy"], "optional": ["optional"],
          "inner_mut": ["inner_mut"], "lock": ["lock"], "fallible": ["fallible(off, error(E))", "fallible(error(E))"], "into": ["into"],
          "serde": ["serde"], "sync": ["sync"], "async": ["r#async"], "mode": ["mode(sync)", "mode(async)", "mode(plain)"]}
FIELD = {**COMMON, "rename": ['rename("nick")'], "default": ["default(V(7))"], "skip": ["skip"],
         "attributes_fn": ["attributes_fn(allow(unused))"]}
STRUCT = {**COMMON, "no_new": ["no_new"], "default": ["default"], "rc": ["rc", 'rc("me")'],
          "attributes_impl": ["attributes_impl(allow(unused))"]}

VISG = [["public"], ["private"]]
CCG = [["copy"], ["clone"]]
F_GROUPS = [VISG, CCG, [["lazy"], ["optional", "inner_mut"]], [["fallible"], ["lock", "optional", "inner_mut"]],
            [["sync"], ["async"], ["inner_mut"], ["mode"]]]
S_GROUPS = [VISG, CCG, [["lazy"], ["optional", "inner_mut"]], [["sync", "async"], ["inner_mut"], ["mode"]], [["serde"], ["rc"]]]


def excluded(groups, a, b):
    for g in groups:
        ia = [i for i, s in enumerate(g) if a in s]
        ib = [i for i, s in enumerate(g) if b in s]
        if ia and ib and ia != ib:
            return True
    return False


def off(f):
    """The disabling form"""
    n = f.split("(")[0]
    return {"fallible": "fallible(off)"}.get(n, f"{n}(off)")


class Decl:
    def __init__(self, sargs, fargs, note=""):
        self.s, self.f, self.note = [x for x in sargs if x], [x for x in fargs if x], note

    def has(self, n, args=None):
        # of the field when it says anything, of the struct otherwise
        for part in ([args] if args is not None else [self.f, self.s]):
            hit = [a for a in part if a == n or a.startswith(n + "(") or a.startswith("r#" + n)]
            if hit:
                return not any(a.startswith(n + "(") and "off" in a for a in hit)
        return False

    def specified(self):
        """Not claimed to be accepted: inner_mut and lazy from different levels, async lazy fields with serde, skipped fields to
        deserialize where no Default is available"""
        s, f = self.s, self.f
        if (self.has("lazy", f) and self.has("inner_mut", s)) or (self.has("lazy", s) and self.has("inner_mut", f)):
            return False
        if self.has("serde", s) and self.has("lazy") and self.asyncish():
            return False
        return not (self.has("serde", s) and self.has("no_new", s) and self.has("skip", f))

    def asyncish(self):
        for args in (self.f, self.s):
            if self.has("async", args) or "mode(async)" in args:
                return True
            if self.has("sync", args) or "mode(sync)" in args or "mode(plain)" in args:
                return False
        return False

    def text(self):
        return ", ".join(self.s + self.f)

    def module(self, i):
        user = ""
        lazy = self.has("lazy") and not self.has("skip")
        if lazy:
            a = "async " if self.asyncish() else ""
            b = "nick" if self.has("rename") else "f"
            r, v = ("Result<V, E>", "Ok(V(1))") if self.has("fallible") else ("V", "V(1)")
            user = f"    impl S {{ {a}fn build_{b}(&self) -> {r} {{ {v} }} }}\n"
        clone = "#[derive(Clone)] " if self.has("serde", self.s) else ""
        for p in ("done", "post_build"):
            if p in self.text():
                user += "    impl S { fn %s(self) -> %s { %s } }\n" % ((p,) + (("Result<Self, E>", "Ok(self)") if "error" in self.text() else ("Self", "self")))
        return (f"pub mod {i} {{ use super::*; // {self.note}\n    #[fxstruct({', '.join(self.s)})]\n    {clone}pub struct S {{\n"
                f"        #[fieldx({', '.join(self.f)})] f: V }}\n{user}}}\n")

    def count(self):
        return len(self.s) + len(self.f)


def pairs(table, groups):
    """(form, form, whether they exclude each other)"""
    for (a, fa), (b, fb) in itertools.combinations(table.items(), 2):
        for x, y in itertools.product(fa, fb):
            yield x, y, excluded(groups, a, b) and not "off," in x + y


def combine(tier):
    """-> (declaration, must it be rejected)"""
    for m in MODES:
        for x, y, bad in pairs(FIELD, F_GROUPS):
            yield Decl([MODES[m]], [x, y]), bad
            yield Decl([MODES[m]], [y, x]), bad
    for x, y, bad in pairs(STRUCT, S_GROUPS):
        yield Decl([x, y], []), bad
        yield Decl([y, x], []), bad
    for fs in STRUCT.values():
        for s in fs:
            for x, y, bad in pairs(FIELD, F_GROUPS):
                yield Decl([s], [x, y]), bad
    for (n, fs) in FIELD.items():
        for s in fs:
            for x, y, bad in pairs(STRUCT, S_GROUPS):
                yield Decl([x, y], [s]), bad
    yield from nested(tier)
    # the same argument, or one of the same group, at both levels
    for fx in STRUCT.values():
        for fy in FIELD.values():
            for x, y in itertools.product(fx, fy):
                yield Decl([x], [y]), False


# arguments of helpers
NEST = {**VIS, "attributes_fn": ["attributes_fn(allow(unused))"]}
NESTED = {h: NEST for h in ("lazy", "get_mut", "reader", "writer", "clearer", "predicate")}
NESTED["get"] = {**NEST, "copy": ["copy"], "clone": ["clone"], "as_ref": ["as_ref"]}
NESTED["set"] = {**NEST, "into": ["into"]}
_BUILDER = {**NEST, "into": ["into"], "required": ["required"], "attributes": ["attributes(allow(unused))"]}
NESTED_F = {**NESTED, "builder": _BUILDER, "serde": {"rename": ['"r"'], "default": ["default"], "serialize": ["serialize"],
            "deserialize": ["deserialize"], "attributes": ["attributes(allow(unused))"]}}
NESTED_S = {**NESTED, "builder": {**_BUILDER, "attributes_impl": ["attributes_impl(allow(unused))"], "opt_in": ["opt_in"],
            "post_build": ["post_build", "post_build(done)"], "error": ["error(E)"]},
            "rc": NEST,
            "serde": {**VIS, "shadow_name": ['shadow_name("Shadow")'], "default": ["default"], "serialize": ["serialize"],
                      "deserialize": ["deserialize"], "attributes": ["attributes(allow(unused))"],
                      "forward_attrs": ["forward_attrs(doc)"]}}
N_GROUPS = [VISG, [["copy"], ["clone"], ["as_ref"]]]


def nested(tier):
    for level, table in (("f", NESTED_F), ("s", NESTED_S)):
        for h, args in table.items():
            for m in MODES:
                def decl(x):
                    more = "optional" if h != "lazy" and "as_ref" in x else ""
                    return Decl([MODES[m], "serde" if h == "serde" else ""], [more, x]) if level == "f" else Decl([MODES[m], more, x], [])
                for fs in args.values():
                    for f in fs:
                        if m == "p" or "as_ref" not in f:
                            yield decl(f"{h}({f})"), False
                for x, y, bad in pairs(args, N_GROUPS):
                    if m == "p" or bad or "as_ref" not in x + y:
                        yield decl(f"{h}({x}, {y})"), bad
                        yield decl(f"{h}({y}, {x})"), bad


def malformed(level):
    """Unknown arguments, values which can't be meant, and repetitions"""
    table = STRUCT if level == "s" else FIELD
    for a, fs in table.items():
        n = "r#async" if a == "async" else a
        if a == "default" and level == "f" or a.startswith("attributes"):
            continue  # anything may be meant
        yield from (f"{n}(bogus)", f'{n} = "x"', f"{n}(1)", f"{n}(off, bogus)")
        for f in fs:
            yield f"{f}, {f}"
    yield from ("bogus", "bogus(1)", 'bogus = "x"', "bogus(off)", "Lazy", "1", '"lazy"', "lazy optional", "lazy::x")


def nested_malformed():
    for level, table in (("f", NESTED_F), ("s", NESTED_S)):
        for h, args in table.items():
            xs = ["bogus", "bogus(1)", 'bogus = "x"', "1", '"a", "b"', "Public", "public private", "off, bogus"]
            for a, fs in args.items():
                if a == "required" and level == "s":
                    pass
                xs += [f"{f}, {f}" for f in fs]
                if a in ("public", "private", "copy", "clone", "as_ref", "into", "required", "opt_in", "serialize", "deserialize"):
                    xs += [f"{a}(bogus)", f'{a} = "x"', f"{a}(1)", f'{a}("x")']
            others = {x for t in (NESTED_F, NESTED_S) for v in t.values() for x in v} - set(args)
            if level == "f" and h == "builder":
                xs += ["opt_in", "post_build", "post_build(done)", "error(E)"]
            xs += [x for x in ("copy", "clone", "as_ref", "into", "required", "opt_in", "optional", "lock", "shadow_name", "serialize",
                               "forward_attrs", "skip", "rc", "get", "set") if x not in args]
            for x in xs:
                ss = "serde" if h == "serde" else ""
                yield Decl([ss], [f"{h}({x})"]) if level == "f" else Decl([f"{h}({x})"], [])
    for x in ("public()", "public(off)", "public(self)", 'public("x")', "public = super", "public(super, crate)", "public(in_mod(crate))",
              "public(crte)", "public(1)", 'mode()', 'mode', 'mode("sync")', "mode(sync, async)", "mode = sync", "mode(r#sync)", "mode(Sync)"):
        yield Decl([x], [])
        yield Decl([], [x])
    for x in ("rename", "rename(1)", 'rename("a", "b")', "rename(name)", "fallible(E)", 'fallible("E")', 'fallible(error("E"))', "fallible(error)",
              "default(V(1), V(2))", "no_new", "rc", "attributes(allow(unused))", "attributes_impl(allow(unused))", "mode_sync", "accessor", "setter", "default_value"):
        yield Decl([], [x])
    for x in ('rename("x")', "skip", "attributes_fn(allow(unused))", "default(1)", 'default("x")', 'rc("a", "b")', "no_new(1)", "mode_sync", "accessor", "setter", "base_name", "fallible(E)",
              "builder(error)", "builder(error(E, E, E))", "builder(post_build(a, b))", 'builder(post_build("a b"))'):
        yield Decl([x], [])


def disabled():
    """An argument which is off contradicts nothing"""
    for groups, level in ((F_GROUPS, "f"), (S_GROUPS, "s")):
        table = FIELD if level == "f" else STRUCT
        for (a, fa), (b, fb) in itertools.combinations(table.items(), 2):
            if excluded(groups, a, b):
                for x, y in itertools.product(fa, fb):
                    for u, v in ((off(x), y), (x, off(y)), (off(x), off(y))):
                        if "mode(off" in u + v or "public(off" in u + v:
                            continue
                        for w in ([u, v], [v, u]):
                            yield Decl([], w) if level == "f" else Decl(w, [])


def rejected(tier):
    for d, bad in combine(tier):
        if bad:
            yield d
    for level, table, groups in (("f", FIELD, F_GROUPS), ("s", STRUCT, S_GROUPS)):
        for x, y, bad in pairs(table, groups):
            if bad:
                for z in itertools.chain.from_iterable(table.values()):
                    if z.split("(")[0] in (x.split("(")[0], y.split("(")[0]):
                        continue
                    for w in ([x, y, z], [x, z, y], [z, x, y]):
                        yield Decl([], w) if level == "f" else Decl(w, [])
    yield from nested_malformed()
    for x in malformed("s"):
        yield Decl([x], [])
    for x in malformed("f"):
        yield Decl([], [x])


def accepted(tier):
    yield from disabled()
    for d, bad in combine(tier):
        if not bad and d.specified():
            yield d


HEAD = """use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
#[derive(Debug, Clone, Copy, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct V(pub u32);
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") } }
impl std::error::Error for E {}
impl From<fieldx::error::FieldXError> for E { fn from(_: fieldx::error::FieldXError) -> Self { E } }
"""
