#!/usr/bin/env python3
"""Writes the structs under test and their adapters: gen.py OUTDIR"""
import itertools, os, sys

OUT = sys.argv[1]


class F:
    """A field: kind lazy|opt|val; acc ref|clone|copy|as_ref; level of each setting is in `attrs` (field) already."""

    def __init__(self, name, kind, ty="V", acc="ref", attrs=(), ops=(), fallible=False, init=None, deps=(), is_async=False,
                 locked=False, names=None, into=False, guard=False, needs_mut=(), extra="", base=None, build_deps=(), key=None, ser=True, de=True):
        self.name, self.kind, self.ty, self.acc, self.attrs, self.ops = name, kind, ty, acc, list(attrs), list(ops)
        self.fallible, self.init, self.deps, self.is_async, self.locked = fallible, init, list(deps), is_async, locked
        self.into, self.extra = into, extra
        self.key, self.ser, self.de = name if key is None else key, ser, de
        b = base or name
        self.names = dict(get=b, get_mut=f"{b}_mut", set=f"set_{b}", clear=f"clear_{b}", has=f"has_{b}",
                          rd=f"read_{b}", wr=f"write_{b}", build=f"build_{b}", b=b)
        self.names.update(names or {})

    def aw(self, op):
        """Is the helper async?"""
        if not self.is_async:
            return ""
        if self.kind == "lazy":
            return "" if op == "Has" else ".await"
        return ".await" if self.locked else ""

    def code(self, op):
        n, T = self.names, self.ty
        a = self.aw(op)
        mk = f"mk::<{T}>(w)"
        arg = "Pre(w)" if self.into else mk
        fall = self.kind == "lazy" and self.fallible
        if op in ("Get", "Rd"):
            e = f"o.{n['get' if op == 'Get' else 'rd']}(){a}"
            if self.kind == "opt":
                return f"Obs::O({e}.as_ref().map(|x| x.id()))"
            if fall:
                return f"match {e} {{ Ok(x) => Obs::V(x.id()), Err(e) => Obs::Err(e.0) }}"
            return f"Obs::V({e}.id())"
        if op == "Mut":
            e = f"o.{n['get_mut']}(){a}"
            if self.kind == "opt":
                return f"{{ let mut g = {e}; let old = g.as_ref().map(|x| x.id()); *g = Some({mk}); Obs::O(old) }}"
            body = f"let old = g.id(); *g = {mk}; Obs::V(old)"
            if fall:
                return f"match {e} {{ Ok(mut g) => {{ {body} }} Err(e) => Obs::Err(e.0) }}"
            return f"{{ let mut g = {e}; {body} }}"
        if op == "MutNone":
            return f"{{ let mut g = o.{n['get_mut']}(){a}; let old = g.as_ref().map(|x| x.id()); *g = None; Obs::O(old) }}"
        if op == "Set":
            e = f"o.{n['set']}({arg}){a}"
            return f"Obs::V({e}.id())" if self.kind == "val" else f"Obs::O({e}.map(|x| x.id()))"
        if op == "Clear":
            return f"Obs::O(o.{n['clear']}(){a}.map(|x| x.id()))"
        if op == "Has":
            return f"Obs::B(o.{n['has']}(){a})"
        wr = f"o.{n['wr']}(){a}"
        if op == "WSet":
            if self.kind == "lazy":
                return f"{{ let mut g = {wr}; let old = g.store({mk}); Obs::O(old.map(|x| x.id())) }}"
            if self.kind == "opt":
                return f"{{ let mut g = {wr}; let old = g.replace({mk}); Obs::O(old.map(|x| x.id())) }}"
            return f"{{ let mut g = {wr}; let old = g.id(); *g = {mk}; Obs::V(old) }}"
        if op == "WClear":
            if self.kind == "lazy":
                return f"{{ let g = {wr}; let old = g.clear(); Obs::O(old.map(|x| x.id())) }}"
            return f"{{ let mut g = {wr}; let old = g.take(); Obs::O(old.map(|x| x.id())) }}"
        if op == "WSetClear":
            s, c = ("g.store", "g.clear") if self.kind == "lazy" else ("g.replace", "g.take")
            return f"{{ let mut g = {wr}; let x = {s}({mk}).map(|x| x.id()); let y = {c}().map(|x| x.id()); Obs::O2(x, y) }}"
        if op == "WClearSet":
            s, c = ("g.store", "g.clear") if self.kind == "lazy" else ("g.replace", "g.take")
            return f"{{ let mut g = {wr}; let x = {c}().map(|x| x.id()); let y = {s}({mk}).map(|x| x.id()); Obs::O2(x, y) }}"
        raise Exception(op)

    def builder_fn(self, idx, fields, generic=False):
        if self.kind != "lazy":
            return ""
        T = "T" if generic and self.ty == "V" else self.ty
        deps = ""
        vs = []
        for d in self.deps:
            g = fields[d]
            e = f"self.{g.names['get']}(){g.aw('Get')}"
            if g.kind == "opt":
                e += ".as_ref().map_or(u64::MAX, |x| x.id())"
            elif g.kind == "lazy" and g.fallible:
                e += "?.id()"
            else:
                e += ".id()"
            deps += f"let d{d} = {e}; "
            vs.append(f"d{d}")
        asy = "async " if self.is_async else ""
        pause = "pause().await; " if self.is_async else ""
        if self.fallible:
            return f"{asy}fn {self.names['build']}(&self) -> Result<{T}, E> {{ {deps}{pause}try_built({idx}, &[{', '.join(vs)}]) }}"
        return f"{asy}fn {self.names['build']}(&self) -> {T} {{ {deps}{pause}built({idx}, &[{', '.join(vs)}]) }}"


LAZY_SYNC = ["Get", "Mut", "Set", "Clear", "Has", "Rd", "WSet", "WClear", "WSetClear", "WClearSet"]
LAZY_PLAIN = ["Get", "Mut", "Set", "Clear", "Has"]
OPT_PLAIN = ["Get", "Mut", "MutNone", "Set", "Clear", "Has"]
OPT_SYNC = OPT_PLAIN + ["Rd", "WSet", "WClear", "WSetClear", "WClearSet"]
VAL_PLAIN = ["Get", "Mut", "Set"]
VAL_SYNC = VAL_PLAIN + ["Rd", "WSet"]
KIND = dict(lazy="Kind::Lazy", opt="Kind::Opt", val="Kind::Val")


class Bin:
    def __init__(self, name):
        self.name, self.mods, self.n = name, [], 0

    def struct(self, args, fields, tags, ctors=("Ctor::New", "Ctor::Builder(!0)"), rc=None, derive=True, generic=None,
               impl="", neighbour=False, builder_ok=True, plain_new="S::new()", extra_items="", default=False):
        """rc: None | 'Rc' | 'Arc'"""
        self.n += 1
        if any(f.kind == 'lazy' and f.is_async for f in fields):
            derive = False  # FXProxyAsync has no Clone
        m = f"m{self.n}"
        fields = list(fields)
        fd = ""
        gdef, gimpl, guse, gwhere = {
            None: ("", "", "", ""),
            "T": ("<T: Par>", "<T: Par>", "<V>", ""),
            "Td": ("<T: Par = V>", "<T: Par>", "<V>", ""),
            "full": ("<'l, T: 'l, const N: usize = 2>", "<'l, T: 'l, const N: usize>", "<'static, V, 2>", " where T: Par"),
        }[generic]
        gpar = {None: "", "T": "<T>", "Td": "<T>", "full": "<'l, T, N>"}[generic]
        for f in fields:
            attrs = [a.replace("V::make", "T::mk") for a in f.attrs] if generic else f.attrs
            at = f"#[fieldx({', '.join(attrs)})] " if f.attrs else ""
            fd += f"        {at}{f.extra}{f.name}: {'T' if generic and f.ty == 'V' else f.ty},\n"
        if generic == "full":
            fd += "        #[fieldx(builder(off), get(off), set(off), get_mut(off), lazy(off), optional(off), reader(off), writer(off), clearer(off), predicate(off))] marker: std::marker::PhantomData<&'l [(); N]>,\n"
        args = list(args)
        fields = list(fields)
        der = "#[derive(Clone, PartialEq, Debug)]\n    " if derive and not rc else ""
        st = f"#[fxstruct({', '.join(args)})]\n    {der}struct S{gdef}{gwhere} {{\n{fd}    }}"
        name = f"{self.name}::{m}"
        ops = [(o, i) for i, f in enumerate(fields) for o in f.ops]
        obj_ops = []
        if derive and not rc:
            obj_ops = ["Fork", "Swap", "Eq", "EqSelf", "Debug"]
        elif "Ctor::Two" in ctors:
            obj_ops = ["Swap"]
        arms = "\n".join(f"                Op(K::{o}, {i}) => {fields[i].code(o)}," for o, i in ops)
        any_async = any(".await" in fields[i].code(o) for o, i in ops)
        body = f"match op {{\n{arms}\n                _ => unreachable!(),\n            }}"
        if any_async:
            body = f"block_on(async {{ {body} }})"
        ty = f"std::{'rc' if rc == 'Rc' else 'sync'}::{rc}<S{guse}>" if rc else f"S{guse}"
        opt_arms = ""
        bcalls = "".join(
            f"if m & {1 << i} != 0 {{ b = b.{f.names['b']}(mk::<{f.ty}>(given({i}))); }} " for i, f in enumerate(fields)
            if f.names["b"])
        has_builder = any("Builder" in c for c in ctors)
        make = [f"Ctor::New | Ctor::Two => {plain_new},"]
        make.append("Ctor::Default => S::default()," if default else "Ctor::Default => unreachable!(),")
        make.append(f"Ctor::Builder(m) => {{ #[allow(unused_mut)] let mut b = S::builder(); {bcalls} let _ = m; b.build().expect(\"build\") }}"
                    if has_builder else "Ctor::Builder(_) => unreachable!(),")
        serde = any(a.startswith("serde") for a in args)
        if serde:
            obj_ops.append("Serde")
        oref = "&self.0" if rc else "&mut self.0"
        fk = """
        fn fork(&self) -> Self { Obj(self.0.clone()) }
        fn equal(&self, o: &Self) -> bool { self.0 == o.0 }
        fn debug(&self) -> String { format!("{:?}", self.0) }""" if obj_ops and not rc and derive else ""
        if serde:
            fk += """
        fn serde(&self) -> Result<(String, Self), String> {
            let j = serde_json::to_string(&self.0).map_err(|e| e.to_string())?;
            let o = serde_json::from_str(&j).map_err(|e| e.to_string())?;
            Ok((j, Obj(o)))
        }"""
        fspecs = ", ".join(
            f"Field {{ name: \"{f.name}\", kind: {KIND[f.kind]}, tracked: {'true' if f.ty == 'V' else 'false'}, "
            f"fallible: {'true' if f.fallible else 'false'}, deps: &{f.deps}, init: {'Some(%d)' % f.init if f.init is not None else 'None'}, "
            f"key: \"{f.key}\", ser: {str(f.ser).lower()}, de: {str(f.de).lower()} }}"
            for f in fields)
        opspecs = ", ".join([f"Op(K::{o}, {i})" for o, i in ops] + [f"Op(K::{o}, 0)" for o in obj_ops])
        bf = "\n        ".join(x for x in (f.builder_fn(i, fields, generic) for i, f in enumerate(fields)) if x)
        src = st.replace("\\", "\\\\")
        self.mods.append(f"""
#[allow(unused, dead_code, clippy::all)]
mod {m} {{
    use fieldx::fxstruct;
    use seq::*;
    use seq::model::*;
    use serde::{{Deserialize, Serialize}};

    {st}

    impl{gimpl} S{gpar}{gwhere} {{
        {bf}
        {impl}
    }}
    {extra_items}

    pub struct Obj({ty});

    impl Object for Obj {{
        const SPEC: Spec = Spec {{
            name: "{name}",
            src: r####"{st}"####,
            fields: &[{fspecs}],
            ops: &[{opspecs}],
            ctors: &[{', '.join(ctors)}],
            tags: &[{', '.join('"%s"' % t for t in tags)}],
        }};
        fn make(ctor: Ctor) -> Self {{
            Obj(match ctor {{ {' '.join(make)} }})
        }}
        fn step(&mut self, op: Op, w: u64) -> Obs {{
            let o = {oref};
            {body}
        }}{fk}
    }}
}}
""")

    def write(self):
        with open(os.path.join(OUT, self.name + ".rs"), "w") as f:
            f.write("// written by gen.py\n")
            f.write("".join(self.mods))
            lst = ", ".join(f"seq::model::subject::<m{i + 1}::Obj>()" for i in range(self.n))
            f.write(f"\nfn main() {{\n    seq::main::main(vec![{lst}]);\n}}\n")


# struct-level arguments, field-level arguments, is it sync, is it async
MODES = dict(
    p=([], [], 0, 0), mp=(["mode(plain)"], [], 0, 0),
    s=(["sync"], [], 1, 0), ms=(["mode(sync)"], [], 1, 0),
    a=(["r#async"], [], 1, 1), ma=(["mode(async)"], [], 1, 1),
    fs=([], ["sync"], 1, 0), fms=([], ["mode(sync)"], 1, 0),
    fa=([], ["r#async"], 1, 1), fma=([], ["mode(async)"], 1, 1),
)

ACC = dict(ref="get", clone="get(clone)", copy="get(copy)", as_ref="get(as_ref)")


def lazy_field(mode, acc, fallible, rc, name="a", default=None, extra_attrs=(), names=None, into=False, level="f", **kw):
    sargs, fattrs, sync, asy = MODES[mode]
    ty = "C" if acc == "copy" else "V"
    ops = list(LAZY_SYNC if sync else LAZY_PLAIN)
    if rc and not sync:
        ops = ["Get", "Has"]
    helpers = ["lazy", ACC[acc]]
    if not (rc and not sync):
        helpers += ["get_mut", "set(into)" if into else "set", "clearer"]
    helpers += ["predicate"]
    if sync:
        helpers += ["reader", "writer"]
    if fallible:
        helpers.append("fallible(error(E))")
    f = F(name, "lazy", ty, acc, [], ops, fallible=fallible, is_async=bool(asy), into=into, names=names, init=default, **kw)
    fa = list(fattrs) + list(extra_attrs)
    sa = list(sargs)
    if level == "f":
        fa += helpers
    else:
        sa += helpers
    if default is not None:
        fa.append(f"default({ty}::make({default}))")
    f.attrs = fa
    return sa, f


def rc_kind(mode, rc):
    if not rc:
        return None
    return "Arc" if MODES[mode][2] else "Rc"


def gen_lazy(suffix, modes):
    b = Bin("lazy_" + suffix)
    for mode, acc, fallible, rc in itertools.product(modes, ["ref", "clone", "copy"], [False, True], [False, True]):
        if mode in ("mp", "ms", "ma", "fms", "fma") and (rc or acc == "copy"):
            continue
        sa, f = lazy_field(mode, acc, fallible, rc)
        b.struct(sa + ["builder"] + (["rc"] if rc else []), [f], ["lazy"], rc=rc_kind(mode, rc))
    for mode, acc, fallible in itertools.product(modes, ["ref", "clone", "copy"], [False, True]):
        # with a default value
        if mode not in ("p", "s", "a", "fs", "fa"):
            continue
        sa, f = lazy_field(mode, acc, fallible, False, default=77, into=(acc == "clone"))
        b.struct(sa + ["builder"], [f], ["lazy"], ctors=("Ctor::New", "Ctor::Builder(!0)", "Ctor::Builder(0)"))
        # settings at the struct level, with explicit names at the field level
        sa, f = lazy_field(mode, acc, fallible, False, level="s",
                           names=dict(get="the_a", set="put", clear="wipe", has="is_there", rd="look", wr="edit", build="make_a"),
                           extra_attrs=['get("the_a")', 'set("put")', 'clearer("wipe")', 'predicate("is_there")', 'lazy("make_a")']
                           + (['reader("look")', 'writer("edit")'] if MODES[mode][2] else []))
        # an explicit name doesn't change the mode of an accessor
        f.attrs = [x for x in f.attrs if not x.startswith("get(")] + [ACC[acc].replace("get(", 'get("the_a", ') if acc != "ref" else 'get("the_a")']
        b.struct(sa + ["builder"], [f], ["lazy"])
    # fields of different modes in one struct
    def mixed(sargs, *specs):
        fs = []
        for name, kind, fattrs, sync, asy in specs:
            if kind == "lazy":
                f = F(name, "lazy", attrs=fattrs + ["lazy", "get", "get_mut", "set", "clearer", "predicate"], ops=["Get", "Mut", "Clear"], is_async=asy)
            elif kind == "opt":
                f = F(name, "opt", attrs=fattrs + ["optional", "get", "get_mut", "set", "clearer"], ops=["Get", "Set"], is_async=asy, locked=sync)
            else:
                f = F(name, "val", attrs=fattrs + ["get", "get_mut", "set"], ops=["Get", "Mut"], is_async=asy, locked=sync, init=0)
            fs.append(f)
        for i, f in enumerate(fs):
            if f.kind == "lazy":
                # reads the one before it, which may only be async when it is itself
                j = i - 1
                if j >= 0 and fs[j].kind != "lazy" and not (fs[j].is_async and not f.is_async):
                    f.deps = [j]
        b.struct(sargs + ["builder"], fs, ["lazy", "opt", "val"], ctors=("Ctor::New", "Ctor::Builder(!0)"))
    if suffix == "p":
        mixed([], ("a", "lazy", [], 0, 0), ("b", "lazy", ["sync"], 1, 0))
        mixed([], ("a", "opt", [], 0, 0), ("b", "lazy", ["sync"], 1, 0), ("c", "lazy", [], 0, 0))
        mixed([], ("a", "val", ["lock"], 1, 0), ("b", "lazy", [], 0, 0), ("c", "opt", ["sync"], 1, 0))
        mixed([], ("a", "opt", ["inner_mut"], 0, 0), ("b", "lazy", ["sync"], 1, 0), ("c", "val", ["inner_mut"], 0, 0))
        mixed([], ("a", "val", [], 0, 0), ("b", "lazy", ["r#async"], 1, 1), ("c", "opt", ["sync"], 1, 0))
    elif suffix == "s":
        mixed(["sync"], ("a", "lazy", ["mode(plain)"], 0, 0), ("b", "lazy", [], 1, 0))
        mixed(["sync"], ("a", "opt", ["mode(plain)"], 0, 0), ("b", "lazy", [], 1, 0), ("c", "opt", [], 1, 0))
        mixed(["sync"], ("a", "lazy", [], 1, 0), ("b", "lazy", ["r#async"], 1, 1), ("c", "opt", ["r#async"], 1, 1))
        mixed(["sync"], ("a", "val", [], 0, 0), ("b", "lazy", [], 1, 0), ("c", "opt", ["lock(off)"], 0, 0))
    else:
        mixed(["r#async"], ("a", "opt", ["mode(plain)"], 0, 0), ("b", "lazy", [], 1, 1), ("c", "opt", [], 1, 1))
        mixed(["r#async"], ("a", "lazy", ["sync"], 1, 0), ("b", "lazy", [], 1, 1))
        mixed(["r#async"], ("a", "opt", ["mode(sync)"], 1, 0), ("b", "lazy", [], 1, 1), ("c", "val", ["lock", "mode(sync)"], 1, 0))
        mixed(["r#async"], ("a", "opt", ["lock(off)"], 0, 0), ("b", "lazy", ["sync"], 1, 0), ("c", "val", ["lock"], 1, 1))
    # type parameters
    for mode, generic in itertools.product(modes, ["T", "Td", "full"]):
        if mode not in ("p", "s", "a", "fs", "fa"):
            continue
        for acc, fallible, rc in [("ref", False, False), ("clone", True, False), ("ref", False, True)]:
            sa, f = lazy_field(mode, acc, fallible, rc, default=77 if fallible else None)
            b.struct(sa + ["builder"] + (["rc"] if rc else []), [f], ["lazy"], rc=rc_kind(mode, rc), generic=generic)
    # dependent builders
    for mode in modes:
        if mode not in ("p", "s", "a", "fs", "fa"):
            continue
        for acc, fallible, rc in itertools.product(["ref", "clone"], [False, True], [False, True]):
            sync = MODES[mode][2]
            sub = ["Get", "Set", "Clear"] if not (rc and not sync) else ["Get", "Has"]
            sa, fa_ = lazy_field(mode, acc, fallible, rc, "a")
            _, fb = lazy_field(mode, acc, fallible, rc, "b", deps=[0])
            _, fc = lazy_field(mode, acc, fallible, rc, "c", deps=[0, 1])
            for f in (fa_, fb, fc):
                f.ops = sub
            fc.ops = fc.ops[:2]
            b.struct(sa + ["builder"] + (["rc"] if rc else []), [fa_, fb, fc], ["lazy"], ctors=("Ctor::New",), rc=rc_kind(mode, rc))
        # reads an optional field and one that always has a value
        sync, asy = MODES[mode][2:]
        sa, f = lazy_field(mode, "ref", False, False, "a", deps=[1, 2])
        g = F("g", "opt", attrs=MODES[mode][1] + ["optional", "get", "set", "clearer"], ops=["Set", "Clear"], is_async=bool(asy), locked=bool(sync))
        h = F("h", "val", attrs=MODES[mode][1] + ["get", "set"] + (["lock"] if sync else []), ops=["Set"], is_async=bool(asy), locked=bool(sync), init=0)
        f.ops = ["Get", "Mut", "Clear"]
        b.struct(sa + ["builder"], [f, g, h], ["lazy"], ctors=("Ctor::New",))
        # independent neighbours
        sa, f = lazy_field(mode, "ref", False, False, "a")
        _, g = lazy_field(mode, "clone", True, False, "b")
        f.ops = ["Get", "Mut", "Set", "Clear", "Has"]
        g.ops = ["Get", "Mut", "Set", "Clear", "Has"]
        b.struct(sa + ["builder"], [f, g], ["lazy"], ctors=("Ctor::New", "Ctor::Builder(1)", "Ctor::Builder(2)"))
    b.write()


def opt_field(mode, acc, imp, rc=False, lock=None, inner=False, name="a", default=None, into=False, level="f", **kw):
    """imp: which arguments make it optional"""
    sargs, fattrs, sync, asy = MODES[mode]
    ty = "C" if acc == "copy" else "V"
    fattrs = list(fattrs)
    locked = bool(sync)
    if lock == "lock":
        locked, sync = True, 1
        fattrs.append("lock")
    elif lock == "off":
        locked, sync = False, 0
        fattrs.append("lock(off)")
    elif lock == "reader":
        locked, sync = True, 1
    helpers = [ACC[acc], "get_mut", "set(into)" if into else "set"]
    ops = ["Get", "Mut", "MutNone", "Set"]
    if rc and not sync and not inner:
        helpers, ops = [ACC[acc]], ["Get"]
    cl = not (rc and not sync and not inner)
    if "o" in imp:
        helpers.append("optional")
    if "c" in imp and cl:
        helpers.append("clearer")
        ops.append("Clear")
    if "p" in imp:
        helpers.append("predicate")
        ops.append("Has")
    if inner:
        helpers.append("inner_mut")
    if sync and locked:
        helpers += ["reader", "writer"]
        ops += ["Rd", "WSet", "WClear", "WSetClear", "WClearSet"]
    f = F(name, "opt", ty, acc, [], ops, is_async=bool(asy and locked), locked=locked, into=into, init=default, **kw)
    sa, fa = list(sargs), fattrs
    if level == "f":
        fa += helpers
    else:
        sa += helpers
    if default is not None:
        fa.append(f"default({ty}::make({default}))")
    f.attrs = fa
    return sa, f


def gen_opt(suffix, modes):
    b = Bin("opt_" + suffix)
    for mode in modes:
        plain = not MODES[mode][2]
        full = mode in ("p", "s", "a")
        for acc, imp in itertools.product(["ref", "clone", "copy", "as_ref"], ["ocp", "o", "c", "p", "cp"]):
            if not full and imp not in ("ocp", "c"):
                continue
            sa, f = opt_field(mode, acc, imp, into=(imp == "cp"))
            b.struct(sa + ["builder"], [f], ["opt"], ctors=("Ctor::New", "Ctor::Builder(!0)", "Ctor::Builder(0)"))
            if full and imp in ("ocp", "cp"):
                sa, f = opt_field(mode, acc, imp, level="s")
                b.struct(sa + ["builder"], [f], ["opt"], ctors=("Ctor::New", "Ctor::Builder(0)"))
        if plain:
            if mode == "p":
                for acc, imp in itertools.product(["ref", "clone", "copy"], ["ocp", "cp"]):
                    sa, f = opt_field(mode, acc, imp, inner=True, level="s")
                    b.struct(sa + ["builder"], [f], ["opt"], ctors=("Ctor::New", "Ctor::Builder(0)"))
            for acc, imp in itertools.product(["ref", "clone", "copy"], ["ocp", "o", "cp"]):
                for rc in (False, True):
                    sa, f = opt_field(mode, acc, imp, inner=True, rc=rc)
                    b.struct(sa + ["builder"] + (["rc"] if rc else []), [f], ["opt"], rc=rc_kind(mode, rc),
                             ctors=("Ctor::New", "Ctor::Builder(!0)", "Ctor::Builder(0)"))
            if mode == "p":
                for acc in ("ref", "clone", "copy"):
                    sa, f = opt_field(mode, acc, "ocp", lock="lock")
                    b.struct(sa + ["builder"], [f], ["opt"])
                    sa, f = opt_field(mode, acc, "ocp", lock="reader")
                    b.struct(sa + ["builder"], [f], ["opt"])
        if full:
            for acc in ("ref", "clone", "copy"):
                sa, f = opt_field(mode, acc, "ocp", default=77)
                b.struct(sa + ["builder"], [f], ["opt"], ctors=("Ctor::New", "Ctor::Builder(!0)", "Ctor::Builder(0)"))
                sa, f = opt_field(mode, acc, "ocp", level="s")
                b.struct(sa + ["builder"], [f], ["opt"])
                if not plain:
                    sa, f = opt_field(mode, acc, "ocp", rc=True)
                    b.struct(sa + ["builder", "rc"], [f], ["opt"], rc="Arc")
                    if mode == "s":
                        sa, f = opt_field(mode, acc, "ocp", lock="off")
                        b.struct(sa + ["builder"], [f], ["opt"])
            # type parameters
            for generic, inner in itertools.product(("T", "Td", "full"), (False, True) if plain else (False,)):
                sa, f = opt_field(mode, "ref", "ocp", inner=inner, default=77 if generic == "Td" else None)
                b.struct(sa + ["builder"], [f], ["opt"], ctors=("Ctor::New", "Ctor::Builder(!0)", "Ctor::Builder(0)"), generic=generic)
            # neighbours
            sa, f = opt_field(mode, "ref", "ocp")
            _, g = opt_field(mode, "clone", "ocp", name="b")
            for x in (f, g):
                x.ops = ["Get", "Mut", "Set", "Clear", "Has"]
            b.struct(sa + ["builder"], [f, g], ["opt"], ctors=("Ctor::New", "Ctor::Builder(1)", "Ctor::Builder(2)"))
            # optional next to lazy and always-valued
            sa, f = opt_field(mode, "ref", "ocp")
            _, g = lazy_field(mode, "clone", False, False, "b")
            _, h = val_field(mode, "ref", name="c")
            f.ops = ["Get", "Set", "Clear", "Has"]
            g.ops = ["Get", "Set", "Clear", "Has"]
            h.ops = ["Get", "Set", "Mut"]
            b.struct(sa + ["builder"], [f, g, h], ["opt", "lazy", "val"], ctors=("Ctor::New", "Ctor::Builder(!0)"))
    b.write()


def val_field(mode, acc, lock=None, inner=False, name="a", default=None, into=False, level="f", rc=False, **kw):
    sargs, fattrs, sync, asy = MODES[mode]
    ty = "C" if acc == "copy" else "V"
    fattrs = list(fattrs)
    helpers = [ACC[acc], "get_mut", "set(into)" if into else "set"]
    ops = list(VAL_PLAIN)
    locked = False
    if rc and not inner and not lock:
        helpers, ops = [ACC[acc]], ["Get"]
    if inner:
        helpers.append("inner_mut")
    if lock == "lock":
        locked = True
        helpers.append("lock")
    elif lock == "rw":
        locked = True
        helpers += ["reader", "writer"]
        ops = list(VAL_SYNC)
    elif lock == "reader":
        locked = True
        helpers += ["reader"]
        ops += ["Rd"]
    elif lock == "writer":
        locked = True
        helpers += ["writer"]
        ops += ["WSet"]
    f = F(name, "val", ty, acc, [], ops, is_async=bool(asy and locked), locked=locked, into=into,
          init=default if default is not None else 0, **kw)
    sa, fa = list(sargs), fattrs
    if level == "f":
        fa += helpers
    else:
        sa += helpers
    if default is not None:
        fa.append(f"default({ty}::make({default}))")
    f.attrs = fa
    return sa, f


def gen_val(suffix, modes):
    b = Bin("val_" + suffix)
    for mode in modes:
        plain = not MODES[mode][2]
        locks = [None, "lock", "rw", "reader", "writer"] if not plain or mode == "p" else [None]
        for acc, lock, into in itertools.product(["ref", "clone", "copy"], locks, [False, True]):
            if into and lock not in (None, "rw"):
                continue
            for level in "fs":
                if level == "s" and (into or mode.startswith("f")):
                    continue
                if level == "s" and plain and lock:
                    # struct level lock makes the struct sync
                    pass
                sa, f = val_field(mode, acc, lock, into=into, level=level)
                b.struct(sa + ["builder"], [f], ["val"])
        if plain:
            for acc, rc in itertools.product(["ref", "clone", "copy"], [False, True]):
                sa, f = val_field(mode, acc, inner=True, rc=rc, default=77 if rc else None)
                b.struct(sa + ["builder"] + (["rc"] if rc else []), [f], ["val"], rc=rc_kind(mode, rc))
                if mode == "p":
                    sa, f = val_field(mode, acc, inner=True, rc=rc, level="s")
                    b.struct(sa + ["builder"] + (["rc"] if rc else []), [f], ["val"], rc=rc_kind(mode, rc))
        sync = MODES[mode][2]
        if not mode.startswith("f"):
            for acc in ("ref", "clone", "copy"):
                sa, f = val_field(mode, acc, "rw" if sync else None, default=77, rc=True)
                b.struct(sa + ["builder", "rc"], [f], ["val"], rc=rc_kind(mode, True))
            # neighbours
            sa, f = val_field(mode, "ref", "rw" if sync else None)
            _, g = val_field(mode, "clone", "lock" if sync else None, name="b")
            _, h = val_field(mode, "copy", name="c")
            b.struct(sa + ["builder"], [f, g, h], ["val"])
        for generic in ("T", "Td", "full"):
            sa, f = val_field(mode, "ref", "rw" if sync else None, default=77)
            _, g = val_field(mode, "clone", "lock" if sync else None, name="b")
            for rc in (False, True):
                if rc and (mode.startswith("f") or not sync):
                    continue
                b.struct(sa + ["builder"] + (["rc"] if rc else []), [f, g] if not rc else [f], ["val"], generic=generic, rc=rc_kind(mode, rc))
    b.write()


def gen_ctor(suffix, modes):
    b = Bin("ctor_" + suffix)
    for mode in modes:
        sargs, fattrs, sync, asy = MODES[mode]
        forms = [
            ("u64", "default(41)", 41), ("String", 'default("s42")', 42), ("u64", "default(super::FORTY3)", 43),
            ("V", "default(super::v44())", 44), ("V", "default(V::new(45))", 45), ("V", "default(Self::v46())", 46),
            ("i32", "default(48)", 48), ("V", None, None), ("u64", None, None), ("String", None, None),
            ("V", "default(off, super::v44())", None),
        ]
        for kind in ("bare", "lock", "opt", "lazy", "inner", "optinner", "skip"):
            if kind in ("inner", "optinner") and sync:
                continue
            if kind == "lock" and not sync and mode != "p":
                continue
            for ty, form, val in forms:
                if form and "off" in form:
                    continue
                attrs = list(fattrs)
                ops = ["Get"]
                is_async, locked, init = bool(asy), False, val
                k = "val"
                if kind == "lock":
                    attrs += ["lock", "get", "set"]
                    ops += ["Set"]
                    locked = True
                elif kind in ("opt", "optinner"):
                    attrs += ["optional", "get", "set", "clearer", "predicate"] + (["inner_mut"] if kind == "optinner" else [])
                    ops += ["Set", "Clear", "Has"]
                    k, locked = "opt", bool(sync)
                elif kind == "lazy":
                    attrs += ["lazy", "get", "set", "clearer", "predicate"]
                    ops += ["Set", "Clear", "Has"]
                    k = "lazy"
                elif kind == "inner":
                    attrs += ["inner_mut", "get", "set"]
                    ops += ["Set"]
                elif kind == "skip":
                    attrs = ["skip"]
                    ops = ["Get"]
                else:
                    attrs += ["get", "set"]
                    ops += ["Set"]
                if k == "val" and init is None:
                    init = 0
                if form:
                    attrs.append(form)
                f = F("a", k, ty, "ref", attrs, ops, is_async=is_async and (k == "lazy" or locked), locked=locked, init=init)
                g = F("z", "val", "V", attrs=["get", "set", "default(V::new(49))"], ops=["Get", "Set"], init=49)
                impl = "fn v46() -> V { V::new(46) }"
                if kind == "skip":
                    impl += f" fn a(&self) -> &{ty} {{ &self.a }}"
                for how in ("new", "default", "no_new", "rc"):
                    if how != "new" and (form in ("default(41)", "default(V::new(45))") or ty in ("i32",)):
                        continue
                    if kind == "skip" and how != "new":
                        continue
                    args = list(sargs)
                    ctors = ("Ctor::New", "Ctor::Two")
                    kw = {}
                    if how == "default":
                        args.append("default")
                        ctors = ("Ctor::New", "Ctor::Default", "Ctor::Two")
                        kw["default"] = True
                    elif how == "no_new":
                        args += ["no_new", "default"]
                        ctors = ("Ctor::Default", "Ctor::Two")
                        kw["default"] = True
                        kw["plain_new"] = "S::default()"
                    elif how == "rc":
                        args.append("rc")
                        kw["rc"] = "Arc" if kind == "lock" else rc_kind(mode, True)
                        f2 = F("a", k, ty, "ref", attrs, ops, is_async=f.is_async, locked=locked, init=init)
                        if not (sync and (k != "val" or locked)) and kind not in ("lock",) and kind not in ("inner", "optinner"):
                            f2.ops = [o for o in ops if o in ("Get", "Has")]
                            if kind in ("lazy", "opt"):
                                pass
                        g2 = F("z", "val", "V", attrs=["get", "default(V::new(49))"], ops=["Get"], init=49)
                        b.struct(args, [f2, g2], ["ctor"], ctors=ctors, impl=impl, derive=False, **kw)
                        continue
                    b.struct(args, [f, g], ["ctor"], ctors=ctors, impl=impl, derive=False, **kw)
    b.mods.insert(0, "use seq::*;\nconst FORTY3: u64 = 43;\nfn v44() -> V { V::new(44) }\n")
    b.write()



# ------------------------------------------------------------------------------------------------- round trip by serde

def gen_serde(suffix, modes):
    b = Bin("serde_" + suffix)
    for mode in modes:
        sync, asy = MODES[mode][2:]

        def field(kind, name, acc="ref", ser="", fallible=False, deps=(), few=False):
            default = None
            if "off" in ser and kind in ("opt", "lazy") and acc == "clone":
                default = 90 + ord(name)
            if kind == "lazy":
                sa, f = lazy_field(mode, acc, fallible, False, name, deps=deps, default=default)
                few_ops = ["Get", "Set", "Clear"]
            elif kind in ("opt", "optinner"):
                sa, f = opt_field(mode, acc, "ocp", name=name, inner=kind == "optinner", default=default)
                few_ops = ["Get", "Set", "Clear"]
            elif kind == "optoff":
                sa, f = opt_field(mode, acc, "ocp", name=name, lock="off", default=default)
                few_ops = ["Get", "Set", "Clear"]
            else:
                lock = kind if kind in ("lock", "rw") else None
                sa, f = val_field(mode, acc, lock, inner=kind == "inner", name=name, default=90 + ord(name) if acc == "ref" else None)
                few_ops = ["Get", "Set"]
            if few:
                f.ops = [o for o in f.ops if o in few_ops]
            if ser == "off":
                f.attrs.append("serde(off)")
                f.key = ""
            elif ser == "seroff":
                f.attrs.append("serde(serialize(off))")
                f.ser = False
            elif ser == "deoff":
                f.attrs.append("serde(deserialize(off))")
                f.de = False
            elif ser == "name":
                f.attrs.append(f'serde("{name}_key")')
                f.key = f"{name}_key"
            elif ser == "rename":
                f.attrs.append(f'rename("{name}_new")')
                f.key = f"{name}_new"
                n2 = f.key
                f.names.update(get=n2, get_mut=f"{n2}_mut", set=f"set_{n2}", clear=f"clear_{n2}", has=f"has_{n2}",
                               rd=f"read_{n2}", wr=f"write_{n2}", build=f"build_{n2}", b=n2)
            return sa, f

        kinds = ["bare", "lock", "rw", "opt", "optoff", "lazy"] if sync else ["bare", "inner", "opt", "optinner", "lazy"]
        if asy:
            kinds.remove("lazy")
        # alone
        for kind, acc, ser in itertools.product(kinds, ["ref", "clone", "copy"], ["", "off", "seroff", "deoff", "name", "rename"]):
            if ser == "seroff" and kind not in ("opt", "optoff", "optinner", "lazy"):
                continue
            if acc == "copy" and ser not in ("", "off"):
                continue
            sa, f = field(kind, "a", acc, ser)
            if f.init is not None and f.kind != "val" and ser == "seroff":
                continue
            b.struct(sa + ["builder", "serde", "default"], [f], ["serde"], ctors=("Ctor::New", "Ctor::Builder(!0)"))
        # with neighbours
        sers = ["", "off", "", "deoff", "", "name", ""]
        i = 0
        for k1, k2 in itertools.product(kinds, kinds):
            i += 1
            sa, f = field(k1, "a", few=True, ser=sers[i % 7])
            _, g = field(k2, "b", few=True, acc="clone", ser=sers[(i // 7 + i) % 7])
            gen = [None, "T", None, "Td", None, "full"][i % 6]
            if f.key == "" and g.key == "":
                gen = None  # T isn't in use in the shadow struct
            b.struct(sa + ["builder", "serde", "default"], [f, g], ["serde"], ctors=("Ctor::New", "Ctor::Builder(!0)"), generic=gen)
        # dependent lazy fields
        if not asy:
            for fal, gen, ser in itertools.product([False, True], [None, "T"], ["", "off", "seroff"]):
                sa, f = field("lazy", "a", few=True, fallible=fal, ser=ser)
                _, g = field("lazy", "b", few=True, fallible=fal, deps=[0])
                _, h = field("lazy", "c", few=True, fallible=fal, deps=[0, 1])
                b.struct(sa + ["builder", "serde", "default"], [f, g, h], ["serde"], ctors=("Ctor::New",), generic=gen)
                b.struct(sa + ["builder", "serde", "default"], [h2 for h2 in rev([f, g, h])], ["serde"], ctors=("Ctor::New",), generic=gen)
    b.write()


SD = ("", "default", "str", "call", "path")


def de_struct(b, mode, specs, sdef="", one_way=""):
    """specs: (kind, type, serde default, naming, switch, fieldx default); sdef: struct level default"""
    sargs, fattrs, sync, asy = MODES[mode]
    b.n += 1
    m = f"m{b.n}"
    fd, fs, views, impl, items, bcalls = "", [], [], "", "", ""
    any_off = False
    only_const = sdef == "const"
    for i, (kind, ty, fdef, naming, switch, init) in enumerate(specs):
        name = "abc"[i]
        lazy, opt = kind == "lazy", kind in ("opt", "optoff", "optinner")
        at = list(fattrs) + ["get"]
        if kind == "lock":
            at.append("lock")
        elif kind == "rw":
            at += ["reader", "writer"]
        elif kind == "inner":
            at.append("inner_mut")
        elif opt:
            at.append("optional")
            if kind == "optinner":
                at.append("inner_mut")
            if kind == "optoff":
                at.append("lock(off)")
        elif lazy:
            at += ["lazy", "predicate"]
        acc, key = name, name
        if naming in ("rename", "both"):
            at.append(f'rename("{name}_ren")')
            acc = key = f"{name}_ren"
        sa = []
        if naming in ("serde", "both"):
            key = f"{name}-key"
            sa.append(f'"{key}"')
        if switch == "off":
            sa = ["off"]
            key = acc
        elif switch:
            sa.append({"seroff": "serialize(off)", "deoff": "deserialize(off)", "deon": "deserialize", "seron": "serialize",
                       "both_on": "serialize, deserialize"}[switch])
        off = switch in ("off", "deoff", "seron")
        any_off = any_off or off
        ser, de = switch not in ("off", "seroff", "deon"), not off
        dv = None
        if fdef and switch != "off":
            dv = 820 + i
            sty = f"Option<{ty}>" if lazy or opt else ty
            mkv = f"mk::<{ty}>({dv})"
            if fdef == "default":
                sa.append("default")
                dv = None if lazy or opt else 0
            elif fdef == "str":
                sa.append(f'default("d_{name}")')
                items += f"fn d_{name}() -> {sty} {{ {f'Some({mkv})' if lazy or opt else mkv} }}\n    "
            elif fdef == "call":
                sa.append(f"default(Self::d_{name}())")
                impl += f"fn d_{name}() -> {ty} {{ {mkv} }}\n        "
            else:
                ty = "u64"
                sa.append(f"default(D_{name.upper()})")
                items += f"const D_{name.upper()}: u64 = {dv};\n    "
        if sa:
            at.append(f"serde({', '.join(sa)})")
        if init:
            at.append(f"default({ty}::mk({860 + i}))")
        ini = 860 + i if init else (None if lazy or opt else 0)
        if off:
            miss = f"Missing::Is({opt_rs(ini)})"
        elif fdef:
            miss = f"Missing::Is({opt_rs(dv)})"
        elif sdef == "default":
            miss = f"Missing::Is({opt_rs(ini)})"
        elif sdef in ("str", "call", "const", "other"):
            miss = f"Missing::Is(Some({880 + i}))"
        elif sdef == "unset":
            miss = "Missing::Any" if lazy and not ini else f"Missing::Is({opt_rs(ini)})"
        elif lazy or opt:
            miss = "Missing::Is(None)"
        else:
            miss = "Missing::Error"
        # a plain field has its default for an absent value
        plain = not sync or kind == "optoff"
        if plain and (lazy or opt) and init and miss == "Missing::Is(None)":
            miss = f"Missing::Is({opt_rs(ini)})"
        null = f"Missing::Is({opt_rs(ini if plain else None)})" if lazy or opt else "Missing::Error"
        fs.append(f'SField {{ name: "{name}", key: "{key}", lazy: {str(lazy).lower()}, opt: {str(lazy or opt).lower()}, ser: {str(ser).lower()}, '
                  f'de: {str(de).lower()}, missing: {miss}, null: {null}, text: {str(ty == "String").lower()} }}')
        locked = kind in ("lock", "rw") or (sync and kind in ("opt", "lazy"))
        a = ".await" if asy and locked else ""
        e = f"self.{acc}(){a}"
        if opt:
            views.append(f"{e}.as_ref().map(|x| x.id())")
        elif lazy:
            views.append(f"if self.has_{acc}() {{ Some({e}.id()) }} else {{ None }}")
            impl += f"fn build_{acc}(&self) -> {ty} {{ built({i}, &[]) }}\n        "
        else:
            views.append(f"Some({e}.id())")
        fd += f"        #[fieldx({', '.join(at)})] pub {name}: {ty},\n"
        bcalls += f".{acc}(mk::<{ty}>({880 + i}))"
    sa = []
    if sdef == "default":
        sa.append("default")
    elif sdef == "str":
        sa.append('default("made")')
        items += f"fn made() -> S {{ S::builder(){bcalls}.build().unwrap() }}\n    "
    elif sdef == "call":
        sa.append("default(Self::made())")
        impl += f"fn made() -> Self {{ S::builder(){bcalls}.build().unwrap() }}\n        "
    elif sdef == "unset":
        sa.append("default(Self::new())")
    elif sdef == "other":
        sa += ['"Dup"', "default(Self::other())"]
        impl += "fn other() -> Other { Other(880) }\n        "
        items += "struct Other(u64);\n    impl From<Other> for Dup { fn from(o: Other) -> Self { Dup { " + ", ".join(
            f"{'abc'[i]}: {'Some(mk(o.0 + %d))' % i if s[0] in ('lazy', 'opt', 'optinner', 'optoff') else 'mk(o.0 + %d)' % i}"
            for i, s in enumerate(specs) if s[4] != "off") + " } } }\n    "
    elif sdef == "const":
        sa.append("default(MADE)")
        items += "const MADE: S = S { " + ", ".join(f"{'abc'[i]}: {880 + i}" for i in range(len(specs))) + " };\n    "
    if one_way:
        sa.append(one_way)
    args = list(sargs) + ["builder", f"serde({', '.join(sa)})" if sa else "serde"]
    if any_off or sdef in ("default", "unset"):
        args.append("default")
    st = f"#[fxstruct({', '.join(args)})]\n    #[derive(Clone)]\n    pub struct S {{\n{fd}    }}"
    v = f"vec![{', '.join(views)}]"
    if ".await" in v:
        v = f"block_on(async {{ {v} }})"
    b.mods.append(f"""
#[allow(unused, dead_code, clippy::all)]
mod {m} {{
    use fieldx::fxstruct;
    use seq::*;
    use seq::serdem::*;
    use serde::{{Deserialize, Serialize}};

    {st}

    impl S {{
        {impl}
        fn view(&self) -> Vec<Option<u64>> {{ {v} }}
    }}
    {items}
    pub struct Obj(S);

    impl SerdeObj for Obj {{
        const SPEC: SSpec = SSpec {{
            name: "{b.name}::{m}",
            src: r####"{st}"####,
            tags: &["de"],
            ser: {str(not one_way).lower()},
            fields: &[{', '.join(fs)}],
        }};
        fn de(json: &str) -> Result<Self, String> {{ serde_json::from_str(json).map(Obj).map_err(|e| e.to_string()) }}
        fn ser(&self) -> Result<String, String> {{ {'unreachable!()' if one_way else 'serde_json::to_string(&self.0).map_err(|e| e.to_string())'} }}
        fn view(&self) -> Vec<Option<u64>> {{ self.0.view() }}
    }}
}}
""")


def opt_rs(v):
    return "None" if v is None else f"Some({v})"


def gen_de(suffix, mode):
    b = Bin("de_" + suffix)
    sync, asy = MODES[mode][2:]
    kinds = ["bare", "lock", "rw", "opt", "optoff", "lazy"] if sync else ["bare", "inner", "opt", "optinner", "lazy"]
    if asy:
        kinds.remove("lazy")
    tys = ["V", "String", "u64"]
    names = ["", "rename", "serde", "both"]
    switches = ["", "off", "seroff", "deoff", "deon", "seron", "both_on"]
    sdefs = ["", "default", "str", "call", "unset", "other"]
    n = 0
    for kind, fdef, switch in itertools.product(kinds, SD, switches):
        if switch == "off" and fdef:
            continue
        n += 1
        init = kind in ("bare", "lock", "rw", "inner") and n % 2 == 0 or switch == "off" and n % 3 != 0
        de_struct(b, mode, [(kind, tys[n % 3], fdef, "", switch, init)])
    for kind, fdef, sdef, init in itertools.product(kinds, SD, sdefs[1:], (False, True)):
        n += 1
        if init and sdef not in ("default", "unset") and kind not in ("opt", "optoff", "optinner", "lazy"):
            continue
        de_struct(b, mode, [(kind, tys[n % 3], fdef, "", "", init)], sdef=sdef)
    for kind, fdef, switch in itertools.product(kinds, SD, switches):
        if kind in ("opt", "optoff", "optinner", "lazy") and switch != "off":
            n += 1
            de_struct(b, mode, [(kind, tys[n % 3], fdef, "", switch, True)])
    for kind, naming, switch in itertools.product(kinds, names[1:], switches):
        n += 1
        de_struct(b, mode, [(kind, tys[n % 3], "", naming, switch, False)])
    # three fields
    for i in range(120):
        specs = []
        for j in range(3):
            x = i * 3 + j
            k = kinds[(x * 7 + i) % len(kinds)]
            specs.append((k, tys[(x + i) % 3], SD[(x // 2 + i * j) % 5], names[(x // 3 + j * 5) % 4], switches[(x * 3 + i // 7) % 7] if j == i % 3 else "",
                          x % 2 == 0))
        de_struct(b, mode, specs, sdef=sdefs[(i + i // 5) % 6], one_way=["serialize(off)", "deserialize"][i % 2] if i % 9 == 4 and sdefs[(i + i // 5) % 6] not in ('str', 'call', 'unset') else '')
    if not sync:
        de_struct(b, mode, [("bare", "u64", "", "", "", False)] * 3, sdef="const")
        de_struct(b, mode, [("bare", "u64", "", "rename", "", False), ("bare", "u64", "call", "serde", "", False)], sdef="const")
    write_subjects(b, "seq::serdem::subject")


def rev(fs):
    """The same fields declared the other way round"""
    n = len(fs)
    import copy
    r = []
    for f in reversed(fs):
        f = copy.copy(f)
        f.deps = [n - 1 - d for d in f.deps]
        r.append(f)
    return r


# ------------------------------------------------------------------------------------------------------- object builder

class BF:
    """A field of a struct with object builder"""

    def __init__(self, mode, kind, setting, name, struct=""):
        sargs, fattrs, sync, asy = MODES[mode]
        self.name, self.kind, self.setting = name, kind, setting
        self.method = struct_prefix(struct) + name
        at = list(fattrs) + ["get"]
        self.lazy, opt = kind == "lazy", kind in ("opt", "optinner", "optoff")
        if kind == "lock":
            at.append("lock")
        elif kind == "rw":
            at += ["reader", "writer"]
        elif kind == "inner":
            at.append("inner_mut")
        elif opt:
            at.append("optional")
            if kind == "optinner":
                at.append("inner_mut")
            if kind == "optoff":
                at.append("lock(off)")
        elif kind == "lazy":
            at += ["lazy", "predicate"]
        b = None
        self.into = "into" in struct
        self.settable, req = True, False
        self.init = None if (self.lazy or opt) else 0
        if setting in ("off", "offdef"):
            b, self.settable = "builder(off)", False
        elif setting in ("req", "reqdef"):
            b, req = "builder(required)", True
        elif setting in ("reqoff", "reqoffdef"):
            b, struct = "builder(required(off))", struct.replace("required", "")
        elif setting == "into":
            b, self.into = "builder(into)", True
        elif setting == "intooff":
            b, self.into = "builder(into(off))", False
        elif setting == "named":
            b, self.method = f'builder("give_{name}")', f"give_{name}"
        elif setting == "on":
            b = "builder"
        if "def" in setting:
            at.append(f"default({'Self::val' if setting in ('selfdef', 'offdef') else 'V::make'}({60 + ord(name[0]) - 97}))")
            self.init = 60 + ord(name[0]) - 97
        if "opt_in" in struct and not b:
            self.settable = False
        if "required" in struct and self.settable:
            req = True
        if b:
            at.append(b)
        self.required = self.settable and (req or (self.init == 0))
        self.attrs = at
        # ways to look at it
        locked = kind in ("lock", "rw") or (sync and kind in ("opt", "lazy"))
        a = ".await" if asy and locked else ""
        e = f"self.{name}(){a}"
        if opt:
            self.view = f"{e}.as_ref().map(|x| x.id())"
        elif self.lazy:
            self.view = f"if self.has_{name}() {{ Some({e}.id()) }} else {{ None }}"
        else:
            self.view = f"Some({e}.id())"
        self.pview = f"if self.has_{name}() {{ Some(1) }} else {{ None }}" if self.lazy else self.view
        self.build = ""
        if self.lazy:
            self.build = f"{'async ' if asy else ''}fn build_{name}(&self) -> V {{ built(0, &[]) }}"


def struct_prefix(struct):
    return "with_" if "with_" in struct else ""


def build_struct(b, mode, fields, sb="", tags=("builder",), rc=False, post=None, err=None):
    """sb: arguments of the struct's builder; post: None | '' | name; err: None | into | variant"""
    sargs, fattrs, sync, asy = MODES[mode]
    b.n += 1
    m = f"m{b.n}"
    args = list(sargs)
    bargs = [sb] if sb else []
    if post is not None:
        bargs.append(f"post_build({post})" if post else "post_build")
    if err:
        bargs.append("error(BE, BE::Unset)" if err == "variant" else "error(BE)")
    args.append(f"builder({', '.join(bargs)})" if bargs else "builder")
    if rc:
        args.append("rc")
    fd = "".join(f"        #[fieldx({', '.join(f.attrs)})] {f.name}: V,\n" for f in fields)
    st = f"#[fxstruct({', '.join(args)})]\n    pub struct S {{\n{fd}    }}"
    rct = rc_kind(mode, rc)
    if rc and (sync or any(f.kind in ("lock", "rw") for f in fields)):
        rct = "Arc"
    ty = f"std::{'rc' if rct == 'Rc' else 'sync'}::{rct}<S>" if rc else "S"

    def vec(exprs):
        body = f"vec![{', '.join(exprs)}]"
        return f"block_on(async {{ {body} }})" if ".await" in body else body

    last = fields[-1].name
    pfn = ""
    if post is not None:
        addr = "std::sync::Weak::as_ptr(&self.myself_downgrade()) as usize" if rct == "Arc" else "std::rc::Weak::as_ptr(&self.myself_downgrade()) as usize"
        if not rc or err:
            addr = "0"
        ok, ret = ("Ok(self)", "Result<Self, BE>") if err else ("self", "Self")
        er = "PostOut::Err(e) => return Err(BE::User(e))," if err else ""
        pfn = f"""fn {post or 'post_build'}(mut self) -> {ret} {{
            match post(self.pview(), {addr}, {'true' if err else 'false'}) {{
                PostOut::Changed(v) => self.{last} = V::make(v),
                {er}
                _ => (),
            }}
            {ok}
        }}"""
    fs = ", ".join(f'BField {{ name: "{f.name}", lazy: {str(f.lazy).lower()}, tracked: true, settable: {str(f.settable).lower()}, '
                   f'required: {str(f.required).lower()}, init: {f"Some({f.init})" if f.init is not None else "None"} }}' for f in fields)
    arms = " ".join(f"{i} => b.{f.method}({'Pre(v)' if f.into else 'V::make(v)'})," for i, f in enumerate(fields) if f.settable)
    P = "Post::No" if post is None else "Post::Fallible" if err else "Post::Plain"
    R = {None: "Rep::Std", "into": "Rep::Into", "variant": "Rep::Variant"}[err]
    addr_fn = ""
    if rc:
        addr_fn = f"fn addr(&self) -> (usize, usize) {{ (std::{'rc' if rct == 'Rc' else 'sync'}::{rct}::as_ptr(&self.0) as usize, self.0.myself().map_or(0, |m| std::{'rc' if rct == 'Rc' else 'sync'}::{rct}::as_ptr(&m) as usize)) }}"
    b.mods.append(f"""
#[allow(unused, dead_code, clippy::all)]
mod {m} {{
    use fieldx::fxstruct;
    use seq::*;
    use seq::buildm::*;

    {st}

    impl S {{
        {' '.join(f.build for f in fields)}
        fn view(&self) -> Vec<Option<u64>> {{ {vec(f.view for f in fields)} }}
        fn val(x: u64) -> V {{ V::make(x) }}
        fn pview(&self) -> Vec<Option<u64>> {{ {vec(f.pview for f in fields)} }}
        {pfn}
    }}

    pub struct Obj({ty});

    impl BuildObj for Obj {{
        const SPEC: BSpec = BSpec {{
            name: "{b.name}::{m}",
            src: r####"{st}"####,
            fields: &[{fs}],
            tags: &[{', '.join('"%s"' % t for t in tags)}],
            post: {P},
            rep: {R},
            rc: {str(rc).lower()},
        }};
        type B = SBuilder;
        fn builder() -> SBuilder {{ S::builder() }}
        fn set(b: SBuilder, f: usize, v: u64) -> SBuilder {{ match f {{ {arms} _ => unreachable!() }} }}
        fn build(b: &mut SBuilder) -> Result<Self, BErr> {{ b.build().map(Obj).map_err(BErr::from) }}
        fn view(&self) -> Vec<Option<u64>> {{ self.0.view() }}
        {addr_fn}
    }}
}}
""")


def write_subjects(b, fn):
    with open(os.path.join(OUT, b.name + ".rs"), "w") as f:
        f.write("// written by gen.py\n")
        f.write("".join(b.mods))
        lst = ", ".join(f"{fn}::<m{i + 1}::Obj>()" for i in range(b.n))
        f.write(f"\nfn main() {{\n    seq::main::main(vec![{lst}]);\n}}\n")


def gen_build(suffix, mode):
    b = Bin("build_" + suffix)
    sync = MODES[mode][2]
    kinds = ["bare", "lock", "rw", "opt", "optoff", "lazy"] if sync else ["bare", "inner", "opt", "optinner", "lazy"]
    settings = ["", "def", "req", "off", "reqdef", "offdef", "into", "named", "selfdef", "reqoff", "reqoffdef"]
    combos = list(itertools.product(kinds, settings))
    n = len(combos)
    # alone
    for rc in (False, True):
        for k, s in combos:
            build_struct(b, mode, [BF(mode, k, s, "a")], rc=rc)
    # with neighbours
    for i in range(n):
        fs = [BF(mode, *combos[i], "a"), BF(mode, *combos[(i * 13 + 7) % n], "b"), BF(mode, *combos[(i * 7 + 3) % n], "c")]
        build_struct(b, mode, fs, rc=i % 2 == 1)
    # arguments of the struct's builder
    for sb in ("into", '"with_"', "opt_in", "required"):
        for i, k in enumerate(kinds):
            k2 = kinds[(i + 1) % len(kinds)]
            for sets in (("", "def", "off"), ("on", "req", ""), ("offdef", "intooff" if sb == "into" else "into", "reqdef"), ("reqoff", "reqoffdef", "")):
                build_struct(b, mode, [BF(mode, k if j != 1 else k2, s, "abc"[j], sb) for j, s in enumerate(sets)], sb=sb, rc=i % 2 == 0)
    # post_build, errors
    for err, post, rc in itertools.product([None, "into", "variant"], [None, "", "check_in"], [False, True]):
        for i, (k1, k2) in enumerate([("bare", "lazy"), (kinds[1], "opt"), ("lazy", kinds[3])]):
            fs = [BF(mode, k1, "req" if i else "", "a"), BF(mode, k2, "" if i != 1 else "req", "b"), BF(mode, "bare", "offdef", "z")]
            build_struct(b, mode, fs, tags=("post",), rc=rc, post=post, err=err)
    write_subjects(b, "seq::buildm::subject")



# -------------------------------------------------------------------------------------------------- reference counting

def gen_rc():
    b = Bin("rc")
    # struct arguments, attributes of the lazy field (None: there's none), of a second one, is it Arc, await, can it be cleared
    flavours = []
    for name, mode in (("p", "p"), ("mp", "mp"), ("s", "s"), ("ms", "ms"), ("a", "a"), ("ma", "ma"), ("fs", "fs"), ("fa", "fa")):
        sargs, fattrs, sync, asy = MODES[mode]
        flavours.append((sargs, fattrs, ["get"], sync, asy))
    # the sync field isn't the first one
    flavours.append(([], ["sync"], ["get", "inner_mut"], 1, 0))
    flavours.append(([], ["lock"], ["get", "lock(off)"], 1, 0))
    flavours.append(([], ["reader"], ["get"], 1, 0))
    for (sargs, fattrs, zattrs, sync, asy), name, post in itertools.product(flavours, [None, "me"], [None, "plain", "fallible"]):
        for fall in (False, True):
            if fall and (post or name or fattrs in (["lock"], ["reader"])):
                continue
            b.n += 1
            m = f"m{b.n}"
            rct, path = ("Arc", "std::sync") if sync else ("Rc", "std::rc")
            me = name or "myself"
            bargs = []
            if post:
                bargs.append("post_build")
            if post == "fallible":
                bargs.append("error(buildm::BE)")
            args = list(sargs) + [f'rc("{name}")' if name else "rc", f"builder({', '.join(bargs)})" if bargs else "builder"]
            pl = fattrs == ["lock"] or fattrs == ["reader"]
            lazy = not (pl)
            la = list(fattrs) + (["lazy", "get", "clearer"] if lazy and sync else ["lazy", "get"] if lazy else ["get"])
            if fall:
                la.append("fallible(error(E))")
            zd = "V::make(49)"
            bare_z = "inner_mut" not in zattrs
            st = f"""#[fxstruct({', '.join(args)})]
    pub struct S {{
        #[fieldx({', '.join(zattrs)}, default({zd}))] z: V,
        #[fieldx({', '.join(la)}{'' if lazy else ', default(0)'})] a: {'V' if lazy else 'u64'},
    }}"""
            asyn, aw = ("async ", ".await") if asy else ("", "")
            ret, ok = ("Result<V, E>", "Ok(V::make(LAZY))") if fall else ("V", "V::make(LAZY)")
            build = f"""{asyn}fn build_a(&self) -> {ret} {{
            {'pause().await;' if asy else ''}
            inside(Inside::Build(self as *const S as usize, self.{me}().map_or(0, |h| {rct}::as_ptr(&h) as usize), Weak::as_ptr(&self.{me}_downgrade()) as usize));
            {ok}
        }}""" if lazy else ""
            pb = ""
            if post == "plain":
                pb = f"fn post_build(self) -> Self {{ inside(Inside::Post(Weak::as_ptr(&self.{me}_downgrade()) as usize)); self }}"
            elif post:
                pb = "fn post_build(self) -> Result<Self, buildm::BE> { Ok(self) }"
            q = ".map_err(|e| e.0).expect(\"build\")" if fall else ""
            get = f"h.a(){aw}{'.map(|x| x.id()).unwrap()' if fall else '.id()'}"
            clr = f"h.clear_a(){aw}"
            if asy:
                get, clr = f"block_on(async {{ {get} }})", f"block_on(async {{ {clr} }})"
            lz = f"fn lazy(h: &Self::H) -> u64 {{ {get} }}" if lazy else ""
            if lazy and sync:
                lz += f" fn clear(h: &Self::H) {{ {clr}; }}"
            b.mods.append(f"""
#[allow(unused, dead_code, clippy::all)]
mod {m} {{
    use fieldx::fxstruct;
    use seq::*;
    use seq::rcm::*;
    use {path}::{{{rct}, Weak}};

    {st}

    impl S {{
        {build}
        {pb}
    }}

    pub struct Obj;

    impl RcObj for Obj {{
        const SPEC: RSpec = RSpec {{
            name: "{b.name}::{m}",
            src: r####"{st}"####,
            tags: &["rc"],
            ctors: &["new()", "builder", "builder with values"],
            lazy: {str(lazy).lower()},
            clear: {str(bool(lazy and sync)).lower()},
        }};
        type H = {rct}<S>;
        type W = Weak<S>;
        fn make(c: usize) -> Self::H {{
            match c {{
                0 => S::new(),
                1 => S::builder().build().unwrap(),
                _ => S::builder().z(V::make(49)).build().unwrap(),
            }}
        }}
        fn addr(h: &Self::H) -> usize {{ {rct}::as_ptr(h) as usize }}
        fn strong(h: &Self::H) -> usize {{ {rct}::strong_count(h) }}
        fn myself(h: &Self::H) -> Option<Self::H> {{ h.{me}() }}
        fn weak(h: &Self::H) -> Self::W {{ h.{me}_downgrade() }}
        fn up(w: &Self::W) -> Option<Self::H> {{ w.upgrade() }}
        {lz}
    }}
}}
""")
    write_subjects(b, "seq::rcm::subject")


os.makedirs(OUT, exist_ok=True)
gen_lazy("p", ["p", "mp"])
gen_lazy("s", ["s", "ms", "fs", "fms"])
gen_lazy("a", ["a", "ma", "fa", "fma"])
gen_opt("p", ["p", "mp"])
gen_opt("s", ["s", "fs"])
gen_opt("a", ["a", "fa"])
gen_val("p", ["p", "mp"])
gen_val("s", ["s", "fs"])
gen_val("a", ["a", "fa"])
gen_ctor("p", ["p"])
gen_ctor("s", ["s"])
gen_ctor("a", ["a"])
gen_build("p", "p")
gen_build("s", "s")
gen_build("a", "a")
gen_rc()
gen_serde("p", ["p"])
gen_serde("s", ["s"])
gen_serde("a", ["a"])
gen_de("p", "p")
gen_de("s", "s")
gen_de("a", "a")
