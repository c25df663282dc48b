#!/usr/bin/env python3
"""Writes structs under test for the concurrency checks (fxstruct doesn't work inside of macro_rules)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

ALL_LAZY = "get_mut, set, clearer, predicate, reader, writer"
ALL_LOCK = "get_mut, set, reader, writer"

def arms(mode, f, kind, ty, fallible, meet):
    """Match arms for operations on the field `f` of `s`"""
    aw = ".await" if mode == "async" else ""
    g = lambda e: f"tri!({e}{aw})" if fallible else f"{e}{aw}"
    ops = []
    if kind == "optional":
        ops += [
            ("Op::Get", f"Ret::Opt(s.{f}(){aw}.as_ref().map(|v| v.id()))"),
            ("Op::Hold", f"{{ let g = s.{f}(){aw}; hold_opt(|| g.as_ref().map(|v| v.id())) }}"),
            ("Op::Rd", f"{{ let g = s.read_{f}(){aw}; hold_opt(|| g.as_ref().map(|v| v.id())) }}"),
            ("Op::Mut(n)", f"{{ let mut g = s.{f}_mut(){aw}; let old = g.as_ref().map(|v| v.id()); match &mut *g {{ Some(v) => v.split(n), none => *none = Some(<{ty}>::mk(ctx, n)) }} Ret::Opt(old) }}"),
        ]
        if meet:
            ops.append(("Op::Meet", f"{{ let g = s.read_{f}(){aw}; ctx.meet(); Ret::Opt(g.as_ref().map(|v| v.id())) }}"))
    else:
        ops += [
            ("Op::Get", f"{{ let g = {g(f's.{f}()')}; Ret::Val(g.id()) }}"),
            ("Op::Hold", f"{{ let g = {g(f's.{f}()')}; hold(|| g.id()) }}"),
            ("Op::Rd", f"{{ let g = {g(f's.read_{f}()')}; hold(|| g.id()) }}"),
            ("Op::Mut(n)", f"{{ let mut g = {g(f's.{f}_mut()')}; let old = g.id(); g.split(n); Ret::Val(old) }}"),
        ]
        if meet:
            ops.append(("Op::Meet", f"{{ let g = {g(f's.read_{f}()')}; ctx.meet(); Ret::Val(g.id()) }}"))
    if kind == "lock":
        ops += [
            ("Op::Set(n)", f"Ret::Opt(Some(s.set_{f}(<{ty}>::mk(ctx, n)){aw}.id()))"),
            ("Op::WSet(n)", f"{{ let mut g = s.write_{f}(){aw}; mcsched::yield_point(102); Ret::Opt(Some(std::mem::replace(&mut *g, <{ty}>::mk(ctx, n)).id())) }}"),
            ("Op::WMany(n)", f"{{ let mut g = s.write_{f}(){aw}; let mut l = vec![]; for d in [0, 1000, 2000] {{ l.push(Some(std::mem::replace(&mut *g, <{ty}>::mk(ctx, n + d)).id())); mcsched::yield_point(102); }} Ret::List(l) }}"),
        ]
    else:
        store, clear = ("store", "clear") if kind == "lazy" else ("replace", "take")
        paw = "" if kind == "lazy" else aw
        ops += [
            ("Op::Set(n)", f"Ret::Opt(s.set_{f}(<{ty}>::mk(ctx, n)){aw}.map(|v| v.id()))"),
            ("Op::Clear", f"Ret::Opt(s.clear_{f}(){aw}.map(|v| v.id()))"),
            ("Op::Has", f"Ret::Bool(s.has_{f}(){paw})"),
            ("Op::WSet(n)", f"{{ let mut g = s.write_{f}(){aw}; mcsched::yield_point(102); Ret::Opt(g.{store}(<{ty}>::mk(ctx, n)).map(|v| v.id())) }}"),
            ("Op::WClear", f"{{ let mut g = s.write_{f}(){aw}; mcsched::yield_point(102); Ret::Opt(g.{clear}().map(|v| v.id())) }}"),
            ("Op::WMany(n)", f"{{ let mut g = s.write_{f}(){aw}; let mut l = vec![]; for d in [0, 1000, 0, 2000] {{ let o = if l.len() == 2 {{ g.{clear}() }} else {{ g.{store}(<{ty}>::mk(ctx, n + d)) }}; l.push(o.map(|v| v.id())); mcsched::yield_point(102); }} Ret::List(l) }}"),
        ]
    return ops

def copy_arms(mode, f, kind, ty):
    aw = ".await" if mode == "async" else ""
    if kind == "lock":
        cp = "{ let c = s.clone(); Ret::Copy(true, Some(c.set_%s(<%s>::mk(ctx, 0))%s.id())) }" % (f, ty, aw)
    else:
        cp = "{ let c = s.clone(); let h = c.has_%s()%s; Ret::Copy(h, c.clear_%s()%s.map(|v| v.id())) }" % (f, "" if kind == "lazy" else aw, f, aw)
    return [
        ("Op::Clone", cp),
        ("Op::EqSelf", "{ #[allow(clippy::eq_op)] Ret::Bool(s == s) }"),
        ("Op::Debug", "{ let _ = format!(\"{:?}\", s); Ret::Unit }"),
    ]

def show(ops, ind):
    return ("\n" + ind).join(f"{a} => {b}," for a, b in ops)

K = {"lazy": "Lazy", "optional": "Optional", "lock": "Locked"}
OPL = {"lazy": "LAZY_OPS", "optional": "LAZY_OPS", "lock": "LOCK_OPS"}

def struct(mode, name, kind, ty, fallible, copies, sargs, fargs, rc=False, pair=False, vis=""):
    asy = mode == "async"
    derive = "#[derive(Clone, Debug, PartialEq)]" if copies else ""
    sargs = ", ".join(["r#async" if asy else mode, "builder", "no_new"] + ([sargs] if sargs else []) + (["rc"] if rc else []))
    ret = f"Result<{ty}, String>" if fallible else ty
    body = ("self.ctx.0.abuild(TAG).await" if asy else "self.ctx.0.build(TAG)") + ("" if fallible else ".unwrap()")
    # the object number is kept in the context reference
    body = body.replace("TAG", "self.ctx.1" if pair else "0")
    bld = ""
    if kind == "lazy":
        bld = f"""
    impl S {{
        {'async ' if asy else ''}fn build_x(&self) -> {ret} {{
            {body}
        }}
    }}"""
    ops = arms(mode, "x", kind, ty, fallible, not asy)
    if copies:
        ops += copy_arms(mode, "x", kind, ty)
    if pair:
        ops += [("Op::EqOther(rev)", "Ret::Bool(if rev { o == s } else { s == o })")]
    handle = "Arc<S>" if rc else "Box<S>"
    wrap = "b.build().unwrap()" if rc or pair else "Box::new(b.build().unwrap())"
    ex = "ops.extend([Op::Clone, Op::EqSelf, Op::Debug]);" if copies else ""
    if asy:
        runner = "mcsched::block_on(async { let r: Ret = run(s, o, op, ctx).await; r }, cancel)"
    else:
        runner = "{ let _ = cancel; Some(run(s, o, op, ctx)) }"
    sig = ("async " if asy else "") + "fn run(s: &S, o: &S, op: Op, ctx: &Ctx) -> Ret"
    if pair:
        ex += " ops.extend([Op::EqOther(false), Op::EqOther(true)]);"
    w = "pub struct W(pub Box<(S, S)>);" if pair else f"pub struct W(pub {handle});"
    pick = "let (s, o): (&S, &S) = if field == 0 { (&self.0.0, &self.0.1) } else { (&self.0.1, &self.0.0) };" if pair else \
           "let _ = field; let s: &S = &self.0; let o = s;"
    reg = "h.region_of::<(S, S)>(&self.0, 1);" if pair else "h.region_of::<S>(&self.0, 1);"
    def mk(i):
        return f"""{{
                    let b = S::builder().ctx(CtxRef(ctx.clone(), {i}));
                    #[allow(unused_mut)]
                    let mut b = match init[{i}] {{
                        Some(v) => b.x(<{ty}>::mk(ctx, v)),
                        None => b,
                    }};
                    {wrap}
                }}"""
    return f"""
pub mod {name} {{
    use super::*;
    #[fxstruct({sargs})]
    {derive}
    pub struct S {{
        #[fieldx(get, builder)]
        ctx: CtxRef,
        #[fieldx({fargs})]
        x:   {ty},
    }}{bld}
    {w}
    #[allow(unused_variables, unused_mut)]
    {sig} {{
            match op {{
                {show(ops, '                ')}
                _ => Ret::Na,
            }}
    }}
    impl Subject for W {{
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {{
            {pick}
            let _ = s.ctx();
            {runner}
        }}
        fn region(&self, h: &mcsched::ExecHandle) {{
            {reg}
        }}
    }}
    pub fn flavour() -> Flavour {{
        #[allow(unused_mut)]
        let mut ops = {OPL[kind]}.to_vec();
        {ex}
        Flavour {{
            name: "{mode}/{name}",
            kinds: vec![FieldKind::{K[kind]}; {2 if pair else 1}],
            ops,
            copies: {str(copies).lower()},
            fallible: {str(fallible).lower()},
            is_async: {str(asy).lower()},
            make: Arc::new(|ctx, init| {{
                Arc::new(W({f"Box::new(({mk(0)}, {mk(1)}))" if pair else mk(0)}))
            }}),
        }}
    }}
}}
"""

def deps(mode, name, copies):
    """Lazy fields that depend on each other: a -> b, c; b -> c"""
    asy = mode == "async"
    aw = ".await" if asy else ""
    fs = ["a", "b", "c"]
    derive = "#[derive(Clone, Debug, PartialEq)]" if copies else ""
    inner = {
        "a": "{ let _b = self.b()%s.id(); } { let _c = self.c()%s.id(); }" % (aw, aw),
        "b": "let _c = self.c()%s.id();" % aw,
        "c": "",
    }
    blds = ""
    for i, f in enumerate(fs):
        if asy:
            blds += f"async fn build_{f}(&self) -> Val {{ self.ctx.0.abuild_with({i}, async {{ {inner[f]} }}).await.unwrap() }}\n        "
        else:
            blds += f"fn build_{f}(&self) -> Val {{ self.ctx.0.build_with({i}, || {{ {inner[f]} }}).unwrap() }}\n        "
    fields = "\n        ".join(f"#[fieldx(lazy, get, {ALL_LAZY})]\n        {f}: Val," for f in fs)
    m = ""
    for i, f in enumerate(fs):
        ops = arms(mode, f, "lazy", "Val", False, False)
        if copies:
            ops += [("Op::EqSelf", "{ #[allow(clippy::eq_op)] Ret::Bool(s == s) }"),
                    ("Op::Debug", "{ let _ = format!(\"{:?}\", s); Ret::Unit }")]
        m += f"""{i} => match op {{
                    {show(ops, '                    ')}
                    _ => Ret::Na,
                }},
                """
    if asy:
        runner = "mcsched::block_on(async { let r: Ret = run(s, field, op, ctx).await; r }, cancel)"
    else:
        runner = "{ let _ = cancel; Some(run(s, field, op, ctx)) }"
    sets = "".join(f"if let Some(v) = init[{i}] {{ b = b.{f}(Val::mk(ctx, v)); }}\n                " for i, f in enumerate(fs))
    return f"""
pub mod {name} {{
    use super::*;
    #[fxstruct({"r#async" if asy else mode}, builder, no_new)]
    {derive}
    pub struct S {{
        #[fieldx(get, builder)]
        ctx: CtxRef,
        {fields}
    }}
    impl S {{
        {blds}
    }}
    pub struct W(pub Box<S>);
    #[allow(unused_variables, unused_mut)]
    {'async ' if asy else ''}fn run(s: &S, field: usize, op: Op, ctx: &Ctx) -> Ret {{
            match field {{
                {m}_ => Ret::Na,
            }}
    }}
    impl Subject for W {{
        fn run(&self, field: usize, op: Op, ctx: &Ctx, cancel: Option<usize>) -> Option<Ret> {{
            let s: &S = &self.0;
            let _ = s.ctx();
            {runner}
        }}
        fn region(&self, h: &mcsched::ExecHandle) {{
            h.region_of::<S>(&self.0, 1)
        }}
    }}
    pub fn flavour() -> Flavour {{
        Flavour {{
            name: "{mode}/{name}",
            kinds: vec![FieldKind::Lazy; 3],
            ops: LAZY_OPS.to_vec(),
            copies: {str(copies).lower()},
            fallible: false,
            is_async: {str(asy).lower()},
            make: Arc::new(|ctx, init| {{
                let mut b = S::builder().ctx(CtxRef(ctx.clone(), 0));
                {sets}Arc::new(W(Box::new(b.build().unwrap())))
            }}),
        }}
    }}
}}
"""

HEAD = """// Generated by gen.py
use conc::*;
use fieldx::fxstruct;
use std::sync::Arc;

#[allow(unused_macros)]
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(g) => g,
            Err(e) => return Ret::Err(e),
        }
    };
}
"""

def emit(mode, lst, dp):
    out = HEAD
    for a in lst:
        out += struct(mode, **a)
    out += deps(mode, *dp)
    def fn(n, l):
        return f"\npub fn {n}() -> Vec<Flavour> {{\n    vec![\n" + "".join(f"        {a}::flavour(),\n" for a in l) + "    ]\n}\n"
    out += fn("flavours", [a["name"] for a in lst if not a["pair"]])
    out += fn("pairs", [a["name"] for a in lst if a["pair"]])
    out += fn("deps_flavours", [dp[0]])
    os.makedirs(f"{HERE}/src/bin/{mode}", exist_ok=True)
    path = f"{HERE}/src/bin/{mode}/gen.rs"
    if not os.path.exists(path) or open(path).read() != out:
        with open(path, "w") as f:
            f.write(out)

def F(name, kind, ty, fargs, fallible=False, copies=False, sargs="", rc=False, pair=False):
    return dict(name=name, kind=kind, ty=ty, fargs=fargs, fallible=fallible, copies=copies, sargs=sargs, rc=rc, pair=pair)

FE = "fallible(error(String))"
emit("sync", [
    F("lazy_guard", "lazy", "Val", f"lazy, get, {ALL_LAZY}", copies=True),
    F("lazy_clone", "lazy", "Val", f"lazy, get(clone), {ALL_LAZY}"),
    F("lazy_copy", "lazy", "u64", f"lazy, get(copy), {ALL_LAZY}", copies=True),
    F("lazy_fallible", "lazy", "Val", f"lazy, {FE}, get, {ALL_LAZY}", fallible=True, copies=True),
    F("lazy_fallible_clone", "lazy", "Val", f"lazy, {FE}, get(clone), {ALL_LAZY}", fallible=True),
    F("rc_lazy", "lazy", "Val", f"lazy, get, {ALL_LAZY}", rc=True),
    F("rc_fallible", "lazy", "Val", f"lazy, {FE}, get, {ALL_LAZY}", fallible=True, rc=True),
    F("optional_guard", "optional", "Val", f"optional, get, {ALL_LAZY}", copies=True),
    F("optional_clone", "optional", "Val", f"get(clone), {ALL_LAZY}"),
    F("optional_copy", "optional", "u64", f"get(copy), lock, {ALL_LAZY}", copies=True),
    F("lock_guard", "lock", "Val", f"lock, get, {ALL_LOCK}, builder(required)", copies=True),
    F("lock_clone", "lock", "Val", f"get(clone), {ALL_LOCK}, builder(required)"),
    F("lock_copy", "lock", "u64", f"get(copy), lock, {ALL_LOCK}", copies=True),
    F("pair_lazy", "lazy", "Val", f"lazy, get, {ALL_LAZY}", copies=True, pair=True),
    F("pair_optional", "optional", "Val", f"optional, get, {ALL_LAZY}", copies=True, pair=True),
    F("pair_lock", "lock", "Val", f"lock, get, {ALL_LOCK}, builder(required)", copies=True, pair=True),
], ("deps", True))
emit("async", [
    F("lazy_guard", "lazy", "Val", f"lazy, get, {ALL_LAZY}"),
    F("lazy_clone", "lazy", "Val", f"lazy, get(clone), {ALL_LAZY}"),
    F("lazy_copy", "lazy", "u64", f"lazy, get(copy), {ALL_LAZY}"),
    F("lazy_fallible", "lazy", "Val", f"lazy, {FE}, get, {ALL_LAZY}", fallible=True),
    F("lazy_fallible_clone", "lazy", "Val", f"lazy, {FE}, get(clone), {ALL_LAZY}", fallible=True),
    F("rc_lazy", "lazy", "Val", f"lazy, get, {ALL_LAZY}", rc=True),
    F("optional_guard", "optional", "Val", f"optional, get, {ALL_LAZY}", copies=True),
    F("optional_clone", "optional", "Val", f"get(clone), lock, {ALL_LAZY}"),
    F("optional_copy", "optional", "u64", f"get(copy), lock, {ALL_LAZY}", copies=True),
    F("lock_guard", "lock", "Val", f"lock, get, {ALL_LOCK}, builder(required)", copies=True),
    F("lock_clone", "lock", "Val", f"get(clone), lock, {ALL_LOCK}, builder(required)"),
    F("lock_copy", "lock", "u64", f"get(copy), lock, {ALL_LOCK}", copies=True),
    F("pair_optional", "optional", "Val", f"optional, get, {ALL_LAZY}", copies=True, pair=True),
    F("pair_lock", "lock", "Val", f"lock, get, {ALL_LOCK}, builder(required)", copies=True, pair=True),
], ("deps", False))
