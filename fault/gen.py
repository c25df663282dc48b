#!/usr/bin/env python3
"""gen.py: writes src/subjects.rs, structs and what operations mean for them"""
import os
COMMON = "clearer, predicate"
# name, mode, kind, accessor's mode, arguments of the field, arguments of the struct
SUBJECTS = []
for m, arg in (("p", ""), ("s", "sync"), ("a", "r#async")):
    lock = "" if m == "p" else "lock, "
    rw = "" if m == "p" else ", reader, writer"
    for bld in ("builder(into)", "builder(post_build)", 'rc, builder(post_build, into)'):
        s = ", ".join(x for x in (arg, bld) if x)
        for dflt in ("", ", default(five())"):
            SUBJECTS += [(m, "Lazy", "get", f"lazy, get, get_mut, set, {COMMON}{rw}{dflt}", s),
                         (m, "Lazy", "clone", f"lazy, get(clone), set(into), {COMMON}{rw}{dflt}", s),
                         (m, "Opt", "get", f"{lock}optional, get, get_mut, set, {COMMON}{rw}{dflt}", s),
                         (m, "Opt", "clone", f"{lock}optional, get(clone), set(into), {COMMON}{rw}{dflt}", s),
                         (m, "Val", "get", f"{lock}get, get_mut, set{rw}{dflt}", s),
                         (m, "Val", "clone", f"{lock}get(clone), set(into){rw}{dflt}", s)]
            if m == "p":
                SUBJECTS += [(m, "Val", "cell", f"inner_mut, get, get_mut, set{dflt}", s),
                             (m, "Val", "clone", f"inner_mut, get(clone), set(into){dflt}", s),
                             (m, "Opt", "cell", f"optional, inner_mut, get, get_mut, set, {COMMON}{dflt}", s)]


    # fallible lazy builders, another field next to it, serialization
    s = ", ".join(x for x in (arg, "builder(post_build)") if x)
    two = s.replace("post_build", "into") + " + g"
    for dflt in ("", ", default(five())"):
        SUBJECTS += [(m, "Lazy", "get", f"lazy, fallible(error(Sorry)), get, get_mut, set, {COMMON}{rw}{dflt}", s),
                     (m, "Lazy", "clone", f"lazy, fallible(error(Sorry)), get(clone), set(into), {COMMON}{rw}{dflt}", s.replace("builder(", "rc, builder(")),
                     (m, "Lazy", "clone", f"lazy, get(clone), set(into), {COMMON}{rw}{dflt}", two),
                     (m, "Opt", "clone", f"{lock}optional, get(clone), set(into), {COMMON}{rw}{dflt}", two),
                     (m, "Val", "clone", f"{lock}get(clone), set(into){rw}{dflt}", two)]
        sd = ", ".join(x for x in (arg, "serde", "builder(into)") if x)
        if m != "a":
            SUBJECTS += [(m, "Lazy", "clone", f"lazy, get(clone), set(into), {COMMON}{dflt}", sd)]
        SUBJECTS += [(m, "Opt", "clone", f"{lock}optional, get(clone), set(into), {COMMON}{dflt}", sd),
                     (m, "Val", "clone", f"{lock}get(clone), set(into){dflt}", sd)]
        if m == "p":
            SUBJECTS += [(m, "Opt", "clone", f"optional, inner_mut, get(clone), set(into), {COMMON}{dflt}", sd),
                         (m, "Val", "clone", f"inner_mut, get(clone), set(into){dflt}", sd)]


# with rc there is no &mut
SUBJECTS = [x for x in SUBJECTS if not ("rc" in x[4] and x[0] == "p" and "inner_mut" not in x[3])]


def subject(i, m, kind, acc, fargs, sargs):
    aw = ".await" if m == "a" else ""
    a = "async " if m == "a" else ""
    rc = "rc" in sargs
    ref = "&mut " if m == "p" and "inner_mut" not in fargs else "&"
    into = "set(into)" in fargs
    binto = "into" in sargs
    d = "default(" in fargs
    arms, ops = [], []

    def op(o, body):
        ops.append(o)
        arms.append(f"{o} => {{ {body} }}")
    opt = kind == "Opt"
    fall = "fallible" in fargs
    serde = "serde" in sargs
    two = sargs.endswith(" + g")
    sargs = sargs.removesuffix(" + g")
    un = ".unwrap()" if fall else ""
    get = f"s.f(){aw}{un}"
    if acc == "clone":
        op("Get", f"let v = {get}; keep(" + ("v" if opt else "Some(v)") + ")")
    elif opt:
        op("Get", f"let v = {get}; id(v.as_ref())" if acc != "cell" and m == "p" else f"let v = {get}; id((*v).as_ref())")
    else:
        op("Get", f"let v = {get}; fault(); Old(Some(v.id()))")
    if "get_mut" in fargs:
        new = "Some(W::new(n, 0))" if opt else "W::new(n, 0)"
        op("Mut", f"let mut g = s.f_mut(){aw}{un}; fault(); let w = {new}; *g = w; fault(); Unit" if acc == "cell" or m != "p" else f"let g = s.f_mut(){un}; fault(); let w = {new}; *g = w; fault(); Unit")
    arg = "Raw(n)" if into else "W::new(n, 0)"
    op("Set", f"keep(s.set_f({arg}){aw})" if kind != "Val" else f"keep(Some(s.set_f({arg}){aw}))")
    if "clearer" in fargs:
        op("Clear", f"keep(s.clear_f(){aw})")
        op("Has", f"B(s.has_f(){aw if opt else ''})")
    if "reader" in fargs:
        show = "(*g).as_ref().map_or(0, |w| w.id())" if opt else "g.id()"
        op("Reader", f"let g = s.read_f(){aw}{un}; fault(); let v = {show}; fault(); V(v)")
        if kind == "Lazy":
            op("Writer", f"let mut g = s.write_f(){aw}; fault(); let x = g.store(W::new(n, 0)); fault(); let y = g.clear(); fault(); let z = g.store(W::new(n, 1)); fault(); drop(g); keep3([x, y, z])")
        elif opt:
            op("Writer", f"let mut g = s.write_f(){aw}; fault(); let x = (*g).replace(W::new(n, 0)); fault(); let y = (*g).take(); fault(); let z = (*g).replace(W::new(n, 1)); fault(); drop(g); keep3([x, y, z])")
        else:
            op("Writer", f"let mut g = s.write_f(){aw}; fault(); *g = W::new(n, 0); fault(); *g = W::new(n, 1); fault(); drop(g); Unit")
    own = "S" if not rc else "Rc<S>" if m == "p" else "Arc<S>"
    plain = rc or m == "a" and kind == "Lazy"
    if not plain:
        op("Clone", "let c = s.clone(); *o = c; Unit")
        op("Eq", "B(*s == *o)")
    op("Debug", 'let mut t = String::new(); let r = std::fmt::Write::write_fmt(&mut t, format_args!("{:?}", s)); B(r.is_ok())')
    new = f"S::new()"
    op("New", f"let c: {own} = {new}; *o = c; Unit")
    barg = "Raw(n)" if binto else "W::new(n, 0)"
    op("Build", f"let c: {own} = S::builder().f({barg}).build().unwrap(); *o = c; Unit")
    free = kind != "Val" or d
    op("Bare", f"match S::builder().build() {{ Ok(c) => {{ let c: {own} = c; *o = c; B(true) }} Err(_) => B(false) }}")
    op("Swap", "std::mem::swap(s, o); Unit")
    if two:
        op("Other", "V(s.g().id())")
    if serde:
        op("Ser", "drops(false); let t = serde_json::to_string(&*s).unwrap(); drops(true); shown(&t)")
        op("De", 'drops(false); let c: S = serde_json::from_str(&format!("{{\\"f\\":{n}}}")).unwrap(); drops(true); *o = c; Unit')
    derive = "#[derive(Debug)]" if plain else "#[derive(Clone, Debug, PartialEq)]"
    impl = ""
    if kind == "Lazy":
        impl += f"    {a}fn build_f(&self) -> " + ("Result<W, Sorry> { Ok(built()) }\n" if fall else "W { built() }\n")
    if "post_build" in sargs:
        impl += "    fn post_build(self) -> Self { fault(); self }\n"
    sp = "S::new()"
    step = "match op {\n                " + "\n                ".join(arms) + "\n                _ => unreachable!(),\n            }"
    if m == "a":
        step = f"now(async move {{ {step} }})"
    vis = f'''pub mod m{i} {{
    use super::*;
    #[fxstruct({sargs})]
    {derive}
    pub struct S {{ #[fieldx({fargs})] f: W{", #[fieldx(get, builder(off), default(W::new(7, 0)))] g: W" if two else ""} }}
    impl S {{
{impl}    }}
    pub struct Two({own}, {own});
    impl Subject for Two {{
        #[allow(unused_mut, unused_variables)]
        fn step(&mut self, op: Op, n: u32) -> Out {{
            let Two(s, o) = self;
            {step}
        }}
    }}
    pub fn case() -> Case {{
        Case {{ name: "{i}", text: r#"#[fxstruct({sargs})] struct S {{ #[fieldx({fargs})] f: W }}"#, kind: Kind::{kind}, given: {str(d).lower()}, required: {str(not free).lower()}, empty_ok: {str(kind != 'Val').lower()}, ops: vec![{", ".join(ops)}], make: || Box::new(Two({sp}, {sp})) }}
    }}
}}
'''
    return vis


out = '''// written by gen.py
use crate::*;
use fieldx::fxstruct;
#[allow(unused_imports)]
use serde::{Deserialize, Serialize};
#[allow(unused_imports)]
use std::{rc::Rc, sync::Arc};

fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => hung(),
    }
}

'''
for i, x in enumerate(SUBJECTS):
    out += subject(i, *x)
out += "pub fn all() -> Vec<Case> {\n    vec![" + ", ".join(f"m{i}::case()" for i in range(len(SUBJECTS))) + "]\n}\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "subjects.rs"), "w").write(out)
