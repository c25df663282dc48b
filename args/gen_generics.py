"""C24: structs with type, lifetime and const parameters behave as structs without.

Every declaration must compile, and the same script of operations, run on an instance of it, must see what it sees for a concrete struct."""
import itertools

#        parameters, where clause, arguments of the type, type of the field, instance
GENERICS = {
    "none": ("", "", "", "u32", ""),
    "type": ("<T: Val>", "", "<T>", "T", "<u32>"),
    "where": ("<T>", "where T: Val", "<T>", "T", "<u32>"),
    "inline and where": ("<T: Clone>", "where T: Val, Vec<T>: PartialEq", "<T>", "Vec<T>", "<u32>"),
    "two types": ("<T, U>", "where T: Val + Into<U>, U: Val", "<T, U>", "(T, U)", "<u32, u64>"),
    "default": ("<T: Val = u32>", "", "<T>", "T", "<>"),
    "const": ("<const N: usize>", "", "<N>", "Arr<N>", "<3>"),
    "lifetime": ("<'a>", "", "<'a>", "&'a str", "<'static>"),
    "two lifetimes": ("<'a, 'b: 'a>", "", "<'a, 'b>", "(&'a str, &'b str)", "<'static, 'static>"),
    "all": ("<'a, T: Val, const N: usize>", "where T: 'a", "<'a, T, N>", "((&'a str, T), Arr<N>)", "<'static, u32, 2>"),
}
KINDS = ["lazy, get, get_mut, set, clearer, predicate", "lazy, get, clearer, fallible(error(E)), predicate", "lazy, get(clone), set(into)",
         "lazy, reader, writer, get, clearer, predicate", "optional, get, get_mut, set, clearer, predicate", "optional, get(clone), set, into", "clearer, predicate, get",
         "get, get_mut, set", "get(clone), set(into), builder(into)", "lock, get, get_mut, set", "lock, get(clone)", "reader, writer, set",
         "inner_mut, get, get_mut, set", "inner_mut, get(clone)", "optional, inner_mut, get, set, clearer, predicate",
         "default(Mk::mk(5)), get", "inner_mut, default(Mk::mk(5)), get, set", "lazy, default(Mk::mk(5)), get, clearer", "lock, default(Mk::mk(5)), get(clone), set", "optional, default(Mk::mk(5)), get, clearer", "default(Self::five()), get, lazy, predicate", "optional, default(Self::five()), get(clone)", "lock, optional, get(clone), reader, writer, predicate"]
STRUCTS = ["", "builder", "builder(into)", "builder(required)", "rc", "rc, builder", "rc(\"me\"), builder(post_build)", "default, builder(post_build(after), error(E))",
           "no_new, builder", "builder(error(E, E::Unset))", "serde", "serde, builder", "serde(default)", "serde(default(Self::spare()))", "serde(\"Shadow\")", "serde(serialize(off))",
           "serde(deserialize(off))", "get, set, lazy", "public, get", "attributes_impl(allow(unused))"]
MODES = ["", "sync", "r#async"]


class Generic:
    def __init__(self, mode, g, sargs, fargs):
        self.mode, self.g, self.s, self.f = mode, g, sargs, fargs

    def count(self):
        return self.seen

    def ok(self):
        m, s, f = self.mode, self.s, self.f
        lazy = "lazy" in f or "lazy" in s
        if "inner_mut" in f and (m or "lazy" in s):
            return False
        if ("reader" in f or "lock" in f) and not m:
            return False
        if "lazy" in s and ("optional" in f or "lock" in f or "predicate" in f or "reader" in f) and "lazy" not in f:
            return False
        if "serde" in s and m == "r#async" and lazy:
            return False        # async lazy fields have no way to be built on serialization
        if s == "serde(default)" and "const" in GENERICS[self.g][0]:
            return False        # serde_derive itself panics on these
        if "serde" in s and self.g in ("lifetime", "two lifetimes", "all"):
            # borrowing deserialization isn't provided for
            return "deserialize(off)" in s
        return True

    def generics(self):
        return GENERICS[self.g]

    def build(self):
        m, s, f = self.mode, self.s, self.f
        params, where, args, ty, inst = self.generics()
        a, w = ("async ", ".await") if m == "r#async" else ("", "")
        lazy = "lazy" in f or "lazy" in s
        opt = not lazy and ("optional" in f or "predicate" in f or "clearer" in f)
        fallible = "fallible" in f
        rc = "rc" in s
        builder = "builder" in s
        given = 5 if "default" in f else None
        mut = "&self" if m or "inner_mut" in f else "&mut self"
        fits = lambda: True
        locked = m and (lazy or opt or any(x in f for x in ("lock", "reader", "writer")))
        aw = w if locked else ""
        clone = "get(clone)" in f or "get(copy)" in f
        q = ".unwrap()" if fallible else ""
        if opt:
            get = f"s.f(){aw}.map(|v| v.no())" if clone else f"(*s.f(){aw}).as_ref().map(|v| v.no())"
        else:
            get = f"Some((s.f(){aw}{q}).no())" if clone else f"Some((*s.f(){aw}{q}).no())"
        hasget = "get" in f or lazy or "predicate" in f or "get" in s
        if not hasget:
            get = f"Some((*s.read_f(){aw}).no())" if "reader" in f else f"Some(s.f.no())"
        user, steps = "", []
        def step(expr, want):
            steps.append(f"see!({expr}, {want});")
        def some(v):
            return "None" if v is None else f"Some({v})"
        has = lambda: f"s.has_f(){'' if lazy else aw}"
        # a script from an object whose field has `v`
        def script(v, fresh):
            cur = v
            if "predicate" in f:
                step(has(), "true" if cur is not None else "false")
            if lazy and cur is None:
                cur = 7
            elif not lazy and not opt and cur is None:
                cur = 0
            step(get, some(cur))
            if "predicate" in f:
                step(has(), "true" if cur is not None else "false")
            can = not rc or locked or "inner_mut" in f
            if ("set" in f.split(", ") or "set(into)" in f or ("set" in s.split(", "))) and can:
                ex = f"s.set_f(Mk::mk(2)){aw}" if "into" not in f.replace("set(into)", "into") else f"s.set_f(<{ty} as Mk>::mk(2)){aw}"
                if "into" in f:
                    ex = f"s.set_f(same(&s, Mk::mk(2))){aw}"
                step(f"{ex}.map(|v| v.no())" if lazy or opt else f"Some({ex}.no())", some(cur))
                cur = 2
                step(get, some(cur))
            if "get_mut" in f and can:
                if opt:
                    steps.append(f"*s.f_mut(){aw} = Some(Mk::mk(3));")
                else:
                    steps.append(f"*s.f_mut(){aw} = Mk::mk(3);")
                cur = 3
                step(get, some(cur))
            if "writer" in f:
                if lazy:
                    step(f"{{ let mut g = s.write_f(){aw}; g.store(Mk::mk(4)).map(|v| v.no()) }}", some(cur))
                elif opt:
                    steps.append(f"*s.write_f(){aw} = Some(Mk::mk(4));")
                else:
                    steps.append(f"*s.write_f(){aw} = Mk::mk(4);")
                cur = 4
                step(f"(*s.read_f(){aw}).as_ref().map(|v| v.no())" if opt else f"Some((*s.read_f(){aw}).no())", some(cur))
            if "clearer" in f and (can):
                step(f"s.clear_f(){aw}.map(|v| v.no())", some(cur))
                if "predicate" in f:
                    step(has(), "false")
                step(get, "Some(7)" if lazy else "None")
                cur = 7 if lazy else None
            if rc:
                n = "me" if 'rc("me")' in s else "myself"
                p = "std::sync::Arc" if m else "std::rc::Rc"
                step(f"{p}::ptr_eq(&s, &s.{n}().unwrap())", "true")
                step(f"s.{n}_downgrade().upgrade().is_some()", "true")
            if "serde" in s and "ialize(off)" not in s:
                steps.append("let j = serde_json::to_string(&s).unwrap();")
                steps.append(f"let s: Inst = serde_json::from_str(&j).unwrap();")
                if opt and cur is None and not m:
                    cur = given     # a plain struct fills the absent value with the default
                step(get, some(7 if lazy and cur is None else cur))
        mutl = "let mut s" if True else "let s"
        if "no_new" not in s:
            steps.append(f"{mutl} = Inst::new();")
            script(given, True)
        if builder and "builder(off)" not in f:
            into = "same_b(&b, Mk::mk(6))"
            steps.append(f"let b = Inst::builder(); let f = {into}; {mutl} = b.f(f).g(V(1)).build().unwrap();")
            script(6, False)
            if "required" not in s:
                if opt or lazy or "default" in f:
                    steps.append(f"{mutl} = Inst::builder().g(V(1)).build().unwrap();")
                    script(given, False)
                else:
                    step("Inst::builder().g(V(1)).build().is_err()", "true")
        if "serde(default" in s:
            steps.append('let s: Inst = serde_json::from_str("{}").unwrap();')
            step(get, some(9) if "spare" in s else some(given if given is not None else 7 if lazy else None if opt else 0))
        if "serialize(off)" in s and "deserialize" not in s:
            steps.append('let s: Inst = serde_json::from_str(&format!(r#"{{"f":{},"g":1}}"#, serde_json::to_string(&of_inst(Mk::mk(6))).unwrap())).unwrap();')
            step(get, some(6))
        if "deserialize(off)" in s:
            steps.append("let j: serde_json::Value = serde_json::from_str(&serde_json::to_string(&s).unwrap()).unwrap();")
            step('j["f"].is_null()', "false" if not opt else ("false" if self.last(opt, steps) else "true"))
        self.seen = len(steps)
        ft = f"Result<{ty}, E>" if fallible else ty
        ok = "Ok(Mk::mk(7))" if fallible else "Mk::mk(7)"
        body = ""
        if lazy:
            body += f"{a}fn build_f(&self) -> {ft} {{ {ok} }}\n"
        if "lazy" in s:
            body += f"{a}fn build_g(&self) -> V {{ V(1) }}\n"
        if "five" in f:
            body += f"fn five() -> {ty} {{ Mk::mk(5) }}\n"
        if "post_build(after)" in s:
            body += f"fn after(self) -> Result<Self, E> {{ Ok(self) }}\n"
        elif "post_build" in s:
            body += f"fn post_build(self) -> Self {{ self }}\n"
        if "spare" in s:
            mk = "Mk::mk(9)"
            if m and lazy or m and locked:
                # through the setter-less way: the shadow struct itself
                pass
            body += f"fn spare() -> __SShadow{args} {{ __SShadow {{ f: {'Some(Mk::mk(9))' if lazy or opt else mk}, g: {'Some(V(1))' if 'lazy' in s else 'V(1)'} }} }}\n"
        imp = "<" + params[1:-1].replace(" = u32", "") + ">" if params else ""
        derive = "#[derive(Clone)] " if "serde" in s and not (m == "r#async") else "#[derive(Clone)] " if "serde" in s else ""
        sargs = ", ".join(x for x in (m, s) if x)
        same = f"fn same{imp}(_: &S{args}, v: {ty}) -> {ty} {where} {{ v }}\n"
        sameb = f"fn same_b{imp}(_: &SBuilder{args}, v: {ty}) -> {ty} {where} {{ v }}\n" if builder else ""
        ofi = ""
        if "serialize(off)" in s and "deserialize" not in s:
            t = ty.replace("T", "u32").replace("U", "u64").replace("<N>", "<3>").replace("Vec<u32>", "Vec<u32>")
            ofi = f"fn of_inst(v: {t}) -> {t} {{ v }}\n"
        self.decl = f"#[fxstruct({sargs})]\n{derive}pub struct S{params} {where} {{ #[fieldx({f})] f: {ty}, g: V }}\n"
        self.impl = f"impl{imp} S{args} {where} {{ {body} }}\n" if body else ""
        self.aux = same + sameb + ofi + f"type Inst = S{inst};\n"
        self.steps = ("    let mut bad = 0;\n    macro_rules! see { ($e:expr, $w:expr) => { if $e != $w { bad += 1; } } }\n    "
                      + "\n    ".join(steps) + "\n    (bad, 0)\n")

    def module(self, i):
        self.build()
        return (f"pub mod {i} {{\nuse super::*;\n" + self.decl + self.impl + self.aux
                + "pub async fn run() -> (u32, u32) {\n" + self.steps + "}\n}\n")

    @staticmethod
    def last(opt, steps):
        """Is there a value at the end of the script?"""
        return not steps[-2].endswith("None);")


def generate(tier):
    for m in MODES:
        for g in GENERICS:
            for k, s in enumerate(STRUCTS):
                for n, f in enumerate(KINDS):
                    d = Generic(m, g, s, f)
                    if d.ok():
                        yield d


HEAD = """use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
#[derive(Debug, Clone, Copy, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct V(pub u32);
#[derive(Debug, Clone)]
pub enum E { Unset(String), Other }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E") } }
impl std::error::Error for E {}
impl From<fieldx::error::FieldXError> for E { fn from(_: fieldx::error::FieldXError) -> Self { E::Other } }
/// Values with a number
pub trait Mk: Sized { fn mk(n: u32) -> Self; fn no(&self) -> u32; }
impl Mk for u32 { fn mk(n: u32) -> Self { n } fn no(&self) -> u32 { *self } }
impl Mk for u64 { fn mk(n: u32) -> Self { n as u64 } fn no(&self) -> u32 { *self as u32 } }
impl<'a> Mk for &'a str {
    fn mk(n: u32) -> Self { &"0123456789"[n as usize..n as usize + 1] }
    fn no(&self) -> u32 { if self.is_empty() { 0 } else { self.parse().unwrap() } }
}
impl<T: Mk> Mk for Vec<T> { fn mk(n: u32) -> Self { vec![T::mk(n)] } fn no(&self) -> u32 { self.first().map_or(0, |v| v.no()) } }
impl<A: Mk, B: Mk> Mk for (A, B) { fn mk(n: u32) -> Self { (A::mk(n), B::mk(n)) } fn no(&self) -> u32 { if self.0.no() == self.1.no() { self.0.no() } else { 99 } } }
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Arr<const N: usize>([u32; N]);
impl<const N: usize> Default for Arr<N> { fn default() -> Self { Arr([0; N]) } }
impl<const N: usize> Mk for Arr<N> { fn mk(n: u32) -> Self { Arr([n; N]) } fn no(&self) -> u32 { self.0[N - 1] } }
impl<const N: usize> Serialize for Arr<N> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(self.no()) } }
impl<'de, const N: usize> Deserialize<'de> for Arr<N> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Arr([u32::deserialize(d)?; N])) } }
pub trait Val: Mk + Clone + Default + PartialEq + std::fmt::Debug + Send + Sync + 'static {}
impl Val for u32 {}
impl Val for u64 {}
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
