"""C35: serde's own attributes, on the fields themselves or by `serde(attributes(...))`, do what they do in a plain struct."""
import itertools

MODES = {"p": "", "s": "sync"}
# arguments, how the content is looked at, how it is set
KINDS = {
    ("p", "val"): ("", "Some(s.first_one.clone())", "s.first_one = v"),
    ("p", "get"): ("get, set", "Some(s.first_one().clone())", "s.set_first_one(v);"),
    ("p", "inner"): ("inner_mut, get, set", "Some((*s.first_one()).clone())", "s.set_first_one(v);"),
    ("p", "opt"): ("optional, get, set", "s.first_one().clone()", "s.set_first_one(v);"),
    ("p", "optinner"): ("optional, inner_mut, get, set", "(*s.first_one()).clone()", "s.set_first_one(v);"),
    ("p", "lazy"): ("lazy, get, set, predicate", "s.has_first_one().then(|| s.first_one().clone())", "s.set_first_one(v);"),
    ("s", "val"): ("", "Some(s.first_one.clone())", "s.first_one = v"),
    ("s", "lock"): ("lock, get, set", "Some((*s.first_one()).clone())", "s.set_first_one(v);"),
    ("s", "rw"): ("reader, writer, set", "Some((*s.read_first_one()).clone())", "s.set_first_one(v);"),
    ("s", "opt"): ("optional, get, set", "(*s.first_one()).clone()", "s.set_first_one(v);"),
    ("s", "lazy"): ("lazy, get, set, predicate", "s.has_first_one().then(|| (*s.first_one()).clone())", "s.set_first_one(v);"),
    ("s", "plain"): ("mode(plain), get, set", "Some(s.first_one().clone())", "s.set_first_one(v);"),
}
FIELD = [[], ['rename = "x"'], ['rename(serialize = "x", deserialize = "y")'], ['alias = "y"'], ['alias = "x", alias = "y"'], ["default"],
         ['default = "W::five"'], ["skip"], ["skip_serializing"], ["skip_deserializing"], ['skip_serializing_if = "W::seven"'],
         ['with = "sharp"'], ['serialize_with = "sharp::serialize"'], ['deserialize_with = "sharp::deserialize"'], ["flatten"],
         ['rename = "x"', 'alias = "y"'], ['alias = "x"', "default"], ['rename = "x", skip_serializing_if = "W::seven"', "default"]]
STRUCT = [[], ['rename_all = "camelCase"'], ['rename_all = "SCREAMING_SNAKE_CASE"'], ["deny_unknown_fields"], ["default"],
          ['rename = "Me", tag = "t"'], ['rename_all = "SCREAMING_SNAKE_CASE"', "deny_unknown_fields"],
          ['rename_all(serialize = "camelCase", deserialize = "SCREAMING_SNAKE_CASE")']]
# further arguments of the field and what they are in terms of serde
FX = {"": "", 'rename("ren")': 'rename = "ren"', 'serde("ren")': 'rename = "ren"', "serde(serialize(off))": "skip_serializing",
      "serde(deserialize(off))": "skip_deserializing", "serde(default(W::five()))": "default", "serde": "", "serde(forward_attrs(nothing))": ""}


class Attr:
    def __init__(self, mode, kind, route, field, struct, fx):
        self.a = mode, kind, route, field, struct, fx

    def ok(self):
        mode, kind, route, field, struct, fx = self.a
        t = " ".join(field)
        if "rename" in fx or "ren" in fx:
            if "rename" in t or "skip" == t or "flatten" in t:
                return False
        if ("default(" in fx) and ("default" in t or t == "skip"):
            return False
        if "skip_serializing" in FX[fx] and "skip" in t:
            return False
        if "skip_deserializing" in FX[fx] and ("skip" in t or "default" in t or "default" in struct or "flatten" in t):
            return False
        if "skip_ser" in FX[fx] and "flatten" in t:
            return False
        if "flatten" in t and ("deny_unknown_fields" in struct or "default(" in fx):
            return False
        return bool(field or struct)

    def module(self, i):
        mode, kind, route, field, struct, fx = self.a
        kargs, look, put = KINDS[mode, kind]
        ty = "N" if "flatten" in field else "u32"
        some = "opt" in kind or "lazy" in kind
        own = [f"serde({x})" for x in field]
        ser, rest = [], []
        if fx.startswith("serde"):
            inner = fx[6:-1]
            ser = [inner] if inner else []
        elif fx:
            rest = [fx]
        if route == "fieldx" and own:
            ser = ser + [f"attributes({', '.join(own)})"]
        f = ", ".join(x for x in [kargs] + rest + ([f"serde({', '.join(ser)})"] if ser else ["serde"] if fx == "serde" else []) if x)
        direct = "".join(f"#[{x}] " for x in own) if route == "direct" else ""
        off = fx == "serde(deserialize(off))"
        need = off or mode == "s"
        sattrs = [f"serde({x})" for x in struct]
        if "default" in struct and not need:
            sattrs.insert(0, "derive(Default)")
        s = ", ".join(x for x in [MODES[mode], "no_new" if mode == "p" and not off else "", "default" if off else "",
                                  f"serde({'attributes(' + ', '.join(sattrs) + ')' if sattrs else ''})" if sattrs else "serde"] if x)
        build = f"impl S {{ fn build_first_one(&self) -> {ty} {{ W::five() }} }}\n" if kind == "lazy" else ""
        if fx.startswith("rename"):
            # the methods are called by that name
            look, put, build = (x.replace("first_one(", "ren(") for x in (look, put, build))
        eq = FX[fx]
        if eq == "default":
            eq = f'default = "W::five"'
        rattr = "".join(f"#[serde({x})] " for x in ([eq] if eq else []) + field)
        rty = f"Option<{ty}>" if some else ty
        rlook = "r.first_one.clone()" if some else "Some(r.first_one.clone())"
        rput = "r.first_one = Some(v);" if some else "r.first_one = v;"
        # what isn't serialized isn't built
        rfill = "if r.first_one.is_none() { r.first_one = Some(W::five()); }" if kind == "lazy" and fx != "serde(serialize(off))" else ""
        return (f"pub mod {i} {{ use super::*;\n#[fxstruct({s})]\n#[derive(Clone)]\npub struct S {{\n"
                f"    {'#[fieldx(' + f + ')] ' if f else ''}{direct}first_one: {ty},\n    second: u32 }}\n{build}"
                f"#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]\n{''.join(f'#[serde({x})] ' for x in struct)}\npub struct R {{ {rattr}first_one: {rty}, second: u32 }}\n"
                f"pub async fn run() -> (u32, u32) {{ compare::<S, R, {ty}>(|s| {look}, |r| {rlook}, |s| s.second, |r| r.second,\n"
                f"    |s: &mut S, v| {{ {put} }}, |r: &mut R, v| {{ {rput} }}, |r: &mut R| {{ {rfill} }}) }}\n}}\n")

    def count(self):
        return 1536


def generate(tier):
    for (mode, kind) in KINDS:
        for route, field, struct, fx in itertools.product(("fieldx", "direct"), FIELD, STRUCT, FX):
            d = Attr(mode, kind, route, field, struct, fx)
            if not d.ok() or (not field and route == "direct"):
                continue
            # everything in pairs, all three of them in the thorough tier
            if (bool(field) + bool(struct) + bool(fx) < 3) or tier != "quick":
                if tier != "quick" or kind in ("val", "opt", "lazy") or not (field and struct) or struct == ["deny_unknown_fields"]:
                    yield d


HEAD = """
use fieldx::fxstruct;
use serde::{Deserialize, Serialize, Serializer, Deserializer};
#[derive(Debug, Clone, Default, PartialEq, Serialize, Deserialize)]
pub struct N { pub x: u32, pub y: u32 }
pub trait W: Sized + Clone + PartialEq + std::fmt::Debug {
    fn five() -> Self;
    fn is7(&self) -> bool;
    fn num(&self) -> Option<u32>;
    fn of(n: u32) -> Self;
    fn seven(&self) -> bool { self.is7() }
}
impl W for u32 {
    fn five() -> u32 { 5 }
    fn is7(&self) -> bool { *self == 7 }
    fn num(&self) -> Option<u32> { Some(*self) }
    fn of(n: u32) -> u32 { n }
}
impl W for N {
    fn five() -> N { N { x: 5, y: 5 } }
    fn is7(&self) -> bool { self.x == 7 }
    fn num(&self) -> Option<u32> { Some(self.x) }
    fn of(n: u32) -> N { N { x: n, y: n } }
}
impl<T: W> W for Option<T> {
    fn five() -> Self { Some(T::five()) }
    fn is7(&self) -> bool { self.as_ref().map_or(false, T::is7) }
    fn num(&self) -> Option<u32> { self.as_ref().and_then(T::num) }
    fn of(n: u32) -> Self { Some(T::of(n)) }
}
pub mod sharp {
    use super::*;
    pub fn serialize<T: W, S: Serializer>(v: &T, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&format!("#{:?}", v.num())) }
    pub fn deserialize<'de, T: W, D: Deserializer<'de>>(d: D) -> Result<T, D::Error> {
        let s = String::deserialize(d)?;
        s.strip_prefix('#').and_then(|n| n.parse().ok()).map(T::of).ok_or_else(|| serde::de::Error::custom("no #"))
    }
}
const KEYS: [&str; 9] = ["first_one", "FIRST_ONE", "x", "y", "ren", "extra", "second", "SECOND", "t"];
pub fn compare<S, R, T>(look: fn(&S) -> Option<T>, rlook: fn(&R) -> Option<T>, second: fn(&S) -> u32, rsecond: fn(&R) -> u32,
                        put: fn(&mut S, T), rput: fn(&mut R, T), fill: fn(&mut R)) -> (u32, u32)
where S: Clone + Serialize + for<'a> Deserialize<'a>, R: Clone + Serialize + for<'a> Deserialize<'a>, T: W {
    let (mut bad, mut good) = (0, 0);
    for set in 0..512u32 {
        for val in ["7", "null", "\\"#7\\""] {
            let parts: Vec<String> = (0..9).filter(|i| set >> i & 1 == 1).map(|i| match KEYS[i] {
                k @ ("second" | "SECOND") => format!("\\"{k}\\":2"),
                "first_one" if set & 18 == 16 => format!("\\"firstOne\\":{val}"),
                "t" => "\\"t\\":\\"Me\\"".to_string(),
                k => format!("\\"{k}\\":{val}"),
            }).collect();
            let doc = format!("{{{}}}", parts.join(","));
            match (serde_json::from_str::<S>(&doc), serde_json::from_str::<R>(&doc)) {
                (Err(a), Err(b)) => if a.to_string() != b.to_string() { bad += 1; },
                (Ok(mut s), Ok(mut r)) => {
                    good += 1;
                    for step in 0..3 {
                        if look(&s) != rlook(&r) || second(&s) != rsecond(&r) { bad += 1; }
                        let mut filled = r.clone();
                        fill(&mut filled);
                        if serde_json::to_string(&s).ok() != serde_json::to_string(&filled).ok() { bad += 1; }
                        // it's a copy which was serialized
                        if look(&s) != rlook(&r) { bad += 1; }
                        let v = T::of(7 + step);
                        put(&mut s, v.clone());
                        rput(&mut r, v);
                    }
                }
                _ => bad += 1,
            }
        }
    }
    // documents which are accepted exist
    if good == 0 { bad += 1000; }
    (bad, 0)
}
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
