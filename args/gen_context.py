"""C32: a declaration works wherever and however it is written: in a function, next to names which hide those of the standard
library, from a macro, with unusual names of fields, with Self in types; and the compiler has nothing to say about what is generated."""
import itertools, re
from gen_generics import Generic, GENERICS, KINDS, STRUCTS, MODES, HEAD as BASE

HIDDEN = ("Option Result String Vec Box Arc Rc Weak Cell RefCell OnceCell OnceLock RwLock Mutex Default Clone Copy From Into Send Sync Sized "
          "Fn FnOnce Deref Drop Debug PhantomData Future Pin FXProxySync FXProxyAsync FXBuilder FXStruct FXRwLockSync FieldXError T Error Value S_").split()
MODULES = ["std", "core", "alloc", "fieldx", "serde", "tokio", "parking_lot"]
MACROS = ["panic", "format", "vec", "matches", "write", "unreachable", "assert", "stringify"]
RAW = ["r#type", "r#async", "r#fn", "r#ref", "r#match"]
ODD = ["value", "builder_", "me_", "this", "guard", "inner", "lock", "read", "write", "obj", "std", "fieldx", "result", "other", "init", "shadow", "field",
       "v", "self_", "_f", "__f", "f0", "größe", "Upper", "is_set", "clone_", "default_", "set", "get", "store", "clear", "take", "error", "args", "lazy", "optional", "_x_", "u32", "ok", "some"]
SELVES = {"in brackets": ("H<Self>", "H<S>"), "in an array": ("[H<Self>; 1]", "[H<S>; 1]"), "projection": ("<Self as Tr>::A", "u32"), "nested": ("(H<Self>, (u32, [H<Self>; 1]))", "(H<S>, (u32, [H<S>; 1]))"),
          "pointer": ("H<fn(&Self) -> Self>", "H<fn(&S) -> S>")}
MACRO = ["whole", "fragments"]
PLACES = ["function", "block", "hidden", "quiet"]
FORM = ["reversed", "rotated", "split", "commas", "path", "lines"]
# arguments of these have no order of their own
ORDERED = ("default", "error")


def split(args):
    """Arguments of a list"""
    out, depth, cur = [], 0, ""
    for c in args:
        depth += {"(": 1, ")": -1}.get(c, 0)
        if c == "," and not depth:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def written(args, how):
    """The same arguments in another way"""
    l = split(args)
    nested = lambda a: re.sub(r"^(\w+|r#async)\((.*)\)$", lambda m: a if m[1] in ORDERED or m[1] == "post_build" or '"' in m[2] and how == "commas" else f"{m[1]}({written(m[2], how)})", a)
    l = [nested(a) for a in l]
    if how == "reversed":
        l.reverse()
    elif how == "rotated":
        l = l[1:] + l[:1]
    elif how == "lines":
        return "/* all */\n" + "".join(f"// {k}\n {a}" + (" /* , */ ," if k < len(l) - 1 else "") + "\n" for k, a in enumerate(l))
    return ", ".join(l) + ("," if how == "commas" and l else "")




class Context(Generic):
    def __init__(self, mode, sargs, fargs, place, what=None):
        super().__init__(mode, "none", sargs, fargs)
        self.place, self.what = place, what

    def ok(self):
        if not super().ok():
            return False
        if self.place == "self" and "serde" in self.s and self.what == "pointer":
            return False    # serde wants bounds for these
        return True

    def generics(self):
        if self.place == "self":
            return "", "", "", SELVES[self.what][1], ""
        return GENERICS["none"]

    def renamed(self, t):
        n = self.what
        bare = n.removeprefix("r#")
        t = re.sub(r"\b(set|has|read|write|clear|build)_f\b", lambda m: f"{m[1]}_{bare}", t)
        t = re.sub(r"\bf_mut\b", f"{bare}_mut", t)
        t = re.sub(r"\.f\b", f".{n}", t)
        t = re.sub(r"(\{ |\] )f: ", lambda m: f"{m[1]}{n}: ", t)
        return re.sub(r'(\\?)"f(\\?)"', lambda m: f'{m[1]}"{bare}{m[2]}"', t)

    def module(self, i):
        self.build()
        p, w = self.place, self.what
        decl, impl, aux = self.decl, self.impl, self.aux
        run = "pub async fn run() -> (u32, u32) {\n" + self.steps + "}\n"
        if p == "name":
            decl, impl, run = (self.renamed(x) for x in (decl, impl, run))
        elif p == "self":
            decl = decl.replace(f"f: {SELVES[w][1]},", f"f: {SELVES[w][0]},")
            aux += "impl Tr for S { type A = u32; }\n"
        elif p == "form":
            decl = re.sub(r"#\[fieldx\((.*)\)\] f: ", lambda m: " ".join(f"#[fieldx({a})]" for a in split(m[1])) + " f: " if w == "split" else
                          m[0] if w == "path" else f"#[fieldx({written(m[1], w)})] f: ", decl)
            decl = re.sub(r"^#\[fxstruct\((.*)\)\]", lambda m: f"#[::fieldx::fxstruct({m[1]})]" if w == "path" else m[0] if w == "split" else f"#[fxstruct({written(m[1], w)})]", decl)
        if p == "function":
            return f"pub mod {i} {{ pub async fn run() -> (u32, u32) {{\nuse super::*;\n{decl}{impl}{aux}{self.steps}}}\n}}\n"
        if p == "block":
            return f"pub mod {i} {{ use super::*; pub async fn run() -> (u32, u32) {{\n    let bad = {{\n{decl}{impl}{aux}{self.steps.replace('(bad, 0)', 'bad')}    }};\n    (bad, 0)\n}}\n}}\n"
        std = lambda t: re.sub(r"(?<![\w:])(Result<|Ok\(|Some\(|Option<)", lambda m: {"Result<": "::std::result::Result<", "Ok(": "::std::result::Result::Ok(", "Some(": "::std::option::Option::Some(", "Option<": "::std::option::Option<"}[m[1]], t)
        uses = "#[allow(unused_imports)] use ::fieldx::fxstruct; #[allow(unused_imports)] use ::serde::{Serialize, Deserialize}; #[allow(unused_imports)] use crate::{Mk, V, E, Tr, H};\n"
        names = "S" + (", SBuilder" if "builder" in self.s else "")
        inner = f"pub mod go {{ use crate::*; use super::{{{names}}};\n{aux}{run}}}\n"
        if p == "hidden":
            hide = " ".join(f"pub struct {x};" for x in HIDDEN) + " ".join(f"pub mod {x} {{}}" for x in MODULES) + " ".join(f"macro_rules! {x} {{ ($($t:tt)*) => {{ compile_error!(\"hidden\") }} }}" for x in MACROS)
            return f"pub mod {i} {{ pub mod inner {{\n{uses}{inner}{hide}\n{decl}{std(impl)}}}\npub use inner::go::run;\n}}\n"
        if p == "quiet":
            # what the user's part of the module is warned about doesn't count
            return (f"pub mod {i} {{ #[deny(warnings)] #[allow(dead_code)] pub mod inner {{\n{uses}{decl}{impl}#[allow(warnings)]\n{inner}}}\npub use inner::go::run;\n}}\n")
        if p == "macro":
            if w == "whole":
                decl = f"macro_rules! mk {{ ($($t:tt)*) => {{ $($t)* }} }}\nmk! {{ {decl} {impl} }}\n"
            else:
                head, rest = decl.split("pub struct S", 1)
                fattr = re.search(r"#\[fieldx\((.*)\)\] f: ", rest)[1]
                ty = re.search(r"\)\] f: (.*), g: V \}", rest)[1]
                decl = (f"macro_rules! mk {{ ($v:vis, $s:ident, $f:ident, $t:ty, $g:ident, {{ $($b:tt)* }}) => {{ {head} $v struct $s {{ #[fieldx({fattr})] $f: $t, $g: V }} impl $s {{ $($b)* }} }} }}\n"
                        f"mk!(pub, S, f, {ty}, g, {{ {self.body()} }});\n")
            impl = ""
        return f"pub mod {i} {{\nuse super::*;\n{decl}{impl}{aux}{run}}}\n"

    def body(self):
        """What is inside of the impl"""
        return re.match(r"impl\s+S\s+\{(.*)\}\s*$", self.impl, re.S)[1] if self.impl else ""


def generate(tier):
    n = 0
    for m, s, f in itertools.product(MODES, STRUCTS, KINDS):
        if not Generic(m, "none", s, f).ok():
            continue
        n += 1
        cs = [(p, None) for p in PLACES] + [("macro", w) for w in MACRO] + [("form", w) for w in FORM] + [("self", w) for w in SELVES]
        if tier == "quick":
            cs = [c for k, c in enumerate(cs) if k < 6 or 6 <= k < 12 and (k + n) % 3 == 0 or k >= 12 and (k + n) % 5 < 2]
            cs += [("name", RAW[n % len(RAW)]), ("name", ODD[n % len(ODD)]), ("name", ODD[(n * 7 + 3) % len(ODD)])]
        else:
            cs += [("name", x) for k, x in enumerate(RAW + ODD) if (k + n) % 2]
        for p, w in cs:
            d = Context(m, s, f, p, w)
            if d.ok():
                yield d


def editions(tier):
    """The crate of the user is of another edition"""
    for m, s, f in itertools.product(MODES, STRUCTS, KINDS):
        for c in [("module", None), ("quiet", None)] + ([("hidden", None)] + [("macro", w) for w in MACRO] + [("function", None)] if tier != "quick" else []):
            d = Context(m, s, f, *c)
            if d.ok():
                yield d


ITEMS = ["struct S;", "struct S(u32);", "struct S();", "struct S(u32, u32);", "enum S { A }", "enum S {}", "enum S { A { f: u32 } }", "union S { f: u32 }", "fn s() {}", "trait S {}", "mod s {}", "type S = u32;",
         "impl X {}", "const A: u32 = 1;", "static A: u32 = 1;", "use std::fmt;", "macro_rules! s { () => {} }", "extern \"C\" {}"]


class Item:
    """Anything else is refused"""

    def __init__(self, args, item, before):
        self.args, self.item, self.before = args, item, before

    def module(self, i):
        return f"pub mod {i} {{\nuse super::*;\npub struct X;\n{self.before}\n#[fxstruct{self.args}]\npub {self.item}\n}}\n".replace("pub impl", "impl").replace("pub macro_rules", "macro_rules").replace("pub extern", "extern")

    def count(self):
        return 1


class Passed:
    """A macro which passes attributes through; the declaration has a name for the list of known findings"""

    def __init__(self, key, decl, body="", whole=True):
        self.key, self.decl, self.body, self.whole = key, decl, body, whole

    def module(self, i):
        m = ("($(#[$sm:meta])* pub struct $s:ident { $( $(#[$fm:meta])* $f:ident: $t:ty ),* }) => { $(#[$sm])* pub struct $s { $( $(#[$fm])* $f: $t ),* } }"
             if self.whole else "($s:ident { $( [$($a:tt)*] $f:ident: $t:ty ),* }) => { #[fxstruct(builder)] pub struct $s { $( #[fieldx($($a)*)] $f: $t ),* } }")
        return f"pub mod {i} {{\nuse super::*;\nmacro_rules! mk {{ {m} }}\nmk! {{ {self.decl} }}\nimpl S {{ {self.body} }}\n}}\n"

    def reason(self):
        return self.key

    def count(self):
        return 1


def passed(tier):
    yield Passed("nothing", "#[fxstruct] pub struct S { #[fieldx(get)] f: u32 }")
    yield Passed("lazy", "#[fxstruct()] pub struct S { #[fieldx(lazy, get, get_mut)] f: u32 }", "fn build_f(&self) -> u32 { 1 }")
    yield Passed("set", "#[fxstruct()] pub struct S { #[fieldx(inner_mut, get, set)] f: u32 }")
    yield Passed("serde", "#[fxstruct(serde(default(Self::spare())))] #[derive(Clone)] pub struct S { #[fieldx(get)] f: u32 }", "fn spare() -> Self { S { f: 1 } }")
    yield Passed("builder", "S { [get, builder(into)] f: u32 }", whole=False)


def items(tier):
    for a, i, b in itertools.product(["", "(sync)", "(r#async)", "(get)", "(builder)", "(rc)", "(serde)", "(lazy, get)", "(default)", "(no_new)"], ITEMS, ["", "#[derive(Debug)]", "/// About it"]):
        if "derive" in b and not re.match("struct|enum|union", i):
            continue
        yield Item(a, i, b)


HEAD = BASE + """/// Something which has a type, whichever
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct H<T>(u32, #[serde(skip)] std::marker::PhantomData<fn(T)>);
impl<T> Clone for H<T> { fn clone(&self) -> Self { H(self.0, std::marker::PhantomData) } }
impl<T> Default for H<T> { fn default() -> Self { H(0, std::marker::PhantomData) } }
impl<T> Mk for H<T> { fn mk(n: u32) -> Self { H(n, std::marker::PhantomData) } fn no(&self) -> u32 { self.0 } }
impl<T: Mk> Mk for [T; 1] { fn mk(n: u32) -> Self { [T::mk(n)] } fn no(&self) -> u32 { self[0].no() } }
pub trait Tr { type A; }
"""
