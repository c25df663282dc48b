#!/usr/bin/env python3
"""gen.py: writes src/subjects.rs, structs with an inner mutable field f and what operations mean for them"""
import os
SUBJECTS = []
for level in ("field", "struct"):
    for st in ("", "rc", "sync", "serde"):
        for opt in (False, True):
            for dflt in ("", "default(five()), "):
                for acc in ("get, get_mut", "get(clone), get_mut", "get(copy), get_mut"):
                    for into in ("set", "set(into)"):
                        if level == "struct" and (into != "set" or st == "sync") or "clone" in acc and into == "set":
                            continue
                        SUBJECTS.append((level, st, opt, acc, dflt, into))


def subject(i, level, st, opt, acc, dflt, into):
    ty = "u32" if "copy" in acc else "W"
    mk = (lambda n: n) if ty == "u32" else (lambda n: f"W({n})")
    num = lambda v: v if ty == "u32" else v + ".0"
    mode = ""
    fargs = mode + ("inner_mut, " if level == "field" or st == "sync" else "") + ("optional, clearer, predicate, " if opt else "") + dflt.replace("five", "five" + ty) + acc + ", " + into
    sargs = ", ".join(x for x in (st, "inner_mut" if level == "struct" else "", "builder") if x)
    own = "Rc<S>" if st == "rc" else "S"
    read = lambda g: f"(*{g}).as_ref().map(|x| {num('(*x)' if ty == 'u32' else 'x')})" if opt else f"Some({num('(*' + g + ')')})"
    old = (lambda e: f"{e}.map(|x| {num('x')})") if opt else (lambda e: f"Some({num(e)})")
    ops, fs = ["Excl", "Set", "Get", "Once", "Other", "Debug"], []
    if "clone" not in acc and "copy" not in acc:
        ops.append("Shared")
        fs.append(f"fn shared(&self) -> Reading<'_> {{ let g = self.0.f(); Box::new(move || {read('g')}) }}")
        fs.append(f"fn get(&self) -> Option<u32> {{ let g = self.0.f(); {read('g')} }}")
    else:
        fs.append(f"fn get(&self) -> Option<u32> {{ {old('self.0.f()')} }}")
    put = f"*g = x.map(|x| {mk('x')})" if opt else f"*g = {mk('x.unwrap()')}"
    fs.append(f"fn excl(&self) -> Writing<'_> {{ let mut g = self.0.f_mut(); Box::new(move |x| {{ if let Some(x) = x {{ {put} }} {read('g')} }}) }}")
    arg = mk("n") if into == "set" else "Raw(n)" if ty == "W" else "Small(n as u8)"
    fs.append(f"fn set(&self, n: u32) -> Option<u32> {{ {old(f'self.0.set_f({arg})')} }}")
    if opt:
        ops += ["Take", "Clear", "Has"]
        fs.append(f"fn clear(&self) -> Option<u32> {{ {old('self.0.clear_f()')} }}")
        fs.append("fn has(&self) -> bool { self.0.has_f() }")
    fs.append("fn other(&self, n: u32) -> Option<u32> { let a = *self.0.g(); *self.0.g_mut() = a + n; self.0.set_g(a); Some(*self.0.g()) }")
    fs.append('fn debug(&self) -> bool { !format!("{:?}", self.0).is_empty() }')
    if st == "rc":
        ops.append("Dup")
        fs.append("fn dup(&self) -> Option<u32> { let o = Own(self.0.myself().unwrap()); o.get() }")
    else:
        ops += ["Dup", "Eq"]
        fs.append("fn dup(&self) -> Option<u32> { let o = Own(self.0.clone()); let a = o.get(); o.set(77); a }")
        fs.append(f"fn eq(&self, n: Option<u32>) -> bool {{ let o = Own(S::new()); *o.0.f_mut() = {'n.map(|n| ' + mk('n') + ')' if opt else mk('n.unwrap()')}; self.0 == o.0 }}")
    if st == "serde":
        ops.append("Ser")
        fs.append("fn ser(&self) -> Option<u32> { shown(&serde_json::to_string(&self.0).unwrap()) }")
    derive = "#[derive(Debug)]" if st == "rc" else "#[derive(Clone, Debug, PartialEq)]"
    body = "\n        ".join(fs)
    start = "Some(5)" if dflt else "None" if opt else "Some(0)"
    g = "" if level == "struct" else "inner_mut, "
    return f'''pub mod m{i} {{
    use super::*;
    #[fxstruct({sargs})]
    {derive}
    pub struct S {{ #[fieldx({fargs})] f: {ty}, #[fieldx({g}default(3), get, get_mut, set, builder(off))] g: u32 }}
    struct Own({own});
    #[allow(unused_mut)]
    impl Subject for Own {{
        {body}
    }}
    pub fn case() -> Case {{
        Case {{ name: "{i}", text: r#"#[fxstruct({sargs})] struct S {{ #[fieldx({fargs})] f: {ty} }}"#, ops: vec![{", ".join(ops)}], start: {start}, new: || Box::new(Own(S::new())), build: || Box::new(Own(S::builder().f({mk(9)}).build().unwrap())) }}
    }}
}}
'''


here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "src/subjects.rs"), "w") as f:
    f.write("// by gen.py\nuse crate::*;\nuse crate::Op::*;\nuse fieldx::fxstruct;\nuse serde::{Deserialize, Serialize};\n#[allow(unused_imports)]\nuse std::rc::Rc;\n")
    for i, s in enumerate(SUBJECTS):
        f.write(subject(i, *s))
    f.write("pub fn cases() -> Vec<Case> {\n    vec![" + ", ".join(f"m{i}::case()" for i in range(len(SUBJECTS))) + "]\n}\n")
