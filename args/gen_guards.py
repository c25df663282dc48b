"""C25: guards can be sent to other threads and released there: those of sync fields with the feature send_guard, those of async fields always."""
import itertools

KINDS = {"lazy": ("get", "get_mut", "reader", "writer"), "lazy, fallible(error(E))": ("get", "get_mut", "reader", "writer"),
         "lazy, default(Make::make())": ("get", "get_mut", "reader", "writer"),
         "lock": ("get", "get_mut", "reader", "writer"), "": ("reader", "writer"), "lock, default(Make::make())": ("get", "get_mut", "reader", "writer"),
         "optional": ("get", "get_mut", "reader", "writer"), "optional, default(Make::make())": ("get", "get_mut", "reader", "writer"),
         "optional, lock": ("get", "get_mut", "reader", "writer")}
TYPES = {"u32": "7", "String": "\"7\".to_string()", "Vec<Box<u32>>": "vec![Box::new(7)]"}


class Guards:
    def __init__(self, feats, mode, sargs, level, kind, helpers, ty):
        self.a = feats, mode, sargs, level, kind, helpers, ty
        self.seen = 0

    def module(self, i):
        feats, mode, sargs, level, kind, helpers, ty = self.a
        asyn = "async" in mode
        aw = ".await" if asyn else ""
        fall = "fallible" in kind
        opt, lazy = "optional" in kind, "lazy" in kind
        hs = ", ".join(helpers)
        s = ", ".join(x for x in (mode, sargs, hs if level == "struct" else "") if x)
        f = ", ".join(x for x in (kind, hs if level == "field" else "", "set") if x)
        a = "async " if asyn else ""
        impl = ""
        if lazy:
            impl = f"{a}fn build_f(&self) -> " + (f"Result<{ty}, E> {{ Ok(Make::make()) }}" if fall else f"{ty} {{ Make::make() }}")
        un = ".unwrap()" if fall else ""
        new = TYPES[ty]
        steps = []
        for h in helpers:
            if h == "get":
                steps.append(f"let g = s.f(){aw}{un}; there(move || {{ let _ = &*g; drop(g); }});")
            elif h == "reader":
                steps.append(f"let g = s.read_f(){aw}{un}; there(move || {{ let _ = &*g; drop(g); }});")
            elif h == "get_mut":
                v = f"Some({new})" if opt else new
                steps.append(f"let mut g = s.f_mut(){aw}{un}; there(move || {{ *g = {v}; drop(g); }});")
            else:
                # the writer of a lazy field refers to the field itself
                put = f"g.store({new});" if lazy else f"*g = {'Some(' + new + ')' if opt else new};"
                steps.append(f"let mut g = s.write_f(){aw}; there(move || {{ {put} drop(g); }});")
            # nobody holds the lock any more
            steps.append(f"s.set_f({new}){aw}; all += 1;")
        # tasks which hold guards while they wait for something else
        held = []
        if asyn:
            for h in helpers:
                e = {"get": f"s.f().await{un}", "reader": f"s.read_f().await{un}", "get_mut": f"s.f_mut().await{un}", "writer": "s.write_f().await"}[h]
                held.append(f"fut(async {{ let g = {e}; std::future::ready(()).await; drop(g); }});")
        self.seen = len(held) + len(steps) // 2
        n = len(steps) // 2
        mut = "" if "rc" in sargs else "mut "
        return (f"pub mod {i} {{\nuse super::*;\n#[fxstruct({s})]\npub struct S {{ #[fieldx({f})] f: {ty} }}\nimpl S {{ {impl} }}\n"
                f"pub fn tasks(s: &S) {{ {' '.join(held)} }}\n"
                f"#[allow(unused_mut)]\npub async fn run() -> (u32, u32) {{\n    let mut all = 0;\n    let mut s = S::new();\n    " + "\n    ".join(steps) + f"\n    (all, {n})\n}}\n}}\n")

    def count(self):
        return self.seen


def generate(feats):
    for mode, sargs, level, (kind, helpers), ty in itertools.product(("sync", "r#async"), ("", "rc", "builder", "rc, builder"), ("field", "struct"), KINDS.items(), TYPES):
        if mode == "sync" and "send_guard" not in feats:
            continue
        hs = [h for h in helpers]
        yield Guards(feats, mode, sargs, level, kind, hs, ty)
        if level == "field":
            for h in hs:
                yield Guards(feats, mode, sargs, level, kind, [h], ty)


HEAD = """use fieldx::fxstruct;
#[derive(Debug, Clone)]
pub struct E;
impl From<fieldx::error::FieldXError> for E { fn from(_: fieldx::error::FieldXError) -> Self { E } }
pub trait Make { fn make() -> Self; }
impl<T: Default> Make for T { fn make() -> T { T::default() } }
pub fn there<F: FnOnce() + Send>(f: F) { std::thread::scope(|t| { t.spawn(f); }) }
pub fn fut<F: std::future::Future + Send>(_: F) {}
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        _ => panic!("pending"),
    }
}
"""
