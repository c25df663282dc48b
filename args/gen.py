#!/usr/bin/env python3
"""gen.py DIR GROUP: writes the declarations of a group, split over a number of crates, and their descriptions."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def write(d, name, head, decls, tail):
    """One file; the descriptions go by the number of the module's first line"""
    out, line, index = [head], head.count("\n") + 1, []
    for i, x in enumerate(decls):
        m = x.module(f"m{i}")
        index.append([line, m, x.count()] + ([x.reason()] if hasattr(x, "reason") else []))
        line += m.count("\n")
        out.append(m)
    out.append(tail(decls))
    put(os.path.join(d, name + ".rs"), "".join(out))
    put(os.path.join(d, name + ".json"), json.dumps(index))


def put(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)


def deal(d, group, n, head, decls, tail=lambda ds: "fn main() {}\n"):
    decls = list(decls)
    for k in range(n):
        part = decls[k::n]
        write(d, f"{group}_{k}", head(part) if callable(head) else head, part, tail)


def main_of(ds):
    """Runs all of them, a line for each"""
    calls = "".join(f"    show({i}, || now(m{i}::run()));\n" for i in range(len(ds)))
    return ("fn show(i: usize, f: fn() -> (u32, u32)) {\n    match std::panic::catch_unwind(f) {\n"
            "        Ok(r) => println!(\"{i} {} {}\", r.0, r.1),\n        Err(_) => println!(\"{i} panic none\"),\n    }\n}\n"
            "fn main() {\n    std::panic::set_hook(Box::new(|_| ()));\n" + calls + "}\n")


def main():
    d, group = sys.argv[1:3]
    tier = os.environ.get("VERIF_TIER", "quick")
    os.makedirs(d, exist_ok=True)
    if group == "names":
        import gen_names as g
        deal(d, group, 8, g.head, g.generate(tier))
    elif group == "into":
        import gen_modes as g
        deal(d, group, 4, g.HEAD, g.intos(tier))
    elif group == "modes":
        import gen_modes as g
        deal(d, group, 6, g.HEAD, g.accessors(tier), main_of)
    elif group == "vis":
        import gen_vis as g
        deal(d, group, 8, g.HEAD, g.generate(tier))
    elif group == "okay":
        import gen_excl as g
        deal(d, group, 32, g.HEAD, g.accepted(tier))
    elif group == "excl":
        import gen_excl as g
        deal(d, group, 4, g.HEAD, g.rejected(tier))
    elif group == "skip":
        import gen_skip as g
        deal(d, group, 8, g.HEAD, g.generate(tier), main_of)
    elif group == "attrs":
        import gen_attrs as g
        deal(d, group, 8, g.HEAD, g.generate(tier), main_of)
    elif group == "auto":
        import gen_auto as g
        deal(d, group, 8, g.HEAD, g.generate(tier), main_of)
    elif group == "serattr":
        import gen_serattr as g
        deal(d, group, 16, g.HEAD, g.generate(tier), main_of)
    elif group == "guards":
        import gen_guards as g
        deal(d, group, 4, g.HEAD, g.generate(os.environ["FEATURES"].split(",")), main_of)
    elif group == "feat":
        import gen_features as g
        deal(d, group, 4, g.HEAD, g.supported(tier), main_of)
    elif group == "nofeat":
        import gen_features as g
        deal(d, group, 4, g.HEAD, g.refused(tier))
    elif group == "traits":
        import gen_traits as g
        deal(d, group, 8, g.HEAD, g.generate(tier), main_of)
    elif group == "context":
        import gen_context as g
        deal(d, group, 24, g.HEAD, g.generate(tier), main_of)
    elif group in ("e2018", "e2024"):
        import gen_context as g
        deal(d, group, 6, g.HEAD, g.editions(tier), main_of)
    elif group == "passed":
        import gen_context as g
        deal(d, group, 1, g.HEAD, g.passed(tier))
    elif group == "items":
        import gen_context as g
        deal(d, group, 2, g.HEAD, g.items(tier))
    elif group == "shape":
        import gen_shape as g
        deal(d, group, 8, g.HEAD, g.generate(tier), main_of)
    elif group == "fall":
        import gen_fallible as g
        deal(d, group, 8, g.HEAD, g.accepted(tier), main_of)
    elif group == "nofall":
        import gen_fallible as g
        deal(d, group, 4, g.HEAD, g.rejected(tier))
    elif group == "generics":
        import gen_generics as g
        deal(d, group, 24, g.HEAD, g.generate(tier), main_of)
    elif group == "ext":
        import gen_vis as g
        ds = list(g.external(tier))
        write(d, "ext_lib", g.HEAD, ds, lambda _: "")
        deal(d, group, 1, "", [g.Extern(x, f"m{i}") for i, x in enumerate(ds)])


main()
