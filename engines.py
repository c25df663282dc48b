"""Engines that explore executions of the real code."""
import bisect, glob, json, os, re, shutil, signal, subprocess, tarfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
EV = os.path.join(V, "evidence")
REPO = "/repo"


class Broken(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    # settings of the caller must not leak into builds
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                              timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        raise Broken(f"timed out: {' '.join(cmd)}")


def vendor_tokio():
    """The stand-in for tokio wraps the real one, under another package name."""
    dst = os.path.join(T, "vendor", "tokio-1.54.1")
    if os.path.exists(os.path.join(dst, ".done")):
        return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    crates = glob.glob(os.path.expanduser("~/.cargo/registry/cache/*/tokio-1.54.1.crate"))
    if not crates:
        raise Broken("tokio-1.54.1 isn't in cargo's cache")
    with tarfile.open(crates[0]) as t:
        t.extractall(os.path.dirname(dst), filter="data")
    p = os.path.join(dst, "Cargo.toml")
    s = open(p).read().replace('\nname = "tokio"\n', '\nname = "tokio_real"\n', 1)
    open(p, "w").write(s)
    open(os.path.join(dst, ".done"), "w").close()


def cargo(crate, args, target, flags, timeout=800):
    r = run(["cargo", "build", "--offline", *args], timeout, cwd=os.path.join(V, crate),
            env=env(RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(T, target)))
    return r.returncode, r.stdout


def errors(out, n=40):
    lines = out.splitlines()
    res = []
    for i, l in enumerate(lines):
        if l.startswith("error"):
            res += lines[i:i + 8]
        if len(res) > n:
            break
    return "\n".join(res or lines[-n:])


def conc(mode):
    def go(prop, tier):
        vendor_tokio()
        rc, out = cargo("conc", ["--bin", mode, "--features", f"f_{mode}"], "conc", "--cfg fieldx_mc -Awarnings")
        if rc != 0:
            return build_failure(prop, mode, out)
        exe = os.path.join(T, "conc", "debug", mode)
        covf = os.path.join(T, f"cov-{mode}-{prop}.json")
        if os.path.exists(covf):
            os.unlink(covf)
        e = env(VERIF_TIER=tier, MC_REPLAY_DIR=os.path.join(EV, "replay", mode))
        r = run([exe, prop, covf], 880 if tier == "quick" else 7200, env=e)
        if r.returncode == 1:
            rp = os.path.join(EV, "replay", mode, f"{prop}.txt")
            # does the recorded schedule fail again?
            again = run([exe, "--replay", rp], 120, env=e)
            if again.returncode != 1:
                print(f"the violation at {rp} did not show up when replayed, exploring once more")
                r = run([exe, prop, covf], 880, env=e)
        print("".join(l for l in r.stdout.splitlines(True) if not l.startswith("VIOLATION")), end="")
        if r.returncode not in (0, 1) or not os.path.exists(covf):
            raise Broken(f"exit code {r.returncode}")
        return json.load(open(covf)), ([rp] if r.returncode == 1 else [])
    return (f"interleavings of {mode} structs", go)


def own_code_at_fault(out):
    """Does the build fail in the structs under test (and not in the crates of /repo themselves)?"""
    locs = [l.split("--> ", 1)[1] for l in out.splitlines() if "--> " in l]
    return bool(locs) and "could not compile `fieldx" not in out


def build_failure(prop, what, out):
    """The structs under test use the documented interface only: when they don't build, that interface is broken"""
    if not own_code_at_fault(out):
        raise Broken("the harness doesn't build:\n" + errors(out))
    d = os.path.join(EV, "replay", what)
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, f"{prop}-build.txt")
    with open(rp, "w") as f:
        f.write(f"Structs which use documented arguments and helpers don't compile.\n\n{errors(out, 200)}\n")
    print(errors(out))
    return {"build": "failed"}, [rp]


SEQ_BINS = {}
for g in ("lazy", "opt", "val", "ctor"):
    SEQ_BINS[g] = [f"{g}_{m}" for m in "psa"]
SEQ_BINS["builder"] = SEQ_BINS["post"] = [f"build_{m}" for m in "psa"]
SEQ_BINS["rc"] = ["rc"]
SEQ_BINS["serde"] = [f"serde_{m}" for m in "psa"]
SEQ_BINS["de"] = [f"de_{m}" for m in "psa"]


FB = ("ctor_", "build_", "de_")


def seq_exe(b):
    return os.path.join(T, "seq", "fb" if b.startswith(FB) else "debug", b)


def seq_build(bins):
    gen = os.path.join(T, "seqgen")
    r = run(["python3", os.path.join(V, "seq", "gen.py"), gen], 60)
    if r.returncode:
        raise Broken("gen.py: " + r.stdout)
    for fb in (False, True):
        args = [x for b in dict.fromkeys(bins) if b.startswith(FB) == fb for x in ("--bin", b)]
        if args:
            if fb:
                args += ["--profile", "fb"]
            r = run(["cargo", "build", "--offline", *args], 800, cwd=os.path.join(V, "seq"),
                    env=env(RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=os.path.join(T, "seq"), SEQ_GEN=gen))
            if r.returncode:
                break
    return r.returncode, r.stdout


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)):
            a[k] = round(a.get(k, 0) + v, 2)
        elif isinstance(v, list):
            a[k] = a.get(k, []) + v
        else:
            a[k] = f"{a[k]}, {v}" if a.get(k) else v


def seq(what, *groups):
    def go(prop, tier):
        bins = list(dict.fromkeys(b for g in groups for b in SEQ_BINS[g]))
        rc, out = seq_build(bins)
        if rc != 0:
            return build_failure(prop, "seq", out)
        cov, viol = {}, []
        e = env(VERIF_TIER=tier)
        for b in bins:
            exe = seq_exe(b)
            covf = os.path.join(T, f"cov-{b}-{prop}.json")
            if os.path.exists(covf):
                os.unlink(covf)
            d = os.path.join(EV, "replay", b)
            r = run([exe, prop, covf, d, ",".join(groups)], 800 if tier == "quick" else 7200, env=e)
            print("".join(l for l in r.stdout.splitlines(True) if not l.startswith("VIOLATION")), end="")
            if r.returncode not in (0, 1) or not os.path.exists(covf):
                raise Broken(f"{b}: exit code {r.returncode}")
            c = json.load(open(covf))
            c["samples"] = c["samples"][:1]
            merge(cov, c)
            if r.returncode == 1:
                viol.append(os.path.join(d, f"{prop}.txt"))
                break
        return cov, viol
    return (f"operation sequences: {what}", go)


ARGS_BINS = {"names": 8, "into": 4, "modes": 6, "vis": 8, "ext": 1, "okay": 32, "excl": 4, "skip": 8, "attrs": 8, "generics": 24, "auto": 8, "guards": 4, "serattr": 16, "feat": 4, "nofeat": 4, "fall": 8, "shape": 8, "traits": 8, "nofall": 4, "context": 24, "items": 2, "e2018": 6, "e2024": 6, "passed": 1}


def args_locate(src, files):
    """The place in a generated file which a compiler's message is about"""
    while src:
        if os.path.basename(src["file_name"]) in files:
            return os.path.basename(src["file_name"]), src["line_start"]
        src = (src.get("expansion") or {}).get("span")
    return None


def args_compile(group, gen, verb="check", enough=40, extra=()):
    """Compiles the crates of a group, returns {(file, number of the module): [(line, message)]}; gives up after `enough`
    modules with errors (looking for suggestions takes the compiler a second per error)"""
    bins = [f"{group}_{k}" for k in range(ARGS_BINS[group])]
    libs = ["ext_lib"] if group == "ext" else []
    index = {b + ".rs": json.load(open(os.path.join(gen, b + ".json"))) for b in libs + bins}
    starts = {f: [m[0] for m in ms] for f, ms in index.items()}
    found, stray, built = {}, [], set()
    errf = open(os.path.join(T, f"args-{group}.err"), "w+")
    p = subprocess.Popen(["cargo", verb, "--offline", "--keep-going", "--message-format=json", *extra,
                          *(["--lib", "--features", "ext"] if libs else []), *(x for b in bins for x in ("--bin", b))],
                         stdout=subprocess.PIPE, stderr=errf, text=True, errors="replace", start_new_session=True,
                         cwd=os.path.join(V, "args"),
                         env=env(RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=os.path.join(T, "args"), ARGS_GEN=gen))
    timer = threading.Timer(780, lambda: os.killpg(p.pid, signal.SIGKILL))
    timer.start()
    for l in p.stdout:
        j = json.loads(l) if l.startswith("{") else {}
        if j.get("reason") == "compiler-artifact":
            built.add(j["target"]["name"])
        if j.get("reason") != "compiler-message" or not j["message"]["level"].startswith("error"):
            continue
        m = j["message"]
        places = [w for s in sorted(m["spans"], key=lambda s: not s["is_primary"]) if (w := args_locate(s, index))]
        if places:
            f, line = places[0]
            i = bisect.bisect_right(starts[f], line) - 1
            if i >= 0:
                found.setdefault((f, i), []).append((line - starts[f][i], (m["code"] or {}).get("code", ""), m["message"]))
                if len(found) >= enough:
                    os.killpg(p.pid, signal.SIGKILL)
                    break
                continue
        if not m["message"].startswith("aborting due to") and not m["message"].startswith("could not compile"):
            stray.append(m.get("rendered") or m["message"])
    p.stdout.close()
    rc = p.wait()
    timer.cancel()
    errf.seek(0)
    err = errf.read()
    errf.close()
    if len(found) < enough:
        if not found and "late/diagnostics.rs" in err:
            # it has looked for a hint about a name which can't be resolved
            found[bins[0] + ".rs", 0] = [(0, "", "somewhere (not necessarily here) is an error the compiler crashes at when reporting it:\n" + err[-1500:])]
        lost = [b for b in bins if b not in built and not any("crashes" in e[0][2] for e in found.values()) and not any(f == "ext_lib.rs" for f, _ in found) and not any(f == b + ".rs" for f, _ in found)]
        if stray or lost or (rc and not found):
            raise Broken(f"the declarations can't be compiled ({' '.join(lost)}):\n" + "\n".join(stray[:5]) + errors(err))
    return index, found


def rejected(what, group, features=None):
    """None of the declarations of the group may compile, each must get an error of the macro"""
    def go(prop, tier):
        index, found = args_generate(group, tier, features, enough=1 << 30)
        n = sum(len(ms) for ms in index.values())
        cov = {"states": n, "transitions": sum(m[2] for ms in index.values() for m in ms),
               "traces_validated_against_impl": len(found), "samples": [next(iter(index.values()))[0][1][:400]]}
        # what the compiler itself finds wrong has a code
        passed = [ms[i][1] for f, ms in sorted(index.items()) for i in range(len(ms))
                  if not any(args_reason(ms[i], message) for _, code, message in found.get((f, i), []) if not code)]
        if passed:
            on = f" with features {features}" if features is not None else ""
            return cov, [args_violation(prop, group, f"{len(passed)} of {n} declarations were not rejected{on}:\n\n" + "\n".join(passed[:20]))]
        return cov, []
    return (f"declarations: {what}", go)


def listed(what, group):
    """Each declaration of the group must compile, but for those which are known not to, each with its error; in the file
    of known findings a line is `known: property=P group/name "the error"`"""
    def go(prop, tier):
        index, found = args_generate(group, tier, enough=1 << 30)
        (f, ms), = index.items()
        known = dict(re.findall(rf'^known: property={prop} {group}/(\S+) "(.*?)"', open(os.path.join(V, "known-findings.txt")).read(), re.M))
        cov = {"states": len(ms), "transitions": sum(m[2] for m in ms), "traces_validated_against_impl": len(ms),
               "samples": [ms[0][1][:400]]}
        text = ""
        for i, m in enumerate(ms):
            errs = {message for _, _, message in found.get((f, i), [])}
            name = m[3]
            if errs and name in known and all(known[name] in e for e in errs):
                print(f"KNOWN-FINDING: property={prop} {group}/{name}: {sorted(errs)[0]}")
            elif errs:
                text += m[1] + "".join(f"// {e}\n" for e in sorted(errs)) + "\n"
        return cov, [args_violation(prop, group, text)] if text else []
    return (f"declarations: {what}", go)


def args_reason(decl, message):
    """Some declarations must be rejected for a certain reason"""
    return len(decl) < 4 or re.search(rf"\b{decl[3]}\b", message) is not None


def args_generate(group, tier, features=None, **kw):
    gen = os.path.join(T, "argsgen" if features is None else "argsgen-" + features.replace(",", "-"))
    extra = () if features is None else ("--no-default-features", "--features", features)
    r = run(["python3", os.path.join(V, "args", "gen.py"), gen, group], 120, env=env(VERIF_TIER=tier, FEATURES=features or ""))
    if r.returncode:
        raise Broken("gen.py: " + r.stdout)
    return args_compile(group, gen, extra=extra, **kw)


def args_violation(prop, group, what):
    d = os.path.join(EV, "replay", "args")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, f"{prop}-{group}.txt")
    with open(rp, "w") as f:
        f.write(what)
    print(what[:3000])
    return rp


def args(what, group, run_too=False, features=None):
    """Every declaration of the group is compiled with the real macro and must agree with the reference model"""
    def go(prop, tier):
        index, found = args_generate(group, tier, features, verb="build" if run_too else "check")
        cov = {"states": sum(len(ms) for ms in index.values()),
               "transitions": sum(m[2] for ms in index.values() for m in ms),
               "traces_validated_against_impl": sum(len(ms) for ms in index.values()) - len(found),
               "samples": [next(iter(index.values()))[0][1][:400]]}
        if found:
            text = f"{len(found)} of {cov['states']} declarations don't have the methods they must have"
            text += (f" with features {features}" if features is not None else "") + ":\n\n"
            for (f, i), ms in sorted(found.items())[:20]:
                text += f"// {f}\n{index[f][i][1]}" + "".join(f"// line {l + 1}: {m}\n" for l, _, m in ms) + "\n"
            return cov, [args_violation(prop, group, text)]
        if run_too:
            text = ""
            for f, ms in index.items():
                r = run([os.path.join(T, "args", "debug", f[:-3])], 300)
                out = [l.split() for l in r.stdout.splitlines()]
                if r.returncode or len(out) != len(ms):
                    raise Broken(f"{f}: exit code {r.returncode}\n{r.stdout[-2000:]}")
                for i, got, want in out:
                    if got != want:
                        text += f"// {f}: observed {got}, must be {want}\n{ms[int(i)][1]}\n"
            if text:
                return cov, [args_violation(prop, group, text)]
        return cov, []
    return (f"declarations: {what}", go)


def process(crate, quick, thorough):
    """The exploration is done by one process, up to a depth"""
    def go(prop, tier):
        rc, out = cargo(crate, [], crate, "-Awarnings")
        if rc:
            return build_failure(prop, crate, out)
        covf = os.path.join(T, f"cov-{crate}.json")
        if os.path.exists(covf):
            os.unlink(covf)
        d = os.path.join(EV, "replay", crate)
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{prop}.txt")
        r = run([os.path.join(T, crate, "debug", crate), covf, rp, str(quick if tier == "quick" else thorough)],
                800 if tier == "quick" else 14400, env=env())
        print(r.stdout[-6000:], end="")
        if r.returncode not in (0, 1) or not os.path.exists(covf):
            raise Broken(f"exit code {r.returncode}")
        return json.load(open(covf)), ([rp] if r.returncode else [])
    return go


ENGINES = {
    "C01": [conc("sync")],
    "C02": [conc("sync")],
    "C03": [seq("lazy fields", "lazy"), conc("sync"), conc("async")],
    "C04": [conc("sync"), conc("async")],
    "C05": [conc("sync")],
    "C06": [conc("async")],
    "C07": [conc("async")],
    "C08": [seq("all kinds of fields", "lazy", "opt", "val"), conc("sync"), conc("async")],
    "C09": [seq("lazy fields", "lazy")],
    "C10": [seq("optional fields", "opt")],
    "C11": [seq("always-valued fields", "val")],
    "C12": [seq("constructors", "ctor")],
    "C13": [seq("object builders", "builder")],
    "C14": [seq("object builders", "post")],
    "C15": [seq("round trips", "serde")],
    "C16": [seq("all subsets of fields", "de")],
    "C17": [seq("references", "rc")],
    "C18": [seq("all kinds of fields", "lazy", "opt", "val", "ctor", "builder", "post", "rc", "serde", "de")],
    "C19": [args("names and presence of helpers", "names"), args("conversion of arguments", "into"),
            args("modes of accessors", "modes", True)],
    "C20": [args("combinations which are fine", "okay"), rejected("contradictions and unknown arguments", "excl")],
    "C21": [args("visibility inside of the crate", "vis"), args("visibility for another crate", "ext")],
    "C22": [args("skipped fields", "skip", True)],
    "C23": [args("attributes of generated items", "attrs", True)],
    "C24": [args("generic structs", "generics", True)],
    "C25": [args("Send and Sync", "auto", True), args("guards of sync and async fields, with send_guard", "guards", True, "sync,async,send_guard"),
            args("guards of async fields", "guards", True, "async")],
    "C29": [args("constructors and traits", "traits", True)],
    "C31": [args("what is left of the declaration", "shape", True)],
    "C32": [args("placed and written in different ways", "context", True), args("in crates of the 2018 edition", "e2018", True), args("in crates of the 2024 edition", "e2024", True), rejected("other items than structs with named fields", "items"),
            listed("attributes passed through by a macro", "passed")],
    "C28": [args("fallible builders", "fall", True), rejected("fallible builders with unknown errors", "nofall")],
    "C27": [("argument lists", process("aux", 4, 5))],
    "C30": [("containers", process("direct", 5, 6))],
    "C34": [("references to inner mutable fields", process("borrow", 5, 6))],
    "C35": [args("attributes of serde", "serattr", True)],
    "C33": [("panics of user code", process("fault", 4, 5))],
    "C26": [e for s in ("", "sync", "async", "serde", "sync,async", "sync,serde", "async,serde", "sync,async,serde")
            for e in ([args(f"with features {s or 'none'}", "feat", True, s)]
                      + ([rejected(f"without the features they need, with {s or 'none'}", "nofeat", s)] if s.count(",") < 2 else []))],
}

_C = ("stateless exploration of the real implementation: every explored schedule is an execution of /repo's code under a "
      "controlled scheduler, its history is checked against the sequential specification")
_S = ("explicit-state exploration of all operation sequences up to the stated depths: every sequence is executed on the real "
      "generated code and compared step by step with a reference model")
_A = ("exhaustive enumeration of the declarations of a bounded space: each one is expanded and compiled by the real macro and "
      "its generated interface is compared with a reference model of the documented rules")
_X = ("exhaustive enumeration of all argument lists over a vocabulary up to a length: each is parsed by the real implementation and "
      "what it makes of it is compared with a reference model of the documented syntax")
TECH = {p: _C if p < "C09" else _S if p < "C19" else _A for p in ENGINES}
TECH["C27"] = _X
TECH["C30"] = _S
