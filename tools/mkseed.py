#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SPEC.py: SPEC has EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO. Writes seeded/ID and tries it:
baseline tests with the patch (must pass), demo without and with it, in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ident, prop, spec = sys.argv[1:4]
s = runpy.run_path(spec)
d = f"{V}/seeded/{ident}"
os.makedirs(d, exist_ok=True)
wt = "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
try:
    for f, old, new in s["EDITS"]:
        t = open(f"/repo/{f}").read()
        assert t.count(old) == 1, (f, old, t.count(old))
        base = sh(f"git -C /repo show ff9d304:{f}").stdout.splitlines()
        gone = [l for l in old.splitlines() if l not in new.splitlines() and l not in base]
        assert not gone, ("not lines of the original repository", gone)
        open(f"/repo/{f}", "w").write(t.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    open(f"{d}/demo.rs", "w").write(s["DEMO"])
    shutil.copy(f"{V}/tools/demo/demo.sh", f"{d}/demo.sh")
    if s.get("DEPS"):
        t = open(f"{d}/demo.sh").read()
        open(f"{d}/demo.sh", "w").write(t.replace('serde_json = "1"\n', 'serde_json = "1"\n' + s["DEPS"]))
    if s.get("FEATURES") is not None:
        t = open(f"{d}/demo.sh").read()
        open(f"{d}/demo.sh", "w").write(t.replace('features = ["sync", "async", "serde"]', f'default-features = false, features = {s["FEATURES"]}'))
    if s.get("MUST_FAIL"):  # demo.rs must not compile; demo.rs with cfg(ok) must
        t = open(f"{d}/demo.sh").read()
        a, b = t.split('cd "$t" && RUSTFLAGS')
        open(f"{d}/demo.sh", "w").write(a + """cd "$t" && export CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
RUSTFLAGS="-Awarnings --cfg ok" cargo build --offline -q || exit 3
! RUSTFLAGS=-Awarnings cargo build --offline -q
""")
    json.dump({"property": prop, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed-out.json")
    ok = False
    if os.path.exists("/tmp/seed-out.json"):
        o = json.load(open("/tmp/seed-out.json")); b = json.load(open("/opt/vp/BASELINE.json"))
        miss = set(b["stable"]) - set(o["passed"])
        os.unlink("/tmp/seed-out.json")
        ok = not miss
        print("tests:", "pass" if ok else f"FAIL {sorted(miss)[:5]}")
    else:
        print(r.stdout[-1500:])
    r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("demo with patch:", r1.returncode, r1.stdout[-400:])
    checks = {}
    for p in ([prop] + sys.argv[4:] if "-n" not in sys.argv else []):
        c = sh(f"python3 {V}/check.py {p}", cwd=V)
        print("check", p, c.returncode, [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "check of"))] or c.stdout[-300:])
finally:
    sh("git -C /repo checkout -- .")
r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
print("demo without patch:", r0.returncode, r0.stdout[-400:])
if not (ok and r0.returncode == 0 and r1.returncode != 0):
    print("=> NOT KEPT")
    shutil.rmtree(d)
else:
    print("=> kept", d)
