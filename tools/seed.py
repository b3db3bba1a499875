#!/usr/bin/env python3
"""seed.py ID: confirm a planted bug in a scratch copy of /repo (builds, stable tests pass, demo 0 / nonzero),
then run the check of its property against it.  seed.py --make ID: make patch.diff from the scratch copy's edits"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/seedrepo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=R + "/target")
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def fresh():
    if not os.path.exists(R): sh(f"cp -a /repo {R}")
    sh(f"cd {R} && git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
def build():
    sh(f"find {R}/src -name '*.rs' | xargs touch")
    p = sh(f"cd {R} && cargo build --locked --offline && cargo test --no-run --locked --offline", env=ENV)
    return p.returncode == 0, p.stdout
def stable():
    want = [t.split(".rs::", 1)[1] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
    p = sh(f"cd {R} && cargo test --locked --offline", env=ENV)
    ok = {l.split()[1] for l in p.stdout.splitlines() if l.startswith("test ") and l.endswith("ok")}
    return [n for n in want if n not in ok], p.stdout
def demo(d): return subprocess.run(["bash", f"{d}/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
def main(i, check=True):
    d = f"{V}/seeded/{i}"
    fresh()
    ok, o = build()
    assert ok, o
    # demo elsewhere, without the patch and meta data
    dd = "/tmp/seeddemo"; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = demo(dd)
    print(i, "demo on unchanged tree:", p.returncode)
    good = p.returncode == 0
    if not good: print(p.stdout[-1500:])
    q = sh(f"cd {R} && git apply {d}/patch.diff")
    if q.returncode: print("patch does not apply", q.stdout); return False
    ok, o = build()
    if not ok: print("does not build", o[-3000:]); fresh(); return False
    miss, o = stable()
    if miss: print("stable tests fail:", miss, o[-1500:]); good = False
    p = demo(dd)
    print(i, "demo with patch:", p.returncode, p.stdout.strip()[-300:])
    good &= p.returncode != 0
    print(i, "CONFIRMED" if good else "NOT CONFIRMED")
    if check:
        m = json.load(open(f"{d}/meta.json"))
        p = sh(f"D=/dev/shm/mcd3 bash /tmp/r.sh {R}/target/debug/krill-sync check {m['property']} --tier quick")
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, m["property"], "CAUGHT" if p.returncode == 1 and v else f"MISSED rc={p.returncode}", (p.stdout.split("\n", 3)[:3] if v else p.stdout[-400:]))
    fresh(); shutil.rmtree(dd, ignore_errors=True)
    return good
def make(spec):
    """spec: id, property, needs, breaks, edits [(file, old, new)], demo (python text)"""
    d = f"{V}/seeded/{spec['id']}"; os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in spec["edits"]:
        t = open(f"{R}/src/{f}").read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(f"{R}/src/{f}", "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh(f"cd {R} && git diff").stdout)
    # every change must touch lines of the original repository
    import re
    orig = 0
    for f in {e[0] for e in spec["edits"]}:
        bl = sh(f"cd {R} && git blame -s HEAD -- src/{f}").stdout.splitlines()
        for a, n in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh(f"cd {R} && git diff -U0 -- src/{f}").stdout, re.M):
            orig += sum(bl[int(a) - 1 + i].startswith("^") for i in range(int(n or 1)))
    if not orig: print(spec["id"], "CHANGES NO ORIGINAL LINE")
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write("import sys\nsys.dont_write_bytecode = True\nfrom ks import *\n" + spec["demo"].strip() + "\n")
    for x in ["ks.py", "clock.c", "trap.c"] + spec.get("files", []): shutil.copy(f"{V}/tools/seedlib/{x}", d)
    fresh()
if sys.argv[1] == "--spec":
    ns = {}; exec(open(sys.argv[2]).read(), ns)
    for sp in ns["SPECS"]:
        if len(sys.argv) > 3 and sp["id"] not in sys.argv[3:]: continue
        make(sp); main(sp["id"]); sys.stdout.flush()
elif sys.argv[1] == "--make":
    d = f"{V}/seeded/{sys.argv[2]}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh(f"cd {R} && git diff").stdout)
elif sys.argv[1] == "--fresh": fresh()
else:
    nocheck = "--no-check" in sys.argv
    r = [main(i, not nocheck) for i in sys.argv[1:] if not i.startswith("--")]
    sys.exit(0 if all(r) else 1)
