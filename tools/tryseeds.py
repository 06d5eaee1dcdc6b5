#!/usr/bin/env python3
"""tryseeds.py [--nocheck] ID...: validates seeded bugs in /repo (patched and undone again)."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
nocheck = "--nocheck" in sys.argv
def sh(c, t=1200, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, str(e.stdout), str(e.stderr))
assert not sh("git -C /repo status --porcelain").stdout, "/repo is not clean"
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
assert sh("bash /opt/vp/build.sh").returncode == 0
res = {}
for i in ids:
    d = f"{V}/seeded/{i}"
    r = sh(f"bash {d}/demo.sh", 300, cwd="/repo")
    res[i] = ["clean-demo-ok" if r.returncode == 0 else f"CLEAN-DEMO-FAILS {r.returncode} {r.stdout[-600:]} {r.stderr[-600:]}"]
for i in ids:
    d = f"{V}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        res[i].append("DOES-NOT-APPLY " + r.stderr); continue
    try:
        r = sh("bash /opt/vp/test.sh /tmp/seed.json")
        o = json.load(open("/tmp/seed.json")) if os.path.exists("/tmp/seed.json") else {"passed": [], "failed": []}
        b = json.load(open("/opt/vp/BASELINE.json"))
        st = b.get("stable", b.get("passed", b)) if isinstance(b, dict) else b
        res[i].append("tests-pass" if len(o["passed"] if isinstance(o["passed"], list) else range(o["passed"])) >= 140 and not o["failed"] else f"TESTS-FAIL {o['failed']} {r.stdout[-300:]}")
        r = sh(f"bash {d}/demo.sh", 300, cwd="/repo")
        res[i].append("demo-fails" if r.returncode else "DEMO-PASSES")
        if not nocheck:
            t = time.time()
            c = man.get(m["property"])
            if c:
                q = c["quick_cmd"]
                r = sh(f"VERIF_SEED=1 VERIF_TIER=quick {q}", 900, cwd=V)
                caught = r.returncode == 1 and f"VIOLATION property={m['property']}" in r.stdout
                res[i].append(("caught" if caught else f"MISSED rc={r.returncode} {r.stderr[-300:]}") + f" {time.time()-t:.0f}s")
            else:
                res[i].append("no-check")
    finally:
        sh(f"git -C /repo checkout -- .")
    print(i, m["property"], " | ".join(res[i]), flush=True)
sh("bash /opt/vp/build.sh")
