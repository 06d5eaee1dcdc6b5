#!/usr/bin/env python3
"""mkseed.py DEFS.py...: writes seeded/<id>/ from seed definitions (S list of dicts:
id, property, edits [(file, old, new)], demo (C++ source), kind (nixf|ctl: C++, py: client.py), needs, breaks)."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.join(V, "tools", "demo")
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["S"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        diff = ""
        w = tempfile.mkdtemp()
        files = []
        for p, a, b in s["edits"]:
            t = os.path.join(w, p)
            if p not in files:
                files.append(p)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copy("/repo/" + p, t)
            c = open(t).read()
            assert c.count(a) == 1, (s["id"], p, a, c.count(a))
            open(t, "w").write(c.replace(a, b))
        for p in files:
            r = subprocess.run(["diff", "-u", "--label", "a/" + p, "--label", "b/" + p, "/repo/" + p, os.path.join(w, p)], capture_output=True, text=True)
            diff += r.stdout
        shutil.rmtree(w)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        k = s.get("kind", "nixf")
        if k == "py":
            open(os.path.join(d, "demo.py"), "w").write("import sys\nfrom client import *\n\n" + s["demo"].lstrip("\n") + "done()\n")
        else:
            open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
        shutil.copy(os.path.join(HERE, {"py": "ctl"}.get(k, k) + ".sh"), os.path.join(d, "demo.sh"))
        for x in {"nixf": ["dm.h", "primops.cpp"], "ctl": ["dm.h", "primops.cpp", "pool.h"], "py": ["client.py", "primops.cpp", "pool.h"]}.get(k, []):
            shutil.copy(os.path.join(HERE, x), os.path.join(d, x))
        for x in s.get("extra", []):
            shutil.copy(os.path.join(HERE, x), os.path.join(d, x))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
