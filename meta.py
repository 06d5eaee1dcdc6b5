#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 meta.py` rewrites both."""
import json
import os

D = os.path.dirname(os.path.abspath(__file__))
P = []
CHECKED = {}
NA = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})


def check(id, binary, technique, note, level="exploration"):
    CHECKED[id] = {"property": id,
                   "quick_cmd": f"./run {binary} {id} --tier quick",
                   "thorough_cmd": f"./run {binary} {id} --tier thorough",
                   "evidence_file": f"evidence/{id}.json",
                   "technique": technique, "level": level, "level_note": note}


def na(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(D, "props.py")).read())

pending = [p["id"] for p in P if p["id"] not in CHECKED and p["id"] not in [n["property"] for n in NA]]
for i in pending:
    na(i, "Check not built yet.")
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(D, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 build.py --all",
               "hooks": {"guard": "NIXD_MC", "enable": "none needed: the checks compile /repo's sources as they are; "
                         "scheduling points come from shadow headers and linker wrapping in /verif", "source_commits": []},
               "checks": [CHECKED[p["id"]] for p in P if p["id"] in CHECKED],
               "not_applicable": NA,
               "notes": "Bounded exhaustive exploration of the real code against reference models; see DESIGN.md."}, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CHECKED), "checked,", "pending:", " ".join(pending))
