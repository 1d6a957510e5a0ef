#!/usr/bin/env python3
"""Writes properties.jsonl and the checks of MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, module, note, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                           "observe_at": observe, "hook_needed": None}, module=module, note=note))


exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {k: v for k, v in p.items() if k not in ("module", "note")}
        f.write(json.dumps(d) + "\n")

LEVEL = ("Bounded: every behaviour recorded from the real code is judged by TLC against the specification, step by "
         "step; the explored histories are generated (seeded), and where the note says so all histories of small "
         "systems up to a depth. Trusts TLC, the driver's public-API observations and, for numbers, the model's "
         "rational arithmetic (values are compared to about three digits; undecidable rounding ties get no verdict). ")
checks = [{"property": p["id"], "quick_cmd": "python3 harness/check.py %s quick" % p["id"],
           "thorough_cmd": "python3 harness/check.py %s thorough" % p["id"],
           "technique": "TLA+ specification (%s) checked with TLC; conformance of traces recorded from the real code"
                        % p["module"],
           "level": "model_checking", "level_note": LEVEL + p["note"]} for p in P]
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the library's public interface only",
               "source_commits": []},
     "notes": "See DESIGN.md. Checks compile /repo's current sources into /verif/.build (content-addressed)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties")
