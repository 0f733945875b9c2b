#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level="proof", note="", na=None, state=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  level=level, note=note, na=na, state=state, observe=list(observe)))


T_AI = "abstract interpretation of the IR and of the statically generated machine code, with polynomial value numbering"
N_AI = ("Every partition of the implementation's paths is interpreted over limb polynomials with carries; results are compared with the specified polynomial "
        "for all operand values. Trusts clang's IR, the transfer functions and library models in /verif/sa; identities modulo p are decided at random points (error < 2^-200).")

exec(open(os.path.join(ROOT, "tools", "table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup_check.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": p["technique"] or T_AI, "level": p["level"], "level_note": p["note"] or N_AI} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "Static analysis only: no check runs code of the library. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
