#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run after editing: python3 tool/properties.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GVN = "gated value numbering over the typed AST: effect summaries compared with reference definitions"
PATH = "path-sensitive effect/typestate analysis over the typed AST (guards, order, call graph)"
PE = "partial evaluation of the typed AST over bounded object graphs with an abstract layer/stream interface"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech=GVN, note="", state=None, na=None, thorough=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      tech=tech, note=note, state=state, na=na))


exec(open(os.path.join(V, "tool", "property_list.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(V, "analysis", "rules", p["id"].lower() + ".py")) and not p["na"]:
            checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"],
                           "thorough_cmd": "./check %s --thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "other",
                           "level_note": p["note"] or "Static: decided from summaries of the current sources; see DESIGN.md."})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "Not claimed yet: the static check for it is still being built."})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks are static: they read /repo's sources (typed AST via clang 18 libTooling), never run them. "
                  "See DESIGN.md for rules, assumptions and findings."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(checks), "claimed")


main()
