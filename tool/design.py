"""rewrites the generated tables of DESIGN.md"""
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tool"))


def load(n):
    return json.load(open(os.path.join(V, n)))


def put(text, tag, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + body + m.group(2), text, flags=re.S)


def main():
    path = os.path.join(V, "DESIGN.md")
    t = open(path).read()
    man = load("MANIFEST.json")
    props = {p["id"]: p for p in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
    notes = __import__("design_notes").NOTES
    claimed = {c["property"] if "property" in c else c["id"]: c for c in man["checks"]}
    body = []
    for pid in sorted(claimed):
        body.append("**%s - %s.**\n%s\n\n" % (pid, props[pid]["title"], notes.get(pid, "").strip()))
    t = put(t, "PROPERTIES", "\n" + "".join(body))
    k = load("known_findings.json")
    rows = ["* %s\n" % re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1, `\2`: ", e) for e in k["fixed"]]
    if k["findings"]:
        rows.append("\nRecorded, not repaired:\n\n")
        rows += ["* %s `%s`: %s\n" % (e["property"], e["obligation"], e["what"]) for e in k["findings"]]
    else:
        rows.append("\nNo finding is left unrepaired in the list of known findings.\n")
    t = put(t, "FIXES", "".join(rows))
    rows = ["| planted change | caught by | needs |\n|---|---|---|\n"]
    miss = notes.get("missed", {})
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = load("seeded/%s/meta.json" % d)
        rows.append("| %s | %s | %s |\n" % (d, miss.get(d, "check " + m["property"]), m["needs"].replace("|", "/")))
    t = put(t, "SEEDED", "".join(rows))
    rows = ["* **%s** (%s): %s\n" % (e["property"] if "property" in e else e["id"], props[e["property"] if "property" in e else e["id"]]["title"], e["reason"]) for e in man["not_applicable"]]
    t = put(t, "NA", "".join(rows) or "(none)\n")
    open(path, "w").write(t)


main()
