"""Writes properties.jsonl, MANIFEST.json and the property part of DESIGN.md from catalogue.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalogue import PROPS, S
try:
    from catalogue import NA
except ImportError:
    NA = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def files(fs):
    out = []
    for f in fs:
        out.append(f if f.startswith(("ts/", "idl/", "programs/", "Cargo")) else S + f)
    return out


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        a = {"files": files(p["files"]), "mechanism": [{"name": n, "where": files([w])[0]} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": files([w])[0]} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = [p["observe"]]
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
NOTE = ("static analysis: abstract interpretation of the compiler's MIR of the whole program with symbolic inputs; obligations are decided by normalisation to decision diagrams over "
        "comparison atoms with polynomial terms; an obligation that does not normalise to true is reported only with a consistent falsifying interpretation, otherwise it is listed as undecided in the evidence. "
        "Trusted: rustc's MIR construction, the engine and its models of library functions in sa/, the stubs of four oracle/fixed-point crates.")
man = {"version": 1, "setup_cmd": "python3 sa/extract.py", "checks": [], "not_applicable": [{"property": p["id"], "reason": p["design"]} for p in NA],
       "notes": "Every check re-extracts the MIR of /repo's working tree when the source changed and builds what it needs if setup output is missing."}
for p in PROPS:
    man["checks"].append({"property": p["id"], "quick_cmd": "./check " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                          "technique": "static analysis (symbolic dataflow over MIR)", "level": "other", "level_note": NOTE})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
head = open(os.path.join(V, "tools", "design-head.md")).read()
tail = open(os.path.join(V, "tools", "design-tail.md")).read()
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded")) if os.path.isdir(os.path.join(V, "seeded")) else []):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append((m["property"], "| %s | %s | %s | %s |" % (m["property"], d, m["needs"], m["what_it_breaks"])))
tail = tail.replace("@BUGS@", "\n".join(["| caught by | bug | needs | breaks |", "|---|---|---|---|"] + [r for _, r in sorted(rows)]))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(head)
    f.write("\n## Properties\n")
    for p in PROPS:
        f.write("\n### %s. %s\n\n%s\n\n*How it is decided.* %s\n" % (p["id"], p["title"], p["statement"], p["design"]))
    if NA:
        f.write("\n## Not applicable\n\n")
        for p in NA:
            f.write("- **%s %s**: %s\n" % (p["id"], p["title"], p["design"]))
    f.write("\n" + tail)
