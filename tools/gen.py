#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from sa/props.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
sys.dont_write_bytecode = True
import props  # noqa: E402

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Static analysis only: a libTooling fact extractor over /repo/src and an abstract interpreter with "
              "per-property rules. No hooks in /repo are needed."}
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    elif p["rule"]:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md: fixed text, one section per property, the table of planted bugs
bugs = {}
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    j = json.load(open(os.path.join(sd, d, "meta.json")))
    bugs.setdefault(j["property"], []).append((d, j))
out = [open(os.path.join(V, "tools", "design_head.md")).read(), "## Properties\n"]
for p in sorted(props.PROPS, key=lambda p: p["id"]):
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    if p["na"]:
        out.append("Not applicable: %s" % p["na"])
        continue
    out.append("* Decided by: %s. `sa/rules/%s.py` (`%s`)." % (p["technique"], p["rule"][0], p["rule"][1]))
    out.append("* Analysed, against which oracle: %s" % p["note"])
    if p["explanation"] != p["note"]:
        out.append("* %s" % p["explanation"])
    out.append("* Covers: %s." % p["text"].rstrip("."))
    out.append("* Beyond the tests because: %s" % p["why"])
    extra = [a for a in p["assumptions"] if a not in props.COMMON]
    if extra:
        out.append("* Bounds and assumptions: %s." % "; ".join(extra))
    if p["id"] in bugs:
        out.append("* Planted bugs caught: %s." % ", ".join(d for d, _ in bugs[p["id"]]))
out.append("\nCommon assumptions: %s.\n" % "; ".join(props.COMMON))
out.append("\n## Planted bugs\n")
out.append("Every planted bug is caught by the check of its property. Those not caught at first led to the strengthening "
           "named.\n")
notes = os.path.join(V, "tools", "bug_notes.json")
notes = json.load(open(notes)) if os.path.exists(notes) else {}
for p in sorted(bugs):
    for d, j in bugs[p]:
        out.append("* %s (%s): %s%s" % (d, p, j["what_it_breaks"].strip(), " -- " + notes[d] if d in notes else ""))
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
