#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the property section of DESIGN.md from props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
checks, na, lines, design = [], [], [], []
for q in P:
    assert len(q["title"]) <= 80, q["title"]
    for f in q["files"]:
        assert os.path.exists("/repo/" + f), (q["id"], f)
    lines.append(json.dumps({
        "id": q["id"], "title": q["title"], "statement": q["statement"],
        "quantifier": {"over": q["over"], "text": q["text"]},
        "why_tests_cant": q["why"],
        "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                    "observe_at": ["public API of libcore"], "hook_needed": None}}, ensure_ascii=False))
    have = os.path.exists(os.path.join(V, "checks", q["id"] + ".cpp"))
    if have:
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s" % q["id"],
                       "thorough_cmd": "python3 check.py %s --thorough" % q["id"],
                       "evidence_file": "evidence/%s.json" % q["id"],
                       "technique": q["technique"], "level": q["level"], "level_note": q["note"]})
    else:
        na.append({"property": q["id"], "reason": "check not built yet"})
    design.append("### %s — %s\n\n%s\n\n*Space:* %s  \n*How decided:* %s  \n*Why tests cannot:* %s  \n*Assurance:* %s%s\n" %
                  (q["id"], q["title"], q["statement"], q["text"], q["design"], q["why"], q["note"],
                   "" if have else "  \n*Status:* not built yet"))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build the unmodified sources (with sanitizer or access instrumentation added by the compiler)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
head = open(os.path.join(V, "tools", "design_head.md")).read()
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n## Properties\n\n" + "\n".join(design) + "\n" + tail)
print(len(checks), "checks,", len(na), "not claimed")
