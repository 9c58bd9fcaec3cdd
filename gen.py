#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os
from props import PROPS
from checks import CHECKS

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for i in sorted(PROPS):
        if i not in CHECKS:
            continue
        p = PROPS[i]
        anchors = dict(files=p["files"], mechanism=p["mech"])
        if p["observe"]:
            anchors["observe_at"] = [p["observe"]]
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"], anchors=anchors)) + "\n")
checks = []
for i in sorted(CHECKS):
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                       technique=c["technique"], level=c.get("level", "exploration"),
                       level_note=c.get("note", "") or "Holds on the executions observed: " + c["rule"] + ". Assumes: " + "; ".join(c.get("assumptions", [])) + ".",
                       evidence_file="evidence/%s.json" % i))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="build tag verif", enable="go test -c -tags verif (run.py does)", source_commits=["b5d4d0e"]),
         checks=checks, not_applicable=[],
         notes="run.py PROPERTY quick|thorough builds harness/ against /repo and runs it; known-findings.json lists fixed defects and known findings; DESIGN.md describes the oracles.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", "no check yet:", [i for i in PROPS if i not in CHECKS])
