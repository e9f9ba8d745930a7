#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS

P = []


def p(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe,
                               hook_needed=None), technique=technique, level_note=note))


exec(open(os.path.join(V, "tools", "property_texts.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        y = {k: x[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(y["title"]) <= 80, y["title"]
        f.write(json.dumps(y) + "\n")
claimed = [x for x in P if x["id"] in PROPS]
assert {x["id"] for x in P} >= set(PROPS), set(PROPS) - {x["id"] for x in P}
m = dict(version=1, setup_cmd="python3 run.py --build",
         checks=[dict(property=x["id"], quick_cmd="python3 run.py %s" % x["id"],
                      thorough_cmd="python3 run.py %s --tier thorough" % x["id"],
                      technique=x["technique"], level="exploration", level_note=x["level_note"])
                 for x in claimed],
         not_applicable=[dict(property=x["id"], reason=x["level_note"]) for x in P if x["id"] not in PROPS],
         notes="No hooks are needed: every monitor observes the public interface. Unfixed defects: known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(claimed), "claimed")
