#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS
S = "orocos_kdl/src/"
PROPS, NOTE = [], {}


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=[S + f if "/" not in f or f.startswith("utilities/") else f for f in files],
             mechanism=[dict(name=n, where=S + w if not w.startswith("python") else w) for n, w in mech],
             observe_at=[observe or "return values and output arguments of the public API, compared with an independent long-double model while the library runs under sanitizers"],
             hook_needed="none")
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
    NOTE[id] = (technique, note)


exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3 bin/setup",
           hooks=dict(guard="none (no instrumentation is added to the repository)", enable="not needed: the checks compile /repo's sources with their own flags", source_commits=[]),
           checks=[], not_applicable=[])
for p in PROPS:
    i = p["id"]
    if i not in CHECKS:
        man["not_applicable"].append(dict(property=i, reason="check not built yet"))
        continue
    t, n = NOTE[i]
    man["checks"].append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i, evidence_file="evidence/%s.json" % i,
                              technique=t, level="exploration", level_note=n))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in PROPS:
        jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError:
    pass
print(len(PROPS), "properties,", len(man["checks"]), "checks")
