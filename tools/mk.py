#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (and checks them against the schemas)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from catalog import PROPERTIES, NOT_APPLICABLE, HOOKS
import props

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["forall"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=p.get("hook")))) + "\n")
checks = []
na = dict(NOT_APPLICABLE)
for p in PROPERTIES:
    i = p["id"]
    if i not in props.PROPS:
        na.setdefault(i, "not decided yet")
        continue
    q = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i,
                       thorough_cmd="python3 tools/check.py %s thorough" % i,
                       technique="contract-based deductive verification of the real code (Kani/CBMC, weakest-precondition style obligations discharged by SAT/SMT)",
                       level=q["level"], level_note=q["note"] or "see DESIGN.md"))
m = dict(version=1, setup_cmd="bash tools/setup.sh", hooks=HOOKS, checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(l), sch)
    print("valid:", len(checks), "checks,", len(na), "not applicable")
except ImportError:
    print("jsonschema missing")
