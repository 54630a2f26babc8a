#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "explicit TLA+ specification model-checked with TLC; recorded executions of the code validated against it with TLC"
N = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 /verif/setup.py", checks=[], not_applicable=[],
         notes="No hooks in /repo: the public API exposes the abstract state. Every check builds /verif/harness against "
               "/repo's working tree, lets it execute scenarios (enumerated by TLC from the specification and generated "
               "from VERIF_SEED) and validates the recorded traces against the specification in /verif/spec with TLC.")
for p in props:
    if p in N:
        m["checks"].append(dict(property=p, quick_cmd="./check.py " + p, thorough_cmd="./check.py %s --tier thorough" % p,
                                technique=T, level="model_checking", level_note=N[p]))
    else:
        m["not_applicable"].append(dict(property=p, reason="no check yet"))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
