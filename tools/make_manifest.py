#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/spec.py and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "checks"))
import spec  # noqa: E402
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = spec.CHECKS.get(i)
    if c is None:
        na.append(dict(property=i, reason=spec.NOT_APPLICABLE.get(i, "check not built yet")))
        continue
    checks.append(dict(property=i,
                       quick_cmd=f"python3 run_check.py {i} --tier quick",
                       thorough_cmd=f"python3 run_check.py {i} --tier thorough",
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="g++-14 --version && clang++-18 --version && python3 -m py_compile run_check.py checks/spec.py",
         checks=checks, not_applicable=na,
         notes="Each check compiles its workload drivers (checks/*.cpp over harness/*.hpp) against /repo/include "
               "from the current working tree, runs them in shards under the monitors and writes evidence/<id>.json. "
               "VERIF_SEED selects all random choices; case counts, not time, bound a run. No hooks in /repo are used.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
