"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(here, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(here, "tools", "na.py")).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")) \
            and i not in NA:
        checks.append(dict(
            property=i,
            quick_cmd=f"python3 run.py {i} --tier quick",
            thorough_cmd=f"python3 run.py {i} --tier thorough",
            technique="bounded symbolic execution of the repository's Python "
                      "functions (symbolic numbers through the real code, "
                      "z3 decides every branch and assertion), every "
                      "counterexample replayed on the unpatched code",
            level="model_checking",
            level_note="exhaustive over all values within the stated bounds; "
                       "real arithmetic instead of floats; stand-ins listed "
                       "in DESIGN.md"))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 run.py --selftest",
               checks=checks, not_applicable=na),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
