"""Writes MANIFEST.json from the checks present and tools/make_manifest.py's table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
TECH = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in NOTE:
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                           technique=TECH[i], level="model_checking", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Checks import the code under test from /repo/src directly; nothing is built."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
