"""Writes MANIFEST.json from the registry of rules."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from xv import props
V = os.path.dirname(here)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           technique=p.get("technique", props.TECHNIQUE), level="other", level_note=p.get("note", props.NOTE)))
    else:
        na.append(dict(property=i, reason=props.NA[i]))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
