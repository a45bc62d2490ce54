"""Writes MANIFEST.json from props.py (claimed properties) and NA below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS     # noqa: E402

NA = {
}
TODO = "contracts not written yet (work in progress)"

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=q.get("technique", "contract-based deductive verification: contracts on the real functions, "
                                                        "extracted mechanically and discharged by Verus/Z3"),
                           level=q.get("level", "proof"), level_note=q.get("note", "every obligation discharged for all inputs; "
                           "the concrete search only supplies failing inputs for violations")))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
