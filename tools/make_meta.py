"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS, UNCLAIMED  # noqa: E402
root = os.path.dirname(here)

TECH = "runtime monitoring: "
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + UNCLAIMED:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", [])},
        }) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(root, "rv", "props", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s --tier quick" % p["id"],
            "thorough_cmd": "bash check.sh %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH + p["tech"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "The monitor for this property is not built yet."})
for p in UNCLAIMED:
    na.append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks were added to /repo: every monitor sits on resippy's public API from /verif/rv. "
                        "VERIF_SEED selects the workload; see DESIGN.md."}, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not claimed")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for line in open(os.path.join(root, "properties.jsonl")):
        d = json.loads(line)
        jsonschema.validate(d, ps)
        assert d["statement"].count(". ") <= 2, d["id"]
    jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))), ms)
    print("schemas ok")
except ImportError:
    pass
