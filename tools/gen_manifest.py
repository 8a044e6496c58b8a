#!/usr/bin/env python3
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = getattr(props, "NOT_APPLICABLE", {})
checks = []
for i in ids:
    if i not in props.PROPS: continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 bin/check.py {i}",
                       technique=p["technique"], level=p.get("level", "model_checking"), level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks,
         hooks=dict(guard="none", enable="no hooks: the checks include /repo's headers unchanged", source_commits=[]),
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in props.PROPS],
         notes="Every check compiles its harnesses against /repo/include and enumerates executions of the real code; see DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(m["not_applicable"]), "not claimed")
