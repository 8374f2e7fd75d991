"""MANIFEST.json from props.py and properties.jsonl"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS  # noqa
try: from props import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built for it yet")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: the checks read and run the unmodified sources under /repo", "source_commits": []},
     "notes": "Level 'proof' means every generated obligation of the functions under contract was discharged on this run; each check also runs bounded run-time contracts on the real code, which are never counted as proof."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
