"""Writes /verif/MANIFEST.json from harness/meta.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
from meta import CHECKS, NOT_APPLICABLE

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        m = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run_check.py {i} --tier quick",
            "thorough_cmd": f"python3 run_check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": m.get("technique", "TLA+ specification model-checked with TLC; traces of the real code validated against it"),
            "level": m["level"],
            "level_note": m["rule"] + " Assumes: " + "; ".join(m["assumptions"]) + ".",
        })
na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in CHECKS]
man = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks: checks use public interfaces of /repo/src only", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "TLA+ with TLC; see DESIGN.md. Fix commits in /repo are listed in known_findings.txt."}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
