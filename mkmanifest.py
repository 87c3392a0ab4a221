"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
here = pathlib.Path(__file__).parent
from manifest_notes import NOTES, TECH
props = [json.loads(l) for l in (here / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (here / f"pvmon/checks/{i.lower()}.py").exists():
        checks.append({"property": i,
                       "quick_cmd": f"bash /verif/check.sh {i} --tier quick",
                       "thorough_cmd": f"bash /verif/check.sh {i} --tier thorough",
                       "technique": "runtime monitoring: " + TECH.get(i, "oracle monitors over randomised executions of the real code"),
                       "level": "exploration",
                       "level_note": NOTES.get(i, "Holds on every execution explored (seeded, randomised workloads); no claim beyond them.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Pure Python repository: no compilation step; every check imports /repo's working tree directly. See DESIGN.md."}
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
