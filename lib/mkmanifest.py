"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
sys.path.insert(0, core.VERIF)
from check import all_checks
props = [json.loads(l) for l in open(f"{core.VERIF}/properties.jsonl")]
ch = all_checks()
NA = {}
TECH = json.load(open(f"{core.VERIF}/lib/techniques.json"))
checks = []
for p in props:
    i = p["id"]
    if i not in ch:
        continue
    t = TECH.get(i) or TECH[i[0]]
    checks.append(dict(property=i, quick_cmd=f"python3 /verif/check.py run {i} --tier quick", thorough_cmd=f"python3 /verif/check.py run {i} --tier thorough",
                       technique=t["technique"], level=t.get("level", "model_checking"), level_note=t["note"]))
fixes = os.popen("git -C /repo log --format=%H --grep='^hook:'").read().split()
m = dict(version=1, setup_cmd="python3 /verif/check.py setup",
         hooks=dict(guard="none: no hook in /repo is needed", enable="nothing to enable", source_commits=fixes),
         checks=checks, not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check has been built for this property yet")) for p in props if p["id"] not in ch],
         notes="TLA+ specifications in spec/ checked with TLC; behaviours generated by them are replayed on the real code and the recorded traces are judged by TLC. See DESIGN.md.")
open(f"{core.VERIF}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks), "checks", len(m["not_applicable"]), "not claimed")
except ImportError:
    pass
