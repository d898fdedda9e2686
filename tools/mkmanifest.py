"""Writes MANIFEST.json from the checks present."""
import json, os, sys
sys.path.insert(0, '/verif/lib')
from levels import LEVEL
from notes import NOTE
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'/verif/checks/c{i[1:]}.py') and i in NOTE:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level=LEVEL[i], level_note=n))
    else:
        na.append(dict(property=i, reason="not claimed yet: its specification and conformance check are still being built"))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="DIFFMAH_VERIF", enable="no hooks are needed: the checks import /repo's working tree unmodified and "
                    "observe it from outside (public entry points, patched module boundaries, stub MPI)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; conformance drivers in checks/; see DESIGN.md")
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "claimed", [x['property'] for x in na])
