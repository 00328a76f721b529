"""Writes MANIFEST.json from vlib/plan.py."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import plan
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = getattr(plan, 'NOT_APPLICABLE', {})
checks = []
for p in props:
    if p not in plan.PLAN: continue
    s = plan.PLAN[p]
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s' % p, evidence_file='evidence/%s.json' % p,
        technique=s.get('technique', 'function contracts on the real source, discharged by Kani/Verus, with bounded execution of whole-connection contracts'),
        level=s['level'], level_note=s.get('note', s['explain'])))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=[dict(property=p, reason=NA.get(p, 'contracts not built yet')) for p in props if p not in plan.PLAN])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1); open('/verif/MANIFEST.json', 'a').write('\n')
