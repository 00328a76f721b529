#!/usr/bin/env python3
"""Re-executes a reported violation on /repo's current tree: replay.py <replay file>."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import scratch, native
d = json.load(open(sys.argv[1]))
v = d['violation']
print('obligation:', v['obligation'])
for l in v.get('verifier', []) + v.get('detail', [])[-60:]: print('  ', l)
if not v.get('input') and v.get('mode') != 'replay':
    print('no failing input was found by the verifier; the above is its output'); sys.exit(1)
for n in sorted(f[:-3] for f in os.listdir(scratch.CONTRACTS) if f.endswith('.rs')):
    c = scratch.contract(n)
    if 'native' in c.for_ and ('"%s"' % v['harness']) in c.text: break
else: sys.exit('harness %s not found' % v['harness'])
b, kept, dropped = scratch.build_native([c], print)
if b is None: sys.exit('the contract does not compile against the current source')
if v.get('mode') == 'replay': j, rc = native.replay(b, v['harness'], v['trace'], d['property'])
elif v.get('mode') == 'run': j, rc = native.run_one(b, v['harness'], v['seed'], 60000, d['property']), 0
else: j, rc = native.reseed(b, v['harness'], v['seed'], d['property'])
print(json.dumps({k: x for k, x in (j or {}).items() if k not in ('trace', 'notes')}))
for n in (j or {}).get('notes', [])[-60:]: print('  ', n)
sys.exit(1 if j and j.get('result') in ('fail', 'crash') else 0)
