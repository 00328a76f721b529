"""Finite obligation sets, enumerated completely on the real code."""
from . import native

def run(x, binary, prop, seed, tier, log):
    r = native.run_one(binary, x, 1, 600000, prop, hang_ms=600000, max_cases=1)
    res = {'name': x, 'obligations': 0, 'discharged': 0, 'violations': [], 'undecided': []}
    if r['result'] == 'pass' and r.get('cases', 0) > 0:
        res['obligations'] = res['discharged'] = r['counts'].get('enumerated', 0)
        if not res['obligations']: res['undecided'].append('%s: nothing was enumerated' % x)
    elif r['result'] in ('fail', 'crash'):
        res['obligations'] = 1
        res['violations'].append({'by': 'complete enumeration', 'harness': x, 'obligation': r['obligation'], 'input': r['result'] == 'fail', 'seed': r.get('seed', 1), 'mode': 'reseed', 'detail': r.get('notes', []), 'trace': r.get('trace', '')})
    else:
        res['undecided'].append('%s: %s' % (x, r.get('obligation')))
    return res
