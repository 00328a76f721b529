#!/usr/bin/env python3
"""Decides one property of /repo's current tree: check.py C01  (see DESIGN.md)."""
import concurrent.futures, json, os, re, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('HOME', '/root')
from vlib import scratch, native, kani, plan
from vlib import extras
try: from vlib import verus
except ImportError: verus = None

VERIF = os.path.dirname(os.path.abspath(__file__))

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = plan.PLAN[prop]
    t0 = time.time()
    logs = []
    def log(s): logs.append(s)
    cores = os.cpu_count() or 4
    native_ms = spec.get('native_s', 30) * 1000 * (8 if tier == 'thorough' else 1)
    kani_budget = 240 if tier == 'quick' else 780

    violations = []   # dicts: kind, obligation, input(bool), payload
    undecided = []
    lock = threading.Lock()

    # ---------------------------------------------------------------- deductive part, in parallel
    kani_res, kani_dropped = {}, []
    groups = {}
    for cname, ps in spec.get('kani', {}).items():
        c = scratch.contract(cname)
        allp = [p for p, _ in c.proofs()]
        sel = [p for p in allp if ps == '*' or any(re.fullmatch(x, p) for x in ps)]
        groups.setdefault(c.scale, []).append((c, sel))
    def kani_thread():
        try:
            for scale, cs in groups.items():
                consts = dict(kv.split('=') for kv in scale.split())
                r, d, _ = kani.run_group([c for c, _ in cs], {c.name: s for c, s in cs}, consts, spec.get('kani_jobs', max(2, cores // 2)), kani_budget, kani_budget, log)
                with lock:
                    kani_res.update(r); kani_dropped.extend(d)
        except Exception as e:
            log('kani: %r' % e); undecided.append('Kani could not be run: %r' % e)
    verus_res = []
    def verus_thread():
        if verus is None: return
        def one(u):
            try: return verus.run_unit(u, log, timeout=300 if tier == 'quick' else 500, prop=prop)
            except Exception as e: return {'unit': u, 'status': 'undecided', 'why': repr(e), 'functions': [], 'verified': 0, 'errors': [], 'time': 0, 'assumed': []}
        with concurrent.futures.ThreadPoolExecutor(4) as ex: verus_res.extend(ex.map(one, spec.get('verus', [])))
    extra_res = []
    ts = []
    if groups: ts.append(threading.Thread(target=kani_thread))
    if spec.get('verus'): ts.append(threading.Thread(target=verus_thread))
    for t in ts: t.start()

    # ---------------------------------------------------------------- contract execution (bounded)
    names, jobs = [], []
    for cname in spec.get('native', {}): names.append(cname)
    for cname in spec.get('kani', {}):
        if cname not in names and 'native' in scratch.contract(cname).for_: names.append(cname)
    contracts = [scratch.contract(n) for n in names]
    binary, kept, dropped = scratch.build_native(contracts, log) if contracts else (None, [], [])
    keptn = {c.name for c in kept}
    results = []
    if binary:
        avail = set(__import__('subprocess').run([binary, 'list'], stdout=-1, text=True).stdout.split())
        workers = max(2, cores - (spec.get('kani_jobs', max(2, cores // 2)) if groups else 0))
        todo = []
        for cname, hs in spec.get('native', {}).items():
            if cname not in keptn: continue
            for h, w in hs.items():
                if h in avail: todo.append((h, w))
        tw = sum(w for _, w in todo) or 1
        k = 0
        # each harness gets its share of workers x native_ms, in slices of several seeds
        for h, w in todo:
            share = native_ms * workers * w / tw
            n = max(1, int(round(share / 8000.0)))
            for i in range(n):
                jobs.append((i, h, native.seed_of(seed, k), max(500, int(share / n)))); k += 1
        jobs.sort(key=lambda j: j[0])
        stop = threading.Event()
        results = native.run_pool(binary, [(h, s, ms) for _, h, s, ms in jobs], prop, workers, stop)
    for r in results:
        if r['result'] in ('fail', 'crash'):
            j, rc = native.reseed(binary, r['harness'], r['seed'], prop) if 'seed' in r and r['result'] == 'fail' else (None, 0)
            if r['result'] == 'crash' and r['rc'] not in (-999,):
                pass
            violations.append({'by': 'contract execution', 'harness': r['harness'], 'obligation': r['obligation'], 'input': True, 'seed': r['seed'], 'mode': 'reseed' if r['result'] == 'fail' else 'run', 'detail': (j or {}).get('notes', []), 'trace': r.get('trace', '')})
        elif r['result'] == 'broken':
            undecided.append('%s: %s' % (r['harness'], r['obligation']))
    if binary:
        for x in spec.get('extra', []):
            er = extras.run(x, binary, prop, seed, tier, log)
            extra_res.append(er)
            for v in er.get('violations', []): violations.append(v)
            for u in er.get('undecided', []): undecided.append(u)
    for t in ts: t.join()

    # ---------------------------------------------------------------- verdicts of the provers
    for (cn, p), r in sorted(kani_res.items()):
        if r['status'] == 'undecided':
            undecided.append('Kani %s::%s: %s' % (cn, p, r['why'])); continue
        bad = []
        for desc, loc in r['failed']:
            if kani.SAFETY.search(desc): undecided.append('Kani %s::%s: a loop bound of the harness no longer suffices' % (cn, p)); continue
            m = re.match(r'((?:C\d\d)(?:/C\d\d)*)\.', desc)
            if m:
                if prop in m.group(1).split('/'): bad.append((desc, loc))
            elif '/contracts/' in loc or '/vsup/' in loc: undecided.append('Kani %s::%s: %s (in the harness)' % (cn, p, desc))
            else: bad.append((desc, loc))
        if bad:
            # replay the verifier's counterexample on the real code
            c = scratch.contract(cn)
            h = p[2:]
            shown = None
            if binary and cn in keptn:
                try:
                    traces, out = kani.playback(c, p, dict(kv.split('=') for kv in c.scale.split()), 150)
                except Exception as e:
                    traces, out = [], repr(e)
                if not c.scale or 'replay' in c.for_:
                    for tr in traces:
                        j, rc = native.replay(binary, h, tr, prop)
                        if j and j.get('result') == 'fail': shown = (tr, j); break
            if shown:
                violations.append({'by': 'Kani counterexample replayed on the real code', 'harness': h, 'obligation': bad[0][0], 'input': bool(c.reachable), 'mode': 'replay', 'trace': shown[0], 'detail': shown[1].get('notes', []), 'verifier': ['%s %s' % b for b in bad]})
            else:
                violations.append({'by': 'Kani', 'harness': h, 'obligation': bad[0][0], 'input': False, 'detail': ['%s %s' % b for b in bad]})
    for r in verus_res:
        if r['status'] == 'fail':
            bad = [e for e in r['errors']]
            violations.append({'by': 'Verus', 'harness': r['unit'], 'obligation': bad[0] if bad else 'proof fails', 'input': False, 'detail': r.get('output', '').splitlines()[-60:]})
        elif r['status'] != 'ok':
            undecided.append('Verus %s: %s' % (r['unit'], r['why']))

    # ---------------------------------------------------------------- known findings
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'finding: property=(\w+) id=(\S+) (.*)', l)
            if m and m.group(1) == prop: known.append((m.group(2), m.group(3).strip()))
    reported = []
    for v in violations:
        hit = [k for k in known if v['obligation'].startswith(k[0])]
        if not hit: reported.append(v)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    if spec.get('known_probe') and False: pass

    # a violation with a failing input is reported in preference to one without
    reported.sort(key=lambda v: not v['input'])
    wall = time.time() - t0

    # ---------------------------------------------------------------- evidence
    nat_pass = [r for r in results if r['result'] == 'pass']
    cases = sum(r['cases'] for r in nat_pass)
    distinct = sum(r['distinct'] for r in nat_pass)
    checks = sum(r['checks'] for r in nat_pass)
    covers, counts = {}, {}
    for r in nat_pass:
        for k, v in r['covers'].items(): covers[k] = covers.get(k, 0) + v
        for k, v in r['counts'].items(): counts[k] = max(counts.get(k, 0), v) if k.endswith('_max') else counts.get(k, 0) + v
    k_ok = [(k, r) for k, r in kani_res.items() if r['status'] == 'ok']
    k_obl = sum(r['checks'] for r in kani_res.values())
    k_dis = sum(r['checks'] - len(r['failed']) for r in kani_res.values() if r['status'] in ('ok', 'fail'))
    v_obl = sum(r['verified'] + len(r['errors']) for r in verus_res)
    v_dis = sum(r['verified'] for r in verus_res)
    x_obl = sum(r.get('obligations', 0) for r in extra_res)
    x_dis = sum(r.get('discharged', 0) for r in extra_res)
    level = spec['level']
    cov = {
        'evaluations': cases, 'distinct_nontrivial': distinct,
        'rule': 'Each bounded case is one generated history (configuration, network schedule, API calls, injected frames) run through the executable contract on the real code; a case is distinct and non-trivial when its generator draws differ from all others of its process and its run got past every assumption (skipped cases are not counted).',
        'samples': [{'harness': r['harness'], 'seed': r['seed'] if 'seed' in r else r['base_seed'], 'draws': r.get('sample', '')[:200]} for r in nat_pass[:5]] or ['none'],
        'obligations': k_obl + v_obl + x_obl, 'discharged': k_dis + v_dis + x_dis,
        'checker_cmd': 'cargo kani (0.68.0, CBMC/CaDiCaL) on the scratch crate; verus (0.2026.09.13) on extracted functions',
        'trusted_base': plan.TRUSTED + spec.get('trusted', []) + ['Verus, assumed specification of %s' % a for a in sorted({a for r in verus_res for a in r.get('assumed', [])})],
        'back_ends': {'kani': {'proofs': len(kani_res), 'obligations': k_obl, 'discharged': k_dis, 'solver_s': round(sum(r['time'] for r in kani_res.values()), 1)},
                      'verus': {'units': len(verus_res), 'functions_verified': v_dis, 'obligations': v_obl, 'solver_s': round(sum(r.get('time', 0) for r in verus_res), 1)},
                      'exhaustive_enumeration': {'obligations': x_obl, 'discharged': x_dis}},
        'functions_under_contract': sorted(set(sum([plan.FUNCTIONS.get(c, []) for c in spec.get('kani', {})], []) + sum([r.get('functions', []) for r in verus_res], []))),
        'proofs': {'%s::%s' % k: {'status': r['status'], 'obligations': r['checks'], 'covers': '%d of %d' % r['covers'], 'time_s': r['time'], **({'why': r['why']} if r['why'] else {})} for k, r in sorted(kani_res.items())},
        'verus_units': [{k: v for k, v in r.items() if k != 'output'} for r in verus_res],
        'enumerations': extra_res,
        'bounded_contract_execution': {'label': 'bounded, not counted as proved', 'obligations_evaluated': checks, 'covers': covers, 'counts': counts,
                                       'harnesses': {h: {'cases': sum(r['cases'] for r in nat_pass if r['harness'] == h), 'obligations_evaluated': sum(r['checks'] for r in nat_pass if r['harness'] == h)} for h in sorted({r['harness'] for r in nat_pass})}},
        'undecided': undecided + ['%s: %s' % d for d in dropped] + ['Kani %s: %s' % d for d in kani_dropped],
        'explanation': spec['explain'],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': plan.ASSUMPTIONS + spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(reported)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

    for u in cov['undecided']: print('UNDECIDED: %s' % u.splitlines()[0][:300])
    if reported:
        v = reported[0]
        rd = os.path.join(VERIF, 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s-%s.json' % (prop, re.sub(r'\W+', '_', v['harness'])))
        with open(path, 'w') as f: json.dump({'property': prop, 'violation': v, 'others': reported[1:6], 'how': 'python3 /verif/replay.py %s' % path}, f, indent=1)
        print('%s: %s (%s, harness %s)' % (prop, v['obligation'], v['by'], v['harness']))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if v['input'] else ' no-failing-input-found'))
        return 1
    decided = checks > 0 or k_dis > 0 or v_dis > 0 or x_dis > 0
    need = spec.get('native') and not nat_pass
    if not decided or need:
        for l in logs[-5:]: print(l[-1500:])
        print('%s: nothing could be decided on the current tree' % prop)
        return 2
    print('%s: held; %d prover obligations discharged (Kani %d, Verus %d, enumeration %d), %d bounded cases with %d obligations evaluated, %.0f s' % (prop, k_dis + v_dis + x_dis, k_dis, v_dis, x_dis, cases, checks, wall))
    return 0

if __name__ == '__main__':
    if len(sys.argv) == 2 and sys.argv[1] == 'setup':
        import subprocess
        for c in (['cargo', '--version'], ['cargo', 'kani', '--version'], ['verus', '--version']): subprocess.run(c, check=True)
        sys.exit(0)
    sys.exit(main())
