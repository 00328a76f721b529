"""Runs Kani (deductive verification by symbolic execution to SAT, CBMC back end) on the contract
harnesses attached to the scratch crate."""
import json, os, re, shutil, signal, subprocess, time
from . import scratch

SAFETY = re.compile(r'unwinding assertion|recursion unwinding', re.I)

def _run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return out, p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except Exception: pass
        out, _ = p.communicate()
        return out, -999

def run_group(contracts, proofs, consts, jobs, timeout_s, per_proof_s, log):
    """proofs: {contract name: [proof fn]}. Returns (results, dropped, dir); results maps
    (contract, proof) to {'status','checks','failed':[(desc, loc)],'covers':(sat,total),'time','why'}."""
    kept, dropped = list(contracts), []
    res = {}
    for c in contracts:
        for p in proofs[c.name]: res[(c.name, p)] = {'status': 'undecided', 'checks': 0, 'failed': [], 'covers': (0, 0), 'time': 0.0, 'why': 'not run'}
    while kept:
        d, lost = scratch.build_tree('kani', kept, consts)
        if lost:
            dropped += [(n, 'anchor file missing') for n in lost]
            kept = [c for c in kept if c.name not in lost]
            shutil.rmtree(d, ignore_errors=True)
            continue
        env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(d, 'target'), RUSTFLAGS='-Awarnings')
        cmd = ['cargo', 'kani', '-Z', 'unstable-options', '--harness-timeout', '%ds' % per_proof_s, '--output-format', 'terse', '-j', str(jobs), '--exact']
        path = {}
        for c in kept:
            for p in proofs[c.name]:
                path[c.proof_path(p)] = (c.name, p)
                cmd += ['--harness', c.proof_path(p)]
        out, rc = _run(cmd, d, env, timeout_s)
        if 'could not compile' in out or 'Failed to execute cargo' in out or 'error: no harnesses' in out:
            log(out[-3000:])
            bad = [c for c in kept if re.search(r'-->\s*%s:' % re.escape(c.path), out)]
            if not bad:
                for k in res: res[k]['why'] = 'the scratch crate does not compile under Kani'
                return res, dropped + [('*', out[-1500:])], d
            dropped += [(c.name, 'contract does not compile against the current source') for c in bad]
            for c in bad:
                for p in proofs[c.name]: res[(c.name, p)]['why'] = 'contract does not compile against the current source'
            kept = [c for c in kept if c not in bad]
            shutil.rmtree(d, ignore_errors=True)
            continue
        parse(out, path, res)
        return res, dropped, d
    return res, dropped, None

def parse(out, path, res):
    # with -j, lines are prefixed with the worker; results follow the "Checking harness" line of
    # the same worker
    cur, block = {}, {}
    blocks = []
    th = '0'
    for line in out.splitlines():
        m = re.match(r'(?:Thread (\d+): ?)?(.*)$', line)
        if m.group(1) is not None: th = m.group(1)
        t = m.group(2)
        m2 = re.match(r'Checking harness ([\w:]+)\.\.\.', t)
        if m2:
            cur[th] = m2.group(1)
            block[th] = []
            continue
        block.setdefault(th, []).append(t)
        if t.startswith('Verification Time:') or 'CBMC timed out' in t or 'CBMC failed' in t:
            if th in cur:
                blocks.append((cur[th], block[th]))
    final = {}
    for h, ls in blocks: final[h] = ls
    for h, ls in final.items():
        k = path.get(h)
        if k is None: continue
        r = res[k]
        text = '\n'.join(ls)
        m = re.search(r'\*\* (\d+) of (\d+) failed', text)
        mt = re.search(r'Verification Time: ([\d.]+)s', text)
        r['time'] = float(mt.group(1)) if mt else 0.0
        mc = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', text)
        r['covers'] = (int(mc.group(1)), int(mc.group(2))) if mc else (0, 0)
        if m: r['checks'] = int(m.group(2))
        failed = []
        for i, l in enumerate(ls):
            f = re.match(r'Failed Checks: (.*)', l)
            if f:
                loc = ls[i + 1].strip() if i + 1 < len(ls) and 'File:' in ls[i + 1] else ''
                failed.append((f.group(1), loc))
        r['failed'] = failed
        if 'VERIFICATION:- SUCCESSFUL' in text: r['status'] = 'ok'; r['why'] = ''
        elif failed: r['status'] = 'fail'; r['why'] = ''
        else:
            r['status'] = 'undecided'
            r['why'] = 'resource limit of the verifier' if ('timed out' in text or 'memory' in text or 'CBMC failed' in text) else 'no verdict'

def playback(contract, proof, consts, timeout_s):
    """Concrete values of the counterexamples of a failing proof: list of traces (hex words)."""
    d, lost = scratch.build_tree('kani', [contract], consts)
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(d, 'target'), RUSTFLAGS='-Awarnings')
    out, rc = _run(['cargo', 'kani', '-Z', 'unstable-options', '-Z', 'concrete-playback', '--concrete-playback=print', '--harness-timeout', '%ds' % timeout_s, '--exact', '--harness', contract.proof_path(proof)], d, env, timeout_s + 60)
    shutil.rmtree(d, ignore_errors=True)
    traces = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', out, re.S):
        words = []
        for v in re.findall(r'vec!\[([\d, ]*)\]', m.group(1)):
            words.append(''.join('%02x' % int(x) for x in v.split(',') if x.strip()))
        if words: traces.append(' '.join(words))
    return traces, out
