"""Runs native contract harnesses: bounded execution of contracts on generated histories."""
import json, os, subprocess, threading, time, re

def _last_json(out):
    for l in reversed(out.strip().splitlines()):
        l = l.strip()
        if l.startswith('{'):
            try: return json.loads(l)
            except Exception: return None
    return None

def run_one(binary, harness, seed, ms, prop, hang_ms=20000, max_cases=10**9, grace=60):
    env = dict(os.environ, VPROP=prop)
    env.pop('VLOG', None)
    t = time.time()
    try:
        r = subprocess.run([binary, 'run', harness, str(seed), str(max_cases), str(ms), str(hang_ms)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=ms / 1000 + hang_ms / 1000 + grace, errors='replace')
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = -999, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), ''
    j = _last_json(out)
    if j is None:
        j = {'harness': harness, 'result': 'crash', 'obligation': 'the process was ended (exit status %d): %s' % (rc, (err or '')[-400:]), 'seed': seed}
        if rc == 101 or rc == 3: j['result'] = 'broken'
    j['rc'] = rc
    j['wall'] = time.time() - t
    j['base_seed'] = seed
    return j

def reseed(binary, harness, seed, prop, hang_ms=60000):
    env = dict(os.environ, VPROP=prop, VLOG='1')
    try:
        r = subprocess.run([binary, 'reseed', harness, str(seed), str(hang_ms)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=hang_ms / 1000 + 60, errors='replace')
        return _last_json(r.stdout), r.returncode
    except subprocess.TimeoutExpired:
        return None, -999

def replay(binary, harness, trace, prop, hang_ms=60000):
    import tempfile
    env = dict(os.environ, VPROP=prop, VLOG='1')
    fd, p = tempfile.mkstemp(); os.write(fd, trace.encode()); os.close(fd)
    try:
        r = subprocess.run([binary, 'replay', harness, p, str(hang_ms)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=hang_ms / 1000 + 60, errors='replace')
        return _last_json(r.stdout), r.returncode
    except subprocess.TimeoutExpired:
        return None, -999
    finally:
        os.unlink(p)

def seed_of(base, k):
    return (base * 1000003 + k * 7919 + 1) & 0x7FFFFFFF

def run_pool(binary, jobs, prop, workers, stop):
    """jobs: [(harness, seed, ms)]; returns results. Stops early once one fails."""
    res, lock = [], threading.Lock()
    it = iter(jobs)
    def work():
        while not stop.is_set():
            with lock:
                try: h, s, ms = next(it)
                except StopIteration: return
            j = run_one(binary, h, s, ms, prop)
            with lock: res.append(j)
            if j['result'] in ('fail', 'crash'): stop.set()
    ts = [threading.Thread(target=work) for _ in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()
    return res
