"""Extracts functions of /repo's current source into a Verus file, puts the contracts of a unit
around them, and lets Verus discharge the obligations.

A unit (contracts/verus/<unit>.rs) is a Verus file with directives:
  //@ for: C01 C06                       properties of obligations that carry no label of their own
  //@ rewrite /regex/replacement/        applied to every extracted item (listed in the evidence)
  //@ inline NAME ..                    replaces constants by their value (checked by a lemma)
  //@ clear                              forgets the rewrites so far (between the modules of a unit)
  //@ skip NAME ..                       structs/enums not taken again until the next clear (a module that
                                         gets them from another one)
  //@ only <module>                      verify this module; what comes before it are the callees, whose
                                         contracts are discharged by units of their own
  //@ take <file> <kind> <name>          kind: struct enum const type fn macro closure; name: X or Type::f
                                         closure: Type::f/v is the body of `let v = |..| {..}` in Type::f, as
                                         a method `call`; the captured variables become fields (by rewriting)
  //@   ret r                            names the result
  //@   sub /regex/replacement/          rewrite for this item only
  //@   spec                             requires/ensures, placed between signature and body
  //@   loop N [iter]                    loop specification of the N-th loop (iter: names the iterator)
  //@   body N                           ghost code at the start of the N-th loop's body
  //@   bodyend N                        ghost code at the end of the N-th loop's body
  //@   beforeloop N, afterloop N        ghost code before/after the N-th loop (a statement)
  //@   start | exit                     ghost code at the start/end of the body
  //@   before /regex/n | after /regex/n ghost code before/after the n-th line that matches (default: first)
  //@   end
Nothing else of the item changes; comments are dropped. An item or anchored loop that is not there,
or text Verus cannot read, makes the unit undecided, never a violation."""
import hashlib, json, os, re, shutil, subprocess, tempfile, time
from . import scratch

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'verus')
VERUS = shutil.which('verus') or '/opt/veriftools/verus/verus'

class Lost(Exception): pass

# ------------------------------------------------------------------------------ reading Rust text
def strip_comments(s):
    """Replaces comments by nothing and keeps strings, chars and line structure."""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if s.startswith('/*', j): d += 1; j += 2
                elif s.startswith('*/', j): d -= 1; j += 2
                else:
                    if s[j] == '\n': out.append('\n')
                    j += 1
            i = j
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"': j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1]); i = j + 1
        elif s[i] == "'" and re.match(r"'(\\.[^']*|[^\\'])'", s[i:i + 12]):
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:i + 12])
            out.append(m.group(0)); i += m.end()
        else: out.append(s[i]); i += 1
    return ''.join(out)

def skip(s, i):
    """Index after a string or char literal starting at i, or None."""
    if s[i] == '"':
        j = i + 1
        while s[j] != '"': j += 2 if s[j] == '\\' else 1
        return j + 1
    if s[i] == "'":
        m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:i + 12])
        if m: return i + m.end()
    return None

def match(s, i):
    """Index of the bracket closing the one at i."""
    pairs = {'{': '}', '(': ')', '[': ']'}
    st = []
    while i < len(s):
        k = skip(s, i)
        if k: i = k; continue
        c = s[i]
        if c in pairs: st.append(pairs[c])
        elif c in ')}]':
            if not st or st.pop() != c: raise Lost('unbalanced brackets')
            if not st: return i
        i += 1
    raise Lost('unbalanced brackets')

def body_start(s, i):
    """Index of the first '{' at bracket depth 0 from i."""
    d = 0
    while i < len(s):
        k = skip(s, i)
        if k: i = k; continue
        c = s[i]
        if c in '([': d += 1
        elif c in ')]': d -= 1
        elif c == '{' and d == 0: return i
        elif c == ';' and d == 0: return None
        i += 1
    return None

def drop_tests(s):
    """Removes items under #[cfg(test)]."""
    while True:
        m = re.search(r'#\[cfg\(test\)\]', s)
        if not m: return s
        b = body_start(s, m.end())
        semi = s.find(';', m.end())
        if b is None or (semi >= 0 and semi < b and '{' not in s[m.end():semi]): e = semi
        else: e = match(s, b)
        s = s[:m.start()] + s[e + 1:]

def top_ranges(s):
    """(start, end) of impl blocks: (type name, trait or None, body start, body end)."""
    res = []
    for m in re.finditer(r'^[ \t]*impl\b', s, re.M):
        b = body_start(s, m.end())
        if b is None: continue
        head = s[m.end():b]
        head = re.sub(r'^\s*<[^{}]*?>\s*(?=\w)', ' ', head) if head.lstrip().startswith('<') else head
        t = re.search(r'\bfor\s+([\w:]+)', head)
        if t: res.append((t.group(1).split('::')[-1], head, b, match(s, b)))
        else:
            t = re.match(r'\s*([\w:]+)', head)
            if t: res.append((t.group(1).split('::')[-1], None, b, match(s, b)))
    return res

def depth0(s, lo, hi, pos):
    d, i = 0, lo
    while i < pos:
        k = skip(s, i)
        if k: i = k; continue
        if s[i] == '{': d += 1
        elif s[i] == '}': d -= 1
        i += 1
    return d == 0

def item(s, kind, name):
    """Text of one item (attributes excluded)."""
    if kind == 'fn':
        ty, _, f = name.rpartition('::')
        spaces = [(b + 1, e) for t, tr, b, e in top_ranges(s) if t == ty] if ty else [(0, len(s))]
        for lo, hi in spaces:
            for m in re.finditer(r'(?:pub(?:\s*\([^)]*\))?\s+)?(?:const\s+)?fn\s+%s\b' % re.escape(f), s[lo:hi]):
                p = lo + m.start()
                if not depth0(s, lo, hi, p): continue
                b = body_start(s, p)
                if b is None: continue
                return s[p:match(s, b) + 1]
        raise Lost('function %s not found' % name)
    if kind == 'closure':
        fn, _, v = name.partition('/')
        t = item(s, 'fn', fn)
        m = re.search(r'\blet\s+(?:mut\s+)?%s\s*=\s*\|([^|]*)\|\s*\{' % re.escape(v), t)
        if not m: raise Lost('closure %s not found' % name)
        b = m.end() - 1
        return 'pub fn call(&mut self, %s) %s' % (m.group(1).strip(), t[b:match(t, b) + 1])
    if kind == 'macro':
        m = re.search(r'macro_rules!\s*%s\b' % re.escape(name), s)
        if not m: raise Lost('macro %s not found' % name)
        b = body_start(s, m.end())
        return s[m.start():match(s, b) + 1]
    if kind in ('const', 'type', 'static'):
        ty, _, f = name.rpartition('::')
        m = re.search(r'(?:pub(?:\s*\([^)]*\))?\s+)?%s\s+%s\b' % (kind, re.escape(f)), s)
        if not m: raise Lost('%s %s not found' % (kind, name))
        i = m.end(); d = 0
        while not (s[i] == ';' and d == 0):
            if s[i] in '([{': d += 1
            elif s[i] in ')]}': d -= 1
            i += 1
        return s[m.start():i + 1]
    m = re.search(r'(?:pub(?:\s*\([^)]*\))?\s+)?%s\s+%s\b' % (kind, re.escape(name)), s)
    if not m: raise Lost('%s %s not found' % (kind, name))
    b = body_start(s, m.end())
    if b is None: return s[m.start():s.index(';', m.start()) + 1]
    return s[m.start():match(s, b) + 1]

def loops(body):
    """Positions (keyword, opening brace) of the loops of a body, in text order."""
    res, i = [], 0
    while i < len(body):
        k = skip(body, i)
        if k: i = k; continue
        m = re.compile(r'(while|for|loop)\b').match(body, i)
        if m and (i == 0 or not (body[i - 1].isalnum() or body[i - 1] in '_.')):
            # `for<'a>` and labels do not occur here
            b = body_start(body, m.end())
            if b is None: raise Lost('loop without body')
            res.append((i, b, m.group(1)))
            i = m.end(); continue
        i += 1
    return res

# ------------------------------------------------------------------------------ building the file
def parse_sub(t):
    t = t.strip()
    d = t[0]
    parts = re.split(r'(?<!\\)' + re.escape(d), t[1:])
    if len(parts) < 2: raise ValueError(t)
    return parts[0].replace('\\' + d, d), parts[1].replace('\\' + d, d), (parts[2] if len(parts) > 2 else '')

def pub_fields(text):
    text = re.sub(r'^pub(\s*\([^)]*\))?\s+', '', text)
    if text.startswith('struct'):
        b = body_start(text, 0)
        if b is not None:
            e = match(text, b)
            inner = re.sub(r'(?m)^(\s*)(?:pub(?:\s*\([^)]*\))?\s+)?(\w+\s*:)', r'\1pub \2', text[b + 1:e])
            text = text[:b + 1] + inner + text[e:]
    return 'pub ' + text

def annotate(text, ann):
    for rx, rp, fl in ann['subs']:
        new = re.sub(rx, rp, text, flags=re.S if 's' in fl else 0)
        if new == text and '!' in fl: raise Lost('expected text %r not found' % rx)
        text = new
    b = body_start(text, 0)
    head, body = text[:b].rstrip(), text[b:]
    if not head.startswith('pub'): head = 'pub ' + head
    else: head = re.sub(r'^pub(\s*\([^)]*\))?', 'pub', head)
    ls = loops(body)
    need = sorted(ann['loops'])
    if ann['loops'] or ls:
        if len(ls) != ann.get('nloops', len(ann['loops'])): raise Lost('%d loops where the contract has %d' % (len(ls), ann.get('nloops', len(ann['loops']))))
    ins = []   # (position, text)
    for n in ann['bodies']:
        if n < len(ls): ins.append((ls[n][1] + 1, '\n' + ann['bodies'][n] + '\n'))
    for n in ann['ends']:
        if n < len(ls): ins.append((match(body, ls[n][1]), '\n' + ann['ends'][n] + '\n'))
    for n in ann['afters']:
        if n < len(ls): ins.append((match(body, ls[n][1]) + 1, '\n' + ann['afters'][n] + '\n'))
    for n in ann['befores']:
        if n < len(ls): ins.append((ls[n][0], '\n' + ann['befores'][n] + '\n'))
    for n in need:
        kw, br, w = ls[n]
        spec, it = ann['loops'][n]
        ins.append((br, '\n' + spec + '\n'))
        if it and w == 'for':
            m = re.compile(r'\bin\s').search(body, kw)
            ins.append((m.end(), it + ': '))
    ins.append((1, '\n' + ann['start'] + '\n' if ann['start'] else ''))
    if ann['exit']: ins.append((len(body) - 1, '\n' + ann['exit'] + '\n'))
    for where, rx, t, opt in ann['marks']:
        pos = 0
        found = None
        left = opt
        for m in re.finditer(r'[^\n]*\n', body):
            if re.search(rx, m.group(0)):
                left -= 1
                if left == 0: found = m; break
        if not found: ann['lost'].append(rx); continue      # a proof hint without its anchor is left out
        if where == 'before': ins.append((found.start(), t + '\n'))
        else: ins.append((found.end(), t + '\n'))
    for p, t in sorted(ins, key=lambda x: -x[0]): body = body[:p] + t + body[p:]
    if ann['ret']:
        m = re.search(r'->\s*(.+)$', head, re.S)
        if m: head = head[:m.start()] + '-> (%s: %s)' % (ann['ret'], m.group(1).strip())
    return (ann['attr'] + '\n' if ann['attr'] else '') + head + '\n' + ann['spec'] + '\n' + body

def generate(unit, probe=False):
    """Returns (text, info). info: functions, lines [(first,last,name)], labels, assumed, for."""
    src = open(os.path.join(DIR, unit + '.rs')).read()
    while True:     # //@ include: shared pieces
        m = re.search(r'^//@ include (\S+)\n', src, re.M)
        if not m: break
        src = src[:m.start()] + open(os.path.join(DIR, m.group(1))).read() + src[m.end():]
    lines = src.split('\n')
    files, rewrites, props, panics = {}, [], [], None
    out, funcs, spans = [], [], []
    def load(rel):
        if rel not in files:
            p = os.path.join(scratch.REPO, rel)
            if not os.path.exists(p): raise Lost('%s is missing' % rel)
            files[rel] = drop_tests(strip_comments(open(p).read()))
        return files[rel]
    i = 0
    nfn = 0
    only, callees, skipped, rewritten = None, [], set(), []
    lost = []
    inlines = []
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*//@ (\w+):? ?(.*)$', l)
        if not m: out.append(l); i += 1; continue
        d, arg = m.group(1), m.group(2)
        if d == 'for': props = arg.split(); i += 1; continue
        if d == 'panics': panics = arg.split(); i += 1; continue
        if d == 'clear': rewrites, skipped = [], set(); i += 1; continue
        if d == 'skip': skipped |= set(arg.split()); i += 1; continue
        if d == 'only':
            only, callees = arg.strip(), funcs
            funcs, spans, nfn, lost = [], [], 0, []
            i += 1; continue
        if d == 'inline': inlines += arg.split(); i += 1; continue
        if d == 'rewrite':
            rewrites.append(parse_sub(arg)); rewritten.append(rewrites[-1]); i += 1; continue
        if d != 'take': raise ValueError('directive %r' % l)
        rel, kind, name = arg.split()
        ann = {'spec': '', 'loops': {}, 'bodies': {}, 'ends': {}, 'afters': {}, 'befores': {}, 'start': '', 'exit': '', 'marks': [], 'ret': None, 'subs': [], 'attr': '', 'lost': lost}
        i += 1
        sink = None
        def put(s):
            if sink is None: raise ValueError('stray line in take: %r' % s)
            sink.append(s)
        pend = []
        while True:
            l = lines[i]
            m = re.match(r'\s*//@\s+(\w+):? ?(.*)$', l)
            if not m: put(l); i += 1; continue
            d, a = m.group(1), m.group(2)
            i += 1
            if d == 'end': break
            sink = []
            if d == 'ret': ann['ret'] = a.strip()
            elif d == 'sub': ann['subs'].append(parse_sub(a))
            elif d == 'attr': ann['attr'] = a
            elif d == 'nloops': ann['nloops'] = int(a)
            else: pend.append((d, a, sink))
        for d, a, sk in pend:
            t = '\n'.join(sk)
            if d == 'spec': ann['spec'] = t
            elif d == 'start': ann['start'] = t
            elif d == 'exit': ann['exit'] = t
            elif d == 'loop':
                w = a.split()
                ann['loops'][int(w[0])] = (t, w[1] if len(w) > 1 else None)
            elif d == 'body': ann['bodies'][int(a)] = t
            elif d == 'bodyend': ann['ends'][int(a)] = t
            elif d == 'afterloop': ann['afters'][int(a)] = t
            elif d == 'beforeloop': ann['befores'][int(a)] = t
            elif d in ('before', 'after'): 
                am = re.match(r'(.*/)(\d*)\s*$', a)
                ann['marks'].append((d, parse_sub(am.group(1) + am.group(1)[0])[0], t, int(am.group(2) or 1)))
            else: raise ValueError('directive %r' % d)
        if kind in ('struct', 'enum') and name in skipped: continue
        text = item(load(rel), kind, name)
        for rx, rp, fl in rewrites: text = re.sub(rx, rp, text, flags=re.S if 's' in fl else 0)
        if kind in ('fn', 'closure'):
            nfn += 1
            if probe: ann['start'] = re.sub(r'\A((?:\s*(?:hide|broadcast use)\b[^;]*;)*)', r'\1 assert(false);', ann['start'])    # `hide` headers come first
            text = annotate(text, ann)
            funcs.append('%s %s' % (rel, name))
        elif kind in ('struct', 'enum'):
            for rx, rp, fl in ann['subs']: text = re.sub(rx, rp, text, flags=re.S if 's' in fl else 0)
            text = (ann['attr'] + '\n' if ann['attr'] else '') + pub_fields(text)
        elif kind in ('const', 'type', 'static'):
            text = re.sub(r'\bstatic\b', 'const', text, 1)
            for rx, rp, fl in ann['subs']: text = re.sub(rx, rp, text, flags=re.S if 's' in fl else 0)
            text = 'pub ' + re.sub(r'^pub(\s*\([^)]*\))?\s+', '', text)
        a = sum(x.count('\n') + 1 for x in out) + 1
        out.append(text)
        if kind in ('fn', 'closure'): spans.append((a, a + text.count('\n'), name))
    text = '\n'.join(out)
    for name in inlines:
        v = const_value(text, name)
        text = re.sub(r'(?<!const )\b%s\b' % name, str(v), text)
        mark = '/*inlined constants*/'
        if mark not in text: raise ValueError('no mark for inlined constants')
        text = text.replace(mark, mark + ' proof fn inlined_%s() ensures %s == %d { assert(%s == %d) by (compute); }' % (name, name[0] + '\x00' + name[1:], v, name[0] + '\x00' + name[1:], v))
    text = text.replace('\x00', '')
    assumed = sorted(set(re.findall(r'assume_specification[^\[]*\[\s*([^\]]+(?:\[[^\]]*\])?[^\]]*)\]', text)))
    assumed += sorted(set('external_body: ' + m for m in re.findall(r'#\[verifier::external_body\]\s*(?:pub )?(?:fn|struct|proof fn) (\w+)', text)))
    assumed += ['assume/admit'] * len(re.findall(r'\b(?:assume|admit)\s*\(', text))
    return text, {'functions': funcs, 'spans': spans, 'nfn': nfn, 'lost': lost, 'for': props, 'panics': panics or props, 'assumed': assumed, 'only': only, 'callees': callees, 'rewrites': sorted(set('%s => %s' % (a, b) for a, b, _ in rewritten))}

def const_value(text, name):
    m = re.search(r'const\s+%s\s*:\s*\w+\s*=\s*([^;]+);' % name, text)
    if not m: raise Lost('constant %s not found' % name)
    e = m.group(1)
    for n in set(re.findall(r'[A-Za-z_]\w*', e)):
        if re.match(r'(usize|u\d+|as)$', n): e = re.sub(r'\b%s\b' % n, '', e)
        else: e = re.sub(r'\b%s\b' % n, '(%d)' % const_value(text, n), e)
    e = re.sub(r'(\d)(?:usize|u8|u16|u32|u64)\b', r'\1', e)
    if not re.fullmatch(r'[\d\sxXa-fA-F_+*()/<>-]+', e): raise Lost('constant %s has no plain value' % name)
    return eval(e.replace('/', '//'))

def run_verus(text, name, timeout, threads=4, rlimit=40, only=None, extra=()):
    d = tempfile.mkdtemp(prefix='uflow-verus-')
    f = os.path.join(d, name + '.rs')
    open(f, 'w').write(text)
    t0 = time.time()
    try:
        p = subprocess.run([VERUS, f, '--output-json', '--error-format=json', '--num-threads', str(threads), '--rlimit', str(rlimit)] + (['--verify-module', only] if only else []) + list(extra), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
        so, se = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        so, se = '', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return so, se, time.time() - t0

UNDEC = re.compile(r'rlimit|Resource limit|could not be determined|timed out', re.I)

def run_unit(unit, log, timeout=300, prop=None):
    res = {'unit': unit, 'status': 'undecided', 'why': '', 'functions': [], 'verified': 0, 'errors': [], 'time': 0.0, 'assumed': [], 'output': '', 'rewrites': []}
    try: text, info = generate(unit)
    except Lost as e:
        res['why'] = 'the contracts no longer fit the source: %s' % e
        return res
    res['functions'] = info['functions']; res['assumed'] = info['assumed']; res['rewrites'] = info['rewrites']
    so, se, dt = run_verus(text, unit, timeout, only=info['only'])
    res['time'] = round(dt, 1)
    try: j = json.loads(so[so.index('{'):])
    except Exception:
        res['why'] = 'Verus gave no result'
        log(se[-2000:])
        return res
    vr = j.get('verification-results', {})
    res['verified'] = vr.get('verified', 0)
    diags = []
    for l in se.splitlines():
        try: diags.append(json.loads(l))
        except Exception: pass
    errs = [d for d in diags if d.get('level') == 'error']
    glines = text.split('\n')
    good = vr['success'] if 'success' in vr else not vr.get('errors') and not vr.get('encountered-error') and not vr.get('encountered-vir-error')   # absent when one module is verified
    if good and not errs:
        if res['verified'] == 0: res['why'] = 'nothing was verified'; return res
        # vacuity: with assert(false) at its start every function has to fail
        ptext, pinfo = generate(unit, probe=True)
        so2, se2, dt2 = run_verus(ptext, unit, timeout, only=info['only'], extra=('--multiple-errors', '0'), rlimit=3)
        res['time'] = round(dt + dt2, 1)
        hit = set()
        for l in se2.splitlines():
            try: d = json.loads(l)
            except Exception: continue
            if d.get('level') != 'error' or not re.search('assert|[Rr]esource limit|rlimit', d.get('message', '')): continue
            for s in d.get('spans', []):
                for a, b, n in pinfo['spans']:
                    if a <= s['line_start'] <= b: hit.add(n)
        missing = [n for a, b, n in pinfo['spans'] if n not in hit]
        if missing:
            res['why'] = 'contract of %s may be vacuous' % ', '.join(missing); return res
        res['status'] = 'ok'
        res['reachability_probes'] = len(hit)
        return res
    real = [d['message'] for d in errs if not d['message'].startswith('aborting due to')]
    computed = bool(real) and all('expression simplifies to false' in m for m in real)      # a failed proof by computation
    if computed: pass
    elif vr.get('encountered-vir-error') or vr.get('encountered-error') and not vr.get('errors'):
        res['why'] = 'the source is outside what Verus reads with these contracts: %s' % '; '.join(d['message'] for d in errs[:2])[:300]
        log('\n'.join(d.get('rendered') or d['message'] for d in errs)[:3000])
        return res
    if not vr.get('errors') and not computed:
        res['why'] = 'Verus could not read the source with these contracts: %s' % '; '.join(d['message'] for d in errs[:2])[:300]
        log('\n'.join(d.get('rendered') or d['message'] for d in errs)[:3000])
        return res
    hard, soft = [], []
    for d in errs:
        msg = d['message']
        if re.match(r'aborting due to|could not compile', msg): continue
        where, label, clause = '', None, ''
        for s in d.get('spans', []):
            ln = s['line_start']
            for a, b, n in info['spans']:
                if a <= ln <= b and not where: where = n
            for k in range(ln, min(s['line_end'], ln + 12) + 1):
                g = glines[k - 1] if k - 1 < len(glines) else ''
                m = re.search(r'//\s*((?:C\d\d)(?:/C\d\d)*)\b', g)
                if m: label = (label or set()) | set(m.group(1).split('/'))
            if s.get('label') and not clause: clause = ' '.join(x['text'].strip() for x in s.get('text', []))[:160]
        o = '%s::%s: %s%s' % (unit, where or '(lemma)', msg, (': ' + clause) if clause else '')
        if UNDEC.search(msg): soft.append(o)
        else: hard.append((o, label))
    mine = [o for o, lab in hard if prop is None or prop in (lab if lab else info['panics'])]
    res['output'] = '\n'.join(d.get('rendered') or d['message'] for d in errs)
    if mine and info['lost']: res['why'] = 'proof hints lost their place (%s) and the proof does not go through' % ', '.join(info['lost'])
    elif mine: res['status'] = 'fail'; res['errors'] = mine
    elif hard: res['status'] = 'other'; res['why'] = 'obligations of other properties fail: %s' % hard[0][0]; res['errors'] = []
    else: res['why'] = 'resource limit: %s' % '; '.join(soft)[:300]
    return res

if __name__ == '__main__':
    import sys
    for u in sys.argv[1:]:
        if u.startswith('-'): continue
        if '-g' in sys.argv:
            print(generate(u)[0]); continue
        text = generate(u)[0]
        open('/tmp/w/ver/%s.rs' % u, 'w').write(text)
        r = run_unit(u, print)
        print({k: v for k, v in r.items() if k != 'output'}); print(r['output'][:6000])
