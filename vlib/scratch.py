"""Mechanical construction of the scratch crate that is verified.

The sources of /repo are copied verbatim on every run and transformed only by the textual rules
below (listed in DESIGN.md); contract modules of /verif/contracts are attached as child modules, so
that they reach private items. Nothing is written into /repo."""
import os, re, shutil, subprocess, tempfile, atexit, signal

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = os.path.join(VERIF, 'rt')
CONTRACTS = os.path.join(VERIF, 'contracts')

_dirs = []
def _cleanup():
    for d in _dirs:
        shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)

def tmpdir(tag):
    d = tempfile.mkdtemp(prefix='uflow-verif-%s-' % tag)
    _dirs.append(d)
    return d

class Contract:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        head = open(path).read()
        def get(k, default=''):
            m = re.search(r'^//@ %s:\s*(.*)$' % k, head, re.M)
            return m.group(1).strip() if m else default
        self.attach = get('attach', 'src/lib.rs')
        self.for_ = get('for', 'native kani').split()
        self.scale = get('scale', '')
        self.reachable = get('reachable') == 'yes'
        self.text = head

    def proofs(self):
        """(kani proof function, unwind bound) declared by the module"""
        return re.findall(r'^proof!\((\w+),\s*[\w:]+,\s*(\d+)\)', self.text, re.M)
    def proof_path(self, p):
        mp = mod_path(self.attach)
        return '%sverif_%s::%s' % (mp + '::' if mp else '', self.name, p)

def contract(name):
    return Contract(os.path.join(CONTRACTS, name + '.rs'))

def split_grouped_std(s):
    """`use std::{net, time};` -> separate use items, so that the path rules apply."""
    def rep(m):
        inner = m.group(1)
        parts, depth, cur = [], 0, ''
        for ch in inner:
            if ch == '{': depth += 1
            if ch == '}': depth -= 1
            if ch == ',' and depth == 0:
                parts.append(cur); cur = ''
            else: cur += ch
        if cur.strip(): parts.append(cur)
        return ' '.join('use std::%s;' % p.strip() for p in parts if p.strip())
    return re.sub(r'\buse std::\{((?:[^{}]|\{[^{}]*\})*)\};', rep, s, flags=re.S)

def transform(s, kani):
    s = split_grouped_std(s)
    s = re.sub(r'(?<![\w:])(?:::)?std::time\b', '::vsup::time', s)
    s = re.sub(r'(?<![\w:])(?:::)?std::net\b', '::vsup::net', s)
    if kani:
        s = re.sub(r'use (?:::)?std::collections::\{([^}]*)\};', lambda m: ' '.join('use std::collections::%s;' % p.strip() for p in m.group(1).split(',') if p.strip()), s)
        s = re.sub(r'(?<![\w:])(?:::)?std::collections::HashMap\b', '::vsup::HashMap', s)
    s = re.sub(r'^(\s*)(?:pub\s*\((?:super|self|in [\w:]+)\)\s*)?mod (\w+);', r'\1pub(crate) mod \2;', s, flags=re.M)
    return s

def mod_path(rel):
    """src/half_connection/emit.rs -> half_connection::emit"""
    p = rel[len('src/'):-len('.rs')].split('/')
    if p[-1] in ('mod', 'lib'): p = p[:-1]
    return '::'.join(p)

def build_tree(kind, contracts, consts=None, edits=None):
    """Writes the scratch crate; returns its directory. kind: 'native' or 'kani'."""
    d = tmpdir(kind)
    src = os.path.join(REPO, 'src')
    attach = {}
    for c in contracts:
        attach.setdefault(c.attach, []).append(c)
    seen = set()
    for root, _, files in os.walk(src):
        for f in files:
            if not f.endswith('.rs'): continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            s = open(p).read()
            s = transform(s, kind == 'kani')
            if consts and rel == 'src/lib.rs':
                for k, v in consts.items():
                    s, n = re.subn(r'(pub const %s:\s*\w+\s*=)[^;]*;' % k, r'\1 %s;' % v, s)
                    if n == 0: raise RuntimeError('constant %s not found' % k)
            if edits:
                for (er, fn) in edits:
                    if er == rel: s = fn(s)
            for c in attach.get(rel, []):
                seen.add(c.name)
                s += '\n#[path = "%s"]\npub(crate) mod verif_%s;\n' % (c.path, c.name)
            if rel == 'src/lib.rs':
                s = re.sub(r'#!\[(warn|deny|forbid)\([^)]*\)\]', '', s)
                s += '\n#[doc(hidden)]\npub fn verif_all() -> Vec<(&\'static str, fn())> {\n    let mut v: Vec<(&\'static str, fn())> = Vec::new();\n'
                for c in contracts:
                    mp = mod_path(c.attach)
                    s += '    v.extend_from_slice(%s::verif_%s::HARNESSES);\n' % ('crate' + ('::' + mp if mp else ''), c.name)
                s += '    v\n}\n'
            q = os.path.join(d, rel)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w').write(s)
    lost = [c.name for c in contracts if c.name not in seen]
    toml = open(os.path.join(REPO, 'Cargo.toml')).read()
    m = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    ed = m.group(1) if m else '2018'
    prof = '\n'.join('[profile.%s]\nopt-level = 2\ndebug-assertions = true\noverflow-checks = true\ndebug = 1\nincremental = false\n' % p for p in ('dev',)) if kind == 'native' else ''
    open(os.path.join(d, 'Cargo.toml'), 'w').write('''[package]
name = "uflow"
version = "0.0.0"
edition = "%s"
[lib]
path = "src/lib.rs"
%s
[dependencies]
rand = { path = "%s/rand" }
vsup = { path = "%s/vsup" }
[workspace]
[lints.rust]
unexpected_cfgs = { level = "allow", check-cfg = ["cfg(kani)"] }
%s''' % (ed, '[[bin]]\nname = "h"\npath = "src/bin_h.rs"\n' if kind == 'native' else '', RT, RT, prof))
    if kind == 'native':
        open(os.path.join(d, 'src/bin_h.rs'), 'w').write('#[global_allocator]\nstatic A: vsup::alloc::Checking = vsup::alloc::Checking;\nfn main() { vsup::runner::main(&uflow::verif_all()); }\n')
    return d, lost

def build_native(contracts, log, timeout=400):
    """Builds the native runner; drops contract modules that do not compile against the current
    source. Returns (binary or None, kept, dropped[(name, why)])."""
    kept, dropped = list(contracts), []
    while True:
        d, lost = build_tree('native', kept)
        if lost:
            dropped += [(n, 'anchor file missing') for n in lost]
            kept = [c for c in kept if c.name not in lost]
            shutil.rmtree(d, ignore_errors=True)
            continue
        env = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_TARGET_DIR=os.path.join(d, 'target'))
        r = subprocess.run(['cargo', 'build', '--offline', '--bin', 'h'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if r.returncode == 0:
            return os.path.join(d, 'target/debug/h'), kept, dropped
        log(r.stdout[-4000:])
        bad = []
        for c in kept:
            if re.search(r'-->\s*%s:' % re.escape(c.path), r.stdout) or ('verif_%s' % c.name) in r.stdout:
                bad.append(c)
        if not bad:
            return None, kept, dropped + [('*', r.stdout[-2000:])]
        m = re.findall(r'^error.*$', r.stdout, re.M)
        dropped += [(c.name, '; '.join(m[:3])) for c in bad]
        kept = [c for c in kept if c not in bad]
        shutil.rmtree(d, ignore_errors=True)
        if not kept:
            return None, kept, dropped
