"""Facts about /repo's current sources, cached by content hash."""
import hashlib, os, subprocess, sys, fcntl, shutil
from .engine import Facts
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

def sources():
    out = []
    for top in ('schemars', 'schemars_derive'):
        for base, dirs, files in os.walk(os.path.join(REPO, top)):
            rel = os.path.relpath(base, REPO)
            dirs[:] = sorted(d for d in dirs if d not in ('target', 'tests', 'examples', 'benches', '.git'))
            for f in sorted(files):
                if f.endswith('.rs') or f == 'Cargo.toml':
                    out.append(os.path.join(base, f))
    for f in ('Cargo.toml', 'Cargo.lock'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out

def own():
    out = []
    for d in ('driver', 'probe', 'derive_probe'):
        for base, dirs, files in os.walk(os.path.join(V, d)):
            dirs[:] = sorted(x for x in dirs if x != 'target')
            for f in sorted(files):
                if f.endswith(('.rs', '.toml', '.txt')):
                    out.append(os.path.join(base, f))
    out.append(os.path.join(V, 'sa', 'build.sh'))
    return out

def digest():
    h = hashlib.sha256()
    for f in sources() + own():
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

class WitnessError(BuildError):
    """The derive witnesses do not compile, and the errors are all in code the macro emitted for them."""
    def __init__(self, msg, which):
        BuildError.__init__(self, msg)
        self.which = which             # [(witness type name, module file, diagnostic)]

def failing_witnesses(d):
    """the witness types whose definitions the errors lie in, or None if some error lies elsewhere"""
    import re
    from .messages import errors
    p = os.path.join(d, 'messages.json')
    if not os.path.exists(p): return None
    es = errors(p)
    src, out = {}, {}
    for f, line, text in es:
        b = os.path.basename(f or '')
        if b not in ('gen.rs', 'gen41.rs') or not f.startswith('src/'):
            return None
        ls = src.setdefault(b, open(os.path.join(V, 'derive_probe', 'src', b)).read().split('\n'))
        if b == 'gen.rs' and line >= 1 + min(i for i, l in enumerate(ls) if l.startswith(('types! {', 'schemas! {'))):
            continue                   # a use of a witness that did not compile
        i = line - 1
        # the definition starts at the #[derive(..)] at or before this line
        while i >= 0 and '#[derive(' not in ls[i]: i -= 1
        while i < len(ls) and not re.search(r'\b(?:struct|enum) (?:r#)?\w+', re.sub(r'///.*', '', ls[i])): i += 1
        m = re.search(r'\b(?:struct|enum) (?:r#)?(\w+)', ls[i]) if i < len(ls) else None
        if not m: return None
        out.setdefault((m.group(1), b), text)
    return [(n, b, t) for (n, b), t in out.items()] or None

def facts_dir(which='core', log=None):
    """which: core (probe, schemars, schemars_derive) or derive (derive_probe)"""
    d = os.path.join(V, '.work', 'facts', digest(), which)
    mark = os.path.join(d, 'ok')
    if os.path.exists(mark):
        return d
    os.makedirs(os.path.join(V, '.work'), exist_ok=True)
    with open(os.path.join(V, '.work', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(mark):
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        r = subprocess.run(['bash', os.path.join(V, 'sa', 'build.sh'), which, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            w = failing_witnesses(d) if which == 'derive' else None
            if w:
                raise WitnessError(r.stdout[-6000:], w)
            raise BuildError(r.stdout[-6000:])
        open(mark, 'w').write('ok')
        base = os.path.dirname(os.path.dirname(d))
        old = sorted((x for x in os.listdir(base) if x != os.path.basename(os.path.dirname(d))), key=lambda x: os.path.getmtime(os.path.join(base, x)))
        for x in old[:-2]:
            shutil.rmtree(os.path.join(base, x), ignore_errors=True)
    return d

_cache = {}
def load(name, which='core'):
    if (name, which) not in _cache:
        _cache[name, which] = Facts(os.path.join(facts_dir(which), name + '.json'))
    return _cache[name, which]
