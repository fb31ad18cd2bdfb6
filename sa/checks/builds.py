"""C42, C43: compile and compile-fail witnesses, and the library's code under different features."""
import glob, json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import check
from .. import facts

WORK = os.path.join(facts.V, '.work')

def env_for(target, **kw):
    e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, target), RUSTFLAGS='--cap-lints=allow', CARGO_INCREMENTAL='0', **kw)
    if 'RUSTC_WRAPPER' not in kw: e.pop('RUSTC_WRAPPER', None)
    return e

def messages(stdout):
    for l in stdout.split('\n'):
        try: j = json.loads(l)
        except ValueError: continue
        if j.get('reason') == 'compiler-message' and j['message'].get('level') == 'error':
            yield j['target'].get('name', '?'), j['target'].get('src_path', '?'), j['message']
        elif j.get('reason') == 'compiler-artifact':
            yield j['target'].get('name', '?'), j['target'].get('src_path', '?'), None

def where_of(m, default):
    for s in m.get('spans', ()):
        if s.get('is_primary'):
            return '%s:%d' % (s['file_name'].replace('/repo/', ''), s['line_start'])
    return default

# ------------------------------------------------------------------ C42
@check('C42')
def c42(c):
    d = os.path.join(facts.V, 'compile_probe')
    wits = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(d, 'src', 'bin', '*.rs')))
    r = subprocess.run(['cargo', 'check', '--offline', '-q', '--bins', '--keep-going', '--message-format=json'], cwd=d, env=env_for('check'),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, built, lib = {}, set(), []
    for tgt, src, m in messages(r.stdout):
        if m is None:
            built.add(tgt)
        elif src.startswith(os.path.join(d, 'src', 'bin')):
            errs.setdefault(tgt, []).append(m)
        else:
            lib.append((tgt, m))
    if lib:
        t, m = lib[0]
        raise facts.BuildError('%s does not build: %s' % (t, m.get('rendered') or m['message']))
    for w in wits:
        f = 'compile_probe/src/bin/%s.rs' % w
        kind = {'g': 'must-compile', 'b': 'must-be-rejected'}[w[0]]
        es = errs.get(w, [])
        pan = [m for m in es if 'panicked' in m['message']]
        if not es and w not in built:
            c.und(kind, w, 'no verdict from the compiler: ' + r.stderr[-200:])
        elif pan:
            c.bad(kind, w, 'the derive macro panics: %s' % (pan[0].get('rendered') or pan[0]['message'])[:300].replace('\n', ' '), f, pan[0].get('rendered'))
        elif w[0] == 'g' and es:
            c.bad(kind, w, 'a supported program does not compile: %s' % es[0]['message'][:300].replace('\n', ' '), where_of(es[0], f), es[0].get('rendered'))
        elif w[0] == 'b' and not es:
            c.bad(kind, w, 'an invalid program is accepted', f, open(os.path.join(d, 'src', 'bin', w + '.rs')).read()[:1500])
        else:
            c.ok(kind, w)
    c.floor('must-compile', 90); c.floor('must-be-rejected', 300)

# ------------------------------------------------------------------ C43
def features():
    """the features that the witness crate forwards to the library"""
    src = open(os.path.join(facts.V, 'feature_probe', 'Cargo.toml')).read().split('[features]')[1].split('[workspace]')[0]
    return re.findall(r'^(\w+) =', src, re.M)

def combos(thorough):
    fs = features()
    out = [()] + [(f,) for f in fs] + [('std', f) for f in fs if f != 'std'] + [('std', 'derive')]
    out += [tuple(g for g in fs if g != f) for f in fs] + [tuple(fs)]
    if thorough:
        out += [(a, b) for i, a in enumerate(fs) for b in fs[i + 1:]]
    seen, res = set(), []
    for x in out:
        k = frozenset(x)
        if k not in seen: seen.add(k); res.append(x)
    return res

def named(fs):
    allf = features()
    miss = [f for f in allf if f not in fs]
    if not fs: return 'no features'
    if not miss: return 'all features'
    return 'all features but ' + miss[0] if len(miss) == 1 else 'features ' + '+'.join(fs)

def check_combo(fs, n):
    d = os.path.join(facts.V, 'feature_probe')
    r = subprocess.run(['cargo', 'check', '--offline', '-q', '--message-format=json', '--no-default-features', '--features', ' '.join(fs)], cwd=d,
                       env=env_for('features%d' % n, CARGO_BUILD_JOBS='4'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return fs, r.returncode, [(t, s, m) for t, s, m in messages(r.stdout) if m], r.stderr

def text_of(fs, n, tmp):
    """the body of every function of the library, as compiled with the given features"""
    out = os.path.join(tmp, 'text%d-%s' % (n, '+'.join(fs)))
    os.makedirs(out)
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    e = env_for('text%d' % n, RUSTC_WRAPPER=os.path.join(WORK, 'driver', 'release', 'mirfacts'), MIRFACTS_OUT=out, MIRFACTS_TEXT='schemars', CARGO_BUILD_JOBS='4', LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'))
    e['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on --cap-lints=allow'
    d = os.path.join(facts.V, 'feature_probe')
    subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-q', '-p', 'schemars'], cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q', '--lib', '--no-default-features', '--features', ' '.join(fs)], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    f = os.path.join(out, 'schemars.json')
    if not os.path.exists(f):
        return fs, None, r.stdout[-600:]
    fns = {}
    for x in json.load(open(f)):
        m = {}
        t = re.sub(r'\balloc(\d+)\b', lambda k: 'alloc#%d' % m.setdefault(k.group(1), len(m)), x['text'])
        fns.setdefault(x['name'], []).append((t, x['span'], x['public']))
    shutil.rmtree(out)
    return fs, fns, None

def lanes(jobs, f, width):
    """run jobs in `width` lanes, each with its own target directory"""
    parts = [jobs[i::width] for i in range(width)]
    def lane(i): return [f(j, i) for j in parts[i]]
    with ThreadPoolExecutor(width) as ex:
        return [x for l in ex.map(lane, range(width)) for x in l]

@check('C43')
def c43(c):
    cs = combos(c.thorough)
    res = lanes(cs, check_combo, 2)
    if all(rc for _, rc, _, _ in res):
        raise facts.BuildError('no feature combination builds: ' + (res[0][2][0][2]['message'] if res[0][2] else res[0][3][-500:]))
    for fs, rc, errs, err in res:
        item = named(fs)
        mine = [(t, m) for t, s, m in errs if s.startswith('/repo/') or s.startswith(os.path.join(facts.V, 'feature_probe'))]
        if rc == 0:
            c.ok('builds', item)
        elif mine:
            t, m = mine[0]
            if t == 'feature_probe':
                c.bad('builds', item.replace(' ', '-'), 'with %s the public interface is not as without or with other features: %s' % (item, m['message'].replace('\n', ' ')), where_of(m, 'feature_probe/src/lib.rs'), m.get('rendered'))
            else:
                c.bad('builds', item.replace(' ', '-'), 'with %s, %s does not compile: %s' % (item, t, m['message'].replace('\n', ' ')), where_of(m, t), m.get('rendered'))
        else:
            c.und('builds', item, err[-300:])
    # the code of every function is the same in every build that has it
    fs = features()
    sets = [(), ('std',)] + [(f,) for f in fs if f != 'std'] + [tuple(fs)]
    tmp = tempfile.mkdtemp(prefix='c43-')
    try:
        texts = lanes(sets, lambda s, i: text_of(s, i, tmp), 2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    T = {}
    for s, fns, err in texts:
        if fns is None: c.und('same-code', named(s), 'no facts: ' + err)
        else: T[frozenset(s)] = fns
    for s in sets:
        for t in sets:
            if not (set(s) < set(t)): continue
            A, B = T.get(frozenset(s)), T.get(frozenset(t))
            if A is None or B is None: continue
            pair = '%s / %s' % (named(s), named(t))
            n = 0
            for name, vs in A.items():
                ws = B.get(name)
                c.functions.add(name)
                if ws is None:
                    if vs[0][2]:
                        c.bad('same-code', name, 'with %s there is no %s, which is there with %s' % (named(t), name, named(s)), vs[0][1])
                elif not {v[0] for v in vs} <= {w[0] for w in ws}:
                    c.bad('same-code', name, 'the code of %s with %s differs from that with %s' % (name, named(t), named(s)), vs[0][1])
                else:
                    n += 1
            c.ok('same-code', pair, n)
    c.floor('builds', 50); c.floor('same-code', 5000)
