"""C07, C44: whole-crate queries over resolved MIR, statics and tokens."""
import json, os, re, subprocess
from . import check
from .. import facts

CRATES = ('schemars', 'schemars_derive')

# ------------------------------------------------------------------ facts
def bodies(c):
    """(crate, facts, function record) of every function, including closures, of both crates, and of the
    code that the derive macro generates for the witness types"""
    for n in CRATES:
        F = c.F(n)
        for r in F.roots:
            yield n, F, r

def span_s(s): return '%s:%s' % (str(s[0]).replace('/repo/', ''), s[1]) if s else '?'

class Poly:
    def __init__(self, path):
        self.__dict__.update(json.load(open(path)))

def poly(name):
    return Poly(os.path.join(facts.facts_dir('derive' if name == 'derive' else 'core'), ('probe' if name == 'derive' else name) + '.json'))

def generated(P):
    """the functions of the derive witnesses that the macro generated (as (name, record))"""
    for i in P.insts:
        if i.get('body') and i.get('trait') == 'schemars::JsonSchema' and re.match(r'<probe::gen', i['name']):
            yield i

# ------------------------------------------------------------------ tokens
def tokens(src):
    """the identifiers and punctuation of Rust source, without comments and literals, as (token, line)"""
    i, n, line = 0, len(src), 1
    while i < n:
        ch = src[i]
        if ch == '\n': line += 1; i += 1
        elif src.startswith('//', i):
            while i < n and src[i] != '\n': i += 1
        elif src.startswith('/*', i):
            d = 1; i += 2
            while i < n and d:
                if src.startswith('/*', i): d += 1; i += 2
                elif src.startswith('*/', i): d -= 1; i += 2
                else:
                    line += src[i] == '\n'; i += 1
        elif (m := re.compile(r'b?r(#*)"').match(src, i)):
            e = src.find('"' + m.group(1), m.end())
            e = n if e < 0 else e + 1 + len(m.group(1))
            line += src.count('\n', i, e); i = e
        elif ch == '"' or src.startswith('b"', i) or src.startswith('c"', i):
            i += 1 if ch == '"' else 2
            while i < n and src[i] != '"':
                if src[i] == '\\': i += 1
                line += src[i:i + 1] == '\n'; i += 1
            i += 1
        elif (m := re.compile(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", re.S).match(src, i)):
            i = m.end()
        elif (m := re.compile(r"(?:r#)?[A-Za-z_]\w*").match(src, i)):
            yield m.group(0), line; i = m.end()
        elif ch.isspace(): i += 1
        else: yield ch, line; i += 1

def sources():
    for f in facts.sources():
        if f.endswith('.rs') and '/src/' in f:
            yield f

# ------------------------------------------------------------------ C44
def globals_rule(c, rule):
    n = 0
    for name in CRATES + ('derive',):
        P = poly(name)
        for g in P.globals:
            if name == 'derive' and not re.match(r'(?:derive_probe|probe)::gen', g['name']): continue
            w = span_s(g['span'])
            if g['kind'] == 'static' and (g['mut'] or not g['freeze']):
                c.bad(rule, g['name'], 'global mutable state: static %s: %s%s' % (g['name'], g['ty'], ' (static mut)' if g['mut'] else ' (interior mutability)'), w)
            elif 'thread::local::LocalKey' in g['ty'] or 'LocalKey<' in g['ty']:
                c.bad(rule, g['name'], 'thread-local state: %s: %s' % (g['name'], g['ty']), w)
            else:
                c.ok(rule, '%s %s: %s' % (g['kind'], g['name'], g['ty'])); n += 1
    return n

def cargo_check(d, *args):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(facts.V, '.work', 'check'), RUSTFLAGS='--cap-lints=allow', CARGO_INCREMENTAL='0')
    env.pop('RUSTC_WRAPPER', None)
    r = subprocess.run(['cargo', 'check', '--offline', '-q', '--message-format=json'] + list(args), cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for l in r.stdout.split('\n'):
        try: j = json.loads(l)
        except ValueError: continue
        m = j.get('message')
        if j.get('reason') == 'compiler-message' and m.get('level') == 'error':
            errs.append((j.get('target', {}).get('name', '?'), m))
    return r.returncode, errs, r.stderr

@check('C44')
def c44(c):
    globals_rule(c, 'globals')
    fns = 0
    for name in CRATES:
        P = poly(name)
        for r in P.roots:
            fns += 1
            c.functions.add(r['name'])
            if r.get('unsafe'):
                c.bad('safe', r['name'], 'unsafe function %s' % r['name'], span_s(r['span']))
    c.ok('safe', 'functions with a safe signature', fns)
    files = 0
    for f in sources():
        files += 1
        for t, line in tokens(open(f).read()):
            if t == 'unsafe':
                c.bad('safe', '%s:unsafe' % os.path.relpath(f, '/repo'), 'unsafe code', '%s:%d' % (os.path.relpath(f, '/repo'), line))
                break
        else:
            c.ok('no-unsafe-token', os.path.relpath(f, '/repo'))
    d = os.path.join(facts.V, 'send_probe')
    rc, errs, err = cargo_check(d)
    ws = re.findall(r'pub fn (\w+)\(\)', open(os.path.join(d, 'src', 'lib.rs')).read())
    bad = {}
    src = open(os.path.join(d, 'src', 'lib.rs')).read().split('\n')
    for tgt, m in errs:
        if tgt != 'send_probe': continue
        if 'cannot be sent between threads' in m['message'] or 'cannot be shared between threads' in m['message']:
            for s in m['spans']:
                if s['file_name'].endswith('lib.rs') and s['is_primary']:
                    w = re.search(r'pub fn (\w+)', src[s['line_start'] - 1])
                    if w: bad.setdefault(w.group(1), m)
    for w in ws:
        if w in bad:
            m = bad[w]
            c.bad('send', w, '%s (witness %s)' % (m['message'], w), 'send_probe/src/lib.rs', m.get('rendered'))
        elif rc == 0:
            c.ok('send', w)
        else:
            c.und('send', w, 'the witness crate does not build: ' + (errs[0][1]['message'] if errs else err[-300:]))
    c.floor('send', len(ws)); c.floor('safe', 100); c.floor('no-unsafe-token', 20)

# ------------------------------------------------------------------ C07
SOURCES = [
    (r'\bstd::time::|\bcore::time::.*now|chrono::.*::now|time::.*now_utc|SystemTime|Instant::now', 'the clock'),
    (r'\bstd::env::', 'the environment'), (r'\bstd::thread::|thread::current|ThreadId', 'thread identity'), (r'\bstd::process::(?!exit)', 'process state'),
    (r'\bstd::fs::|\bstd::net::|\bstd::io::(?:stdin|Stdin)|std::os::', 'files or the network'),
    (r'RandomState|hash::random|\brand::|getrandom|fastrand', 'random numbers'),
    (r'(?:const|mut) T\]?>?::(?:addr|expose_provenance|to_bits)|core::ptr::.*addr|fmt::Pointer|new_pointer|<\*(?:const|mut) T as core::(?:hash|cmp)', 'addresses'),
    (r'core::panic::location|Backtrace', 'code locations'),
    (r'any::TypeId as core::(?:hash::Hash|cmp::(?:Ord|PartialOrd)|fmt)', 'the order or hash of type ids'),
    (r'core::hash::BuildHasher|hash::random::DefaultHasher|SipHasher', 'hash values'),
    (r'uuid::.*::(?:new_v4|now_v7)', 'random numbers'),
]
HASH = re.compile(r'^(?:&(?:\'\w+ )?(?:mut )?)*(?:std::collections|std::collections::hash::\w+|hashbrown(?:::\w+)?)::Hash(?:Map|Set)<')
HASHED = re.compile(r'\bHash(?:Map|Set)<')
SEEDED = lambda s: 'RandomState' in s or 'BuildHasherDefault' not in s
LOOKUP = {'new', 'with_capacity', 'default', 'insert', 'get', 'get_mut', 'get_key_value', 'contains', 'contains_key', 'remove', 'remove_entry', 'take', 'replace', 'len', 'is_empty', 'clear', 'entry', 'reserve',
          'shrink_to_fit', 'clone', 'clone_from', 'eq', 'ne', 'from_iter', 'from', 'extend', 'with_hasher', 'hasher', 'capacity', 'index', 'borrow', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'swap', 'drop', 'into',
          'is_subset', 'is_superset', 'is_disjoint', 'get_or_insert_with', 'unwrap_or_default', 'or_default', 'or_insert', 'or_insert_with', 'and_modify', 'retain', 'forget', 'to_owned'}
ADAPT = {'map', 'filter', 'filter_map', 'cloned', 'copied', 'into_iter', 'iter', 'iter_mut', 'keys', 'values', 'into_keys', 'into_values', 'values_mut', 'drain', 'by_ref', 'flat_map', 'flatten', 'chain', 'inspect', 'peekable', 'fuse',
         'intersection', 'union', 'difference', 'symmetric_difference', 'zip', 'rev', 'enumerate', 'take', 'skip', 'borrow', 'deref', 'deref_mut', 'as_ref', 'as_mut_slice', 'as_slice', 'into'}
FREE = {'any', 'all', 'count', 'len', 'max', 'min', 'sum', 'product', 'is_empty', 'eq', 'size_hint', 'drop', 'contains', 'ne', 'is_subset'}
SORT = re.compile(r'::sort(?:_unstable)?(?:_by(?:_cached)?(?:_key)?)?$|::binary_search')
ORDERLESS = re.compile(r'(?:BTree|Hash)(?:Map|Set)<')

def meth(n): return re.sub(r'<.*>$', '', n).rsplit('::', 1)[-1]

def hash_order(P, r, body, report):
    """iteration over hash collections whose order can reach the result of the function"""
    T = P.types
    ts = lambda l: T[body['locals'][l]].get('s', '')
    def op_local(o):
        return o[1][0] if o and o[0] in ('m', 'c') else None
    taint = {}
    sorted_ = set()
    calls = []
    flows = []          # (dest, sources)
    for b in body['blocks']:
        for s in b[0]:
            if s[0] == '=':
                d = s[1][0]
                src = set()
                def walk(x):
                    if isinstance(x, list):
                        if len(x) == 2 and x[0] in ('m', 'c') and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int): src.add(x[1][0])
                        elif len(x) >= 3 and x[0] == 'ref' and isinstance(x[2], list): src.add(x[2][0])
                        else:
                            for y in x: walk(y)
                walk(s[2])
                if s[2][0] in ('disc',): continue
                flows.append((d, src))
        t = b[1]
        if t[0] == 'call':
            f = t[1]
            ix = f.get('i') if isinstance(f, dict) else None
            nm = P.insts[ix] if ix is not None else None
            args = [op_local(a) for a in t[2]]
            calls.append((nm, args, t[3][0] if t[3] else None, b[2] if len(b) > 2 else None))
    n = 0
    changed = True
    while changed:
        changed = False
        for nm, args, d, sp in calls:
            name = meth(nm['name']) if nm else '?'
            hs = [a for a in args if a is not None and HASH.match(ts(a)) and SEEDED(ts(a))]
            if hs and name not in LOOKUP and d is not None and d not in taint:
                taint[d] = (name, sp); changed = True
            ta = [a for a in args if a is not None and a in taint]
            if ta and (name in ADAPT or name in ('next', 'next_back', 'last', 'nth', 'find', 'find_map', 'position', 'min_by_key', 'max_by_key', 'min_by', 'max_by', 'reduce')) and d is not None and d not in taint:
                taint[d] = taint[ta[0]]; changed = True
            if ta and name in ('collect', 'from_iter') and d is not None and d not in taint and not ORDERLESS.search(ts(d)):
                taint[d] = taint[ta[0]]; changed = True
        for d, src in flows:
            if d not in taint:
                for x in src:
                    if x in taint:
                        taint[d] = taint[x]; changed = True
                        break
    # a collection that is sorted afterwards
    back = {}
    for d, src in flows:
        for x in src: back.setdefault(d, set()).add(x)
    for nm, args, d, sp in calls:
        if d is not None and nm and meth(nm['name']) in ADAPT:
            back.setdefault(d, set()).update(a for a in args if a is not None)
    for nm, args, d, sp in calls:
        if nm and SORT.search(re.sub(r'<.*>$', '', nm['name'])):
            todo = [a for a in args if a is not None]
            while todo:
                a = todo.pop()
                if a in sorted_: continue
                sorted_.add(a); todo += list(back.get(a, ()))
    for nm, args, d, sp in calls:
        n += 1
        name = meth(nm['name']) if nm else '?'
        ta = [a for a in args if a is not None and a in taint and a not in sorted_]
        if not ta or name in ADAPT or name in FREE: continue
        if name in ('collect', 'from_iter') and d is not None and (ORDERLESS.search(ts(d)) or d in sorted_): continue
        if name in ('collect', 'from_iter'): continue           # judged where the collection is used
        if any(a is not None and a not in taint and ORDERLESS.search(ts(a)) for a in args) and name in LOOKUP: continue
        if name == 'next': continue                             # judged where the element is used
        if nm and re.match(r'(?:<?(?:&\w+ )?(?:core|alloc|std)::(?:option|result|cmp|clone|borrow|string|ops)|<str as|str::)', nm['name']) and d is not None:
            taint.setdefault(d, taint[ta[0]])
            continue
        report(taint[ta[0]], nm['name'] if nm else '?', sp)
        return n
    if 0 in taint and 0 not in sorted_:
        report(taint[0], 'the result', None)
    return n

@check('C07')
def c07(c):
    for name in CRATES + ('derive',):
        P = poly(name)
        recs = [(r['name'], r, r['span']) for r in P.roots] if name != 'derive' else [(i['name'], i, i['span']) for i in generated(P)]
        for fname, r, sp in recs:
            body = r['body']
            c.functions.add(fname) if name != 'derive' else None
            bad = False
            for b in body['blocks']:
                t = b[1]
                if t[0] == 'call':
                    f = t[1]
                    ix = f.get('i') if isinstance(f, dict) else (f[1] if isinstance(f, list) and len(f) > 1 and isinstance(f[1], int) else None)
                    if ix is None: continue
                    nm = P.insts[ix]['name']
                    for pat, what in SOURCES:
                        if re.search(pat, nm):
                            c.bad('sources', '%s/%s' % (fname, what.replace(' ', '-')), '%s calls %s, whose result depends on %s' % (fname, nm, what), span_s(b[2] if len(b) > 2 else sp)); bad = True
                for s in b[0]:
                    if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                        c.bad('sources', '%s/address' % fname, '%s turns an address into a number' % fname, span_s(s[3] if len(s) > 3 else sp)); bad = True
            def report(src, use, where):
                nonlocal bad
                bad = True
                c.bad('hash-order', fname, 'the iteration order of a hash collection (%s at %s) reaches %s' % (src[0], span_s(src[1]), use), span_s(where or src[1] or sp))
            hash_order(P, r, body, report)
            if not bad:
                c.ok('generated' if name == 'derive' else name, fname)
    globals_rule(c, 'globals')
    c.floor('schemars', 400); c.floor('schemars_derive', 80); c.floor('generated', 1000)
