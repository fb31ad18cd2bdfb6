"""C20..C28, C46: dialect presets and the built-in implementations."""
import urllib.parse
import itertools, re
from . import check
from ..gen import *
from .transforms import FORMATS, SUBS, IMMEDIATE, LIST, kids, others, leaf, path_facts
from .schema import call, ref, val, st_, it, allow_null

I_ = 'probe::impls::'
METH = ('js', 'np', 'name', 'id', 'inl', 'opt')

def span_of(F, root, meth='json_schema'):
    """where the implementation called by a probe root is defined"""
    i = F.I[F.roots[root]]
    for b in i['body']['blocks']:
        t = b[1]
        if t[0] == 'call':
            f = t[1]
            if isinstance(f, (list, tuple)) and len(f) > 1 and isinstance(f[1], int):
                k = F.I[f[1]]
                return '%s:%s (%s)' % (k['span'][0].replace('/repo/', ''), k['span'][1], k['name'])
    return root

class Im:
    def __init__(self, c, subs=None, **kw):
        self.c = c; self.F = c.F(); self.E = new_engine(self.F, **kw)
        self.memo = {}
    def where(self, t, m):
        try:
            return span_of(self.F, I_ + t + '::' + m)
        except Exception:
            return t
    def res(self, t, m):
        """[(result, contract or None, path)] of the precise paths, None if undecided"""
        k = (t, m)
        if k not in self.memo:
            ps = run(self.E, I_ + t + '::' + m)
            self.memo[k] = [(p.ret if p.end == ('ret',) else p.end, contract(self.E, p.st), p) for p in ps]
        return self.memo[k]
    def expect(self, rule, t, m, want, key=None, what=None):
        """want: value, or {'ser': v, 'de': v}"""
        rs = self.res(t, m)
        ok = 0
        for r, ct, p in rs:
            if not p.precise or tops(r):
                continue
            w = want
            if isinstance(want, Both):
                ws = [want.ser, want.de] if ct is None else [getattr(want, ct)]
            else:
                ws = [want]
            for w in ws:
                if not self.same(r, w):
                    self.c.bad(rule, '%s.%s' % (t, m), '%s of %s%s is %r, expected %r' % (WHAT[m], tyname(self.F, t), ' under the %s contract' % {'ser': 'serialize', 'de': 'deserialize', None: 'other'}[ct] if isinstance(want, Both) else '', r, w), self.where(t, m))
                    return
                ok += 1
        if ok:
            self.c.ok(rule, '%s of %s' % (WHAT[m], tyname(self.F, t)))
        else:
            self.c.und(rule, '%s of %s' % (m, t), sorted(set(w for _, _, p in rs for w in p.why)) or 'no path')
    def same(self, r, w):
        return plain(r) == plain(w)

class Both:
    def __init__(self, ser, de): self.ser = ser; self.de = de

WHAT = dict(js='schema', np='non-optional schema', name='name', id='id', inl='inlining', opt='optionality')

def tyname(F, t):
    b = F.I[F.roots[I_ + t + '::ty']]['body'] if I_ + t + '::ty' in F.roots else None
    if b:
        s = F.T[b['locals'][0]]['s']
        return re.sub(r'^.*?PhantomData<(.*)>$', r'\1', s)
    return t

def plain(v):
    """comparable form: opaque leaves by identity, numbers as numbers, `required`/type lists as sets"""
    if isinstance(v, Op):
        return '<%s>' % v.id
    if isinstance(v, Lv):
        return '<%s>' % v.id
    if isinstance(v, Num):
        try:
            return float(v.v)
        except (TypeError, ValueError):
            return str(v.v)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str, float)):
        return v
    if isinstance(v, dict):
        d = {}
        for k, x in v.items():
            x = plain(x)
            if k in ('required',) and isinstance(x, list):
                x = sorted(x, key=repr)
            if k == 'type' and isinstance(x, list):
                x = sorted(x, key=repr)
            d[str(k)] = x
        return d
    if isinstance(v, (list,)):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return repr(v)

def sub(x): return Op('sub:' + x)

# ------------------------------------------------------------------ C21
def int_schema(bits, signed, name):
    s = {'type': 'integer', 'format': ('' if signed else 'u') + 'int' + (str(bits) if bits else '')}
    if bits in (8, 16):
        s['minimum'] = -(1 << (bits - 1)) if signed else 0
        s['maximum'] = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    elif not signed:
        s['minimum'] = 0
    return s

def numbers():
    for b in (8, 16, 32, 64, 128, 0):
        for sg in (True, False):
            n = ('i' if sg else 'u') + (str(b) if b else 'size')
            s = int_schema(b, sg, n)
            yield 't_' + n, s
            if b != 128:
                yield 't_at_' + n, s
            z = dict(s)
            if sg:
                z['not'] = {'const': 0}
            else:
                z['minimum'] = 1
            yield 't_nz_' + n, z

@check('C21')
def c21(c):
    m = Im(c)
    for t, s in numbers():
        m.expect('integer', t, 'js', s)
        m.expect('inline', t, 'inl', 1)
    m.expect('float', 't_f32', 'js', {'type': 'number', 'format': 'float'})
    m.expect('float', 't_f64', 'js', {'type': 'number', 'format': 'double'})
    m.expect('float', 't_number', 'js', {'type': 'number'})
    m.expect('float', 't_bool', 'js', {'type': 'boolean'})
    m.expect('float', 't_at_bool', 'js', {'type': 'boolean'})
    c.engine_done(m.E)
    c.floor('integer', 34); c.floor('float', 5)

# ------------------------------------------------------------------ C22
FORWARD = ['box', 'rc', 'arc', 'ref', 'refmut', 'weak', 'aweak', 'mutex', 'rwlock', 'cell', 'refcell', 'cow', 'wrapping', 'reverse']
SAME = [('t_boxstr', 't_str'), ('t_boxslice', 't_slice'), ('t_slice', 't_vec'), ('t_string', 't_str'), ('t_cowslice', 't_vec'), ('t_cowstr', 't_str'), ('t_rcstr', 't_str'),
        ('t_refstr', 't_str'), ('t_mutexvec', 't_vec'), ('t_arcslice', 't_vec'), ('t_args', 't_str'), ('t_pathbuf', 't_path'), ('t_osstr', 't_osstring'), ('t_cstr', 't_cstring'),
        ('t_boxopt', 't_option'), ('t_phantom', 't_unit'), ('t_rangei', 't_range'), ('t_bytesmut', 't_bytes'), ('t_at_bool', 't_bool'), ('t_arraystring', 't_str'), ('t_smol2', 't_str'), ('t_smol3', 't_str'), ('t_rawvalue', 't_value')]

@check('C22')
def c22(c):
    m = Im(c)
    forms = dict(js=Op('js:A'), np=Op('np:A'), name='<name:A>', id='<id:A>')
    for w in FORWARD:
        t = 't_' + w
        for k, v in forms.items():
            m.expect('wrapper', t, k, v)
        for k, d in (('inl', 'inl'), ('opt', 'isopt')):
            ok = 0; bad = None
            for r, ct, p in m.res(t, k):
                if not p.precise:
                    continue
                a = p.dec((d, 'A'))
                if a is None or r != int(a):
                    bad = bad or (r, a)
                ok += 1
            if bad:
                c.bad('wrapper', '%s.%s' % (t, k), '%s of %s is %r when that of the wrapped type is %r' % (WHAT[k], tyname(m.F, t), bad[0], 'not consulted' if bad[1] is None else bad[1]), m.where(t, k))
            elif ok:
                c.ok('wrapper', '%s of %s follows the wrapped type' % (WHAT[k], tyname(m.F, t)))
            else:
                c.und('wrapper', t + '.' + k, 'no precise path')
    # concretely wrapped types: all six methods give the same as the wrapped type
    subs = {'A': {'v': 'A'}}
    m2 = Im(c)
    hook_docs(m2.E, subs)
    for a, b in SAME:
        for k in METH:
            ra = [(plain(r), ct) for r, ct, p in m2.res(a, k) if p.precise]
            rb = [(plain(r), ct) for r, ct, p in m2.res(b, k) if p.precise]
            if len(ra) != len(m2.res(a, k)) or len(rb) != len(m2.res(b, k)) or not ra or not rb:
                c.und('same', '%s.%s' % (a, k), 'imprecise')
                continue
            key = lambda l: sorted(map(repr, l))
            if dedup(ra) != dedup(rb):
                c.bad('same', '%s.%s' % (a, k), '%s of %s is %r but that of %s is %r' % (WHAT[k], tyname(c.F(), a), ra[0][0], tyname(c.F(), b), rb[0][0]), m2.where(a, k))
            else:
                c.ok('same', '%s of %s is that of %s' % (WHAT[k], tyname(c.F(), a), tyname(c.F(), b)))
    c.engine_done(m.E); c.engine_done(m2.E)
    c.floor('wrapper', 70); c.floor('same', 100)

def dedup(l):
    """results independent of how the contract was consulted"""
    vals = {repr(r) for r, _ in l}
    if len(vals) == 1:
        return sorted(vals)
    return sorted({repr(x) for x in l})

def hook_docs(E, docs):
    """subschema_for of the listed types gives a concrete document"""
    old = E.hooks[SUB]
    def fn(E, st, inst, args):
        t = short(E.T[inst['targs'][0]]['s'])
        if t in docs:
            st.event('sub', t, E.span(st))
            return build(E, st, docs[t])
        return old(E, st, inst, args)
    E.hooks[SUB] = fn

# ------------------------------------------------------------------ C23
def tup(s): return {'type': 'array', 'prefixItems': [sub(x) for x in s], 'minItems': len(s), 'maxItems': len(s)}

@check('C23')
def c23(c):
    m = Im(c)
    arr = {'type': 'array', 'items': sub('A')}
    for t in ('vec', 'vecdeque', 'slice', 'linkedlist', 'binheap', 'boxslice', 'smallvec', 'cowslice', 'arcslice', 'mutexvec'):
        m.expect('sequence', 't_' + t, 'js', arr)
    m.expect('sequence', 't_vec_b', 'js', {'type': 'array', 'items': sub('B')})
    m.expect('sequence', 't_smallvec9', 'js', {'type': 'array', 'items': sub('B')})
    for t in ('btreeset', 'hashset', 'indexset'):
        m.expect('set', 't_' + t, 'js', dict(arr, uniqueItems=True))
    m.expect('set', 't_set_b', 'js', {'type': 'array', 'items': sub('B'), 'uniqueItems': True})
    m.expect('array', 't_arr0', 'js', {'type': 'array', 'maxItems': 0})
    for n in range(1, 33):
        m.expect('array', 't_arr%d' % n, 'js', dict(arr, minItems=n, maxItems=n))
    m.expect('array', 't_arr_b3', 'js', {'type': 'array', 'items': sub('B'), 'minItems': 3, 'maxItems': 3})
    m.expect('bounded', 't_arrayvec', 'js', dict(arr, maxItems=5))
    m.expect('bounded', 't_arrayvec7', 'js', {'type': 'array', 'items': sub('B'), 'maxItems': 7})
    L = 'ABCDABCDABCDABCD'
    for n in range(1, 17):
        m.expect('tuple', 't_tup%d' % n, 'js', tup(L[:n]))
    m.expect('tuple', 't_tup_ba', 'js', tup('BA')); m.expect('tuple', 't_tup_aa', 'js', tup('AA'))
    obj = lambda k, x: {'type': 'object', 'properties': {k: sub(x)}, 'required': [k]}
    shut = lambda s: dict(s, additionalProperties=False)
    m.expect('sum', 't_result', 'js', {'oneOf': [obj('Ok', 'A'), obj('Err', 'B')]})
    m.expect('sum', 't_result_ba', 'js', {'oneOf': [obj('Ok', 'B'), obj('Err', 'A')]})
    m.expect('sum', 't_bound', 'js', {'oneOf': [obj('Included', 'A'), obj('Excluded', 'A'), {'type': 'string', 'const': 'Unbounded'}]})
    m.expect('sum', 't_bound_b', 'js', {'oneOf': [obj('Included', 'B'), obj('Excluded', 'B'), {'type': 'string', 'const': 'Unbounded'}]})
    m.expect('sum', 't_either', 'js', {'oneOf': [shut(obj('Left', 'A')), shut(obj('Right', 'B'))]})
    m.expect('sum', 't_either_ba', 'js', {'oneOf': [shut(obj('Left', 'B')), shut(obj('Right', 'A'))]})
    for t, x in (('t_range', 'A'), ('t_rangei', 'A'), ('t_range_b', 'B')):
        m.expect('sum', t, 'js', {'type': 'object', 'properties': {'start': sub(x), 'end': sub(x)}, 'required': ['start', 'end']})
    c.engine_done(m.E)
    c.floor('sequence', 12); c.floor('set', 4); c.floor('array', 34); c.floor('bounded', 2); c.floor('tuple', 18); c.floor('sum', 9)

# ------------------------------------------------------------------ C24
def c24_docs():
    a, b, e = leaf('a', 'any'), leaf('b', 'any'), leaf('e', 'nonnull')
    X, Y = leaf('X'), leaf('Y')
    ts = ['null', 'string', 'integer', ['string'], ['string', 'integer'], ['null'], ['string', 'null'], ['null', 'string'], [], Ky('t', ['null'])]
    yield from (True, False, {}, {'title': a, 'description': b}, {'minimum': 1, 'x-y': a})
    for t in ts:
        yield {'type': t}
        yield {'type': t, 'title': a, 'format': b, 'minimum': 3}
        yield {'type': t, 'enum': [e, 'x']}
        yield {'type': t, 'enum': ['x', None]}
        yield {'type': t, 'const': e}
        yield {'type': t, 'const': None}
        yield {'type': t, 'properties': {'p': X}, 'required': ['p'], 'additionalProperties': False}
        yield {'type': t, 'items': X, 'not': {'const': 0}}
        yield {'type': t, 'default': None, 'examples': [None]}
        yield {'type': t, 'properties': {'type': X, 'enum': Y, 'anyOf': X}}
    yield from ({'enum': ['a', 1]}, {'enum': []}, {'enum': [None]}, {'const': e}, {'const': None}, {'const': 'c', 'title': a}, {'enum': ['null']}, {'enum': [e, leaf('e2', 'nonnull')], 'title': a},
                {'$ref': '#/$defs/A'}, {'$ref': '#/$defs/A', 'title': a}, {'$ref': '#'}, {'$ref': 'x', 'description': a, 'default': b})
    for k in IMMEDIATE:
        w = (lambda *x: list(x)) if k in LIST else (lambda *x: x[0])
        if k != 'anyOf':      # whether X allows null would decide the result
            yield {k: w(X, Y)}
        yield {k: w({'type': 'string'}, {'type': 'integer'})}
        yield {k: w({'type': 'null'}, {'type': 'integer'})}
        yield {k: w({'$ref': 'x'}, {'type': 'null'})}
        yield {k: w({'type': 'object', 'properties': {'P': X}}, {'type': 'string', 'const': 'u'}), 'title': a}
        yield {k: w({'$ref': 'x'}, {'type': 'null'}), 'title': a}
        yield {k: w({'type': ['string', 'null']})}
        yield {k: w({'const': None})}
        yield {'type': 'object', k: w(X), 'properties': {'t': Y}}
        yield {'type': 'string', 'enum': ['q'], k: w({'type': 'null'})}

@check('C24')
def c24(c):
    F = c.F()
    box = [None]
    E = new_engine(F, max_states=8000)
    def fn(E, st, inst, args):
        st.event('sub', short(E.T[inst['targs'][0]]['s']), E.span(st))
        return build(E, st, box[0])
    E.hooks[SUB] = fn
    where = span_of(F, I_ + 't_option::js')
    from .transforms import Docs
    D = Docs('C24', {'type': ['null', 'string', ['string'], ['null'], ['string', 'null'], []], 'enum': [['a'], ['a', None], [None], [], [{}]], 'const': [None, 1, '', {}, []],
                     'anyOf': [[{'type': 'null'}], [{'type': 'string'}], [{'type': ['null', 'string']}, True], []], '$ref': ['#', '']})
    more = list(D.all(c, [{}, {'type': 'string'}, {'type': 'null'}, {'enum': ['a']}, {'const': 1}, {'$ref': 'x'}, {'anyOf': [{'type': 'string'}, {'type': 'integer'}]},
                          {'anyOf': [{'type': 'string'}, {'type': 'null'}]}, {'oneOf': [{'type': 'string'}]}, {'type': ['integer', 'null'], 'enum': [1, None]}], 300))
    for root, tn in (('t_option', 'A'), ('t_optbox', 'Box<A>'), ('t_opt_b', 'B')):
        for d in itertools.chain(c24_docs(), more if root == 't_option' else ()):
            box[0] = d
            ps = run(E, I_ + root + '::js')
            ok = 0; bad = None
            for p in ps:
                if not p.precise or tops(p.ret):
                    continue
                if p.end != ('ret',):
                    bad = bad or (p, 'a schema', p.end); continue
                subs = [e[1] for e in p.log if e[0] == 'sub']
                if subs != [tn]:
                    bad = bad or (p, 'the schema of ' + tn, 'schemas of %s' % subs); continue
                w = allow_null(known_types(p, d))
                wv = expect(E, p.st, w)
                if plain(p.ret) != plain(wv):
                    bad = bad or (p, wv, p.ret)
                ok += 1
            if bad:
                c.bad('option', '%s:%r' % (root, d), 'Option of a type with schema %r has schema %r, expected %r' % (d, bad[2], bad[1]), where, path_facts(bad[0]))
            elif ok:
                c.ok('option', 'Option of %r' % (d,))
            else:
                c.und('option', repr(d), sorted(set(w for p in ps for w in p.why))[:3])
    m = Im(c)
    m.expect('methods', 't_option', 'np', Op('np:A')); m.expect('methods', 't_option', 'opt', 1); m.expect('methods', 't_option', 'inl', 1)
    m.expect('methods', 't_option', 'id', 'Option<<id:A>>'); m.expect('methods', 't_option', 'name', 'Nullable_<name:A>')
    m.expect('methods', 't_option2', 'np', Op('np:A')); m.expect('methods', 't_option2', 'opt', 1); m.expect('methods', 't_optbox', 'np', Op('np:A'))
    for t in ('t_vec', 't_u8', 't_string', 't_map_string', 't_tup2', 't_result', 't_unit', 't_value', 't_bound'):
        m.expect('methods', t, 'opt', 0)
    for w in ('weak', 'aweak'):
        for r, ct, p in m.res('t_' + w, 'js'):
            if p.precise and plain(r) == '<js:A>':
                c.bad('weak', 't_' + w, 'the schema of a weak pointer is that of its content, but serde writes a dangling one as null and reads it as an option', m.where('t_' + w, 'js'))
                break
    c.engine_done(E); c.engine_done(m.E)
    c.floor('option', 400); c.floor('methods', 14)

def known_types(p, d):
    """replace arbitrary-string leaves the path has identified"""
    if isinstance(d, Ky):
        e = p.st.facts.get(('eq', d.id))
        return e if isinstance(e, str) else d
    if isinstance(d, dict):
        return {k: known_types(p, x) for k, x in d.items()}
    if isinstance(d, list):
        return [known_types(p, x) for x in d]
    return d

# ------------------------------------------------------------------ C25
def map_oracle(key, defs, path, V):
    """allowed results"""
    def deref(o):
        r = o.get('$ref')
        pre = '#' + path.lstrip('#') if path.startswith('#') or path else '#'
        pre = '#/' + path.strip('#').strip('/') + '/' if path.strip('#').strip('/') else '#/'
        if isinstance(r, str) and r.startswith(pre):
            # a reference is a URI fragment: percent-encoded JSON pointer
            try:
                name = urllib.parse.unquote_to_bytes(r[len(pre):]).decode().replace('~1', '/').replace('~0', '~')
            except UnicodeDecodeError:
                return o
            if isinstance(defs.get(name), dict):
                return defs[name]
        return o
    free = [{'type': 'object', 'additionalProperties': V}]
    if not isinstance(key, dict):
        return free
    if isinstance(key.get('anyOf'), list) and all(isinstance(x, dict) for x in key['anyOf']):
        opts = key['anyOf']
    else:
        opts = [key]
    opts = [deref(o) for o in opts]
    extra = False; pats = set(); props = []; alt = False
    ints = set()
    for o in opts:
        ty = o.get('type')
        en = o.get('enum')
        if ty == 'string' and isinstance(o.get('pattern'), str):
            pats.add(o['pattern'])
        elif ty == 'string' and isinstance(en, list) and all(isinstance(x, str) for x in en):
            props += en
        elif ty == 'integer':
            mn = o.get('minimum')
            ints.add('u' if mn == 0 else 'p' if isinstance(mn, int) and mn > 0 else 's')
        else:
            extra = True
    res = []
    base = {'type': 'object', 'additionalProperties': V if extra else False}
    ip = [[]]
    if 's' in ints: ip = [[r'^-?\d+$']]
    elif 'p' in ints: ip = [[r'^-?\d+$'], [r'^\d+$']]
    elif 'u' in ints: ip = [[r'^\d+$']]
    for i in ip:
        d = dict(base)
        pp = {x: V for x in sorted(pats) + i}
        if pp: d['patternProperties'] = pp
        if props: d['properties'] = {x: V for x in props}
        res.append(d)
    return res

@check('C25')
def c25(c):
    F = c.F()
    # every built-in map and key type
    V = {'v': 'B'}
    m = Im(c)
    hook_docs(m.E, {'B': V})
    free = {'type': 'object', 'additionalProperties': V}
    ints = lambda p: {'type': 'object', 'additionalProperties': False, 'patternProperties': {p: V}}
    U, S_ = r'^\d+$', r'^-?\d+$'
    for t in ('map_string', 'map_char', 'map_cow', 'map_refstr', 'map_bool', 'map_ip', 'map_uuid', 'map_weekday'):
        m.expect('builtin', 't_' + t, 'js', free)
    for t in ('map_u8', 'map_boxu8', 'map_u128'):
        m.expect('builtin', 't_' + t, 'js', ints(U))
    for t in ('map_i32', 'map_isize'):
        m.expect('builtin', 't_' + t, 'js', ints(S_))
    for t in ('hashmap', 'indexmap', 'map_string', 'map_u8', 'map_u128', 'map_ba', 'btreemap', 'jsonmap'):
        m.expect('builtin', 't_' + t, 'inl', 1)
    # shapes of key schemas
    E = new_engine(F, max_states=6000)
    box = [None]
    hook_docs(E, {'B': V})
    order = []
    def js(E, st, inst, args):
        st.event('keyjs', 'A')
        return build(E, st, box[0])
    E.hooks['<probe::markers::A as schemars::JsonSchema>::json_schema'] = js
    strs = [{'type': 'string'}, {'type': 'string', 'pattern': '^a$'}, {'type': 'string', 'enum': ['x', 'y']}, {'type': 'string', 'enum': ['x'], 'pattern': 'p'}, {'type': 'string', 'format': 'uuid'},
            {'type': 'string', 'minLength': 1, 'maxLength': 1}, {'type': 'string', 'const': 'c'}, {'type': 'string', 'enum': ['x', None]}, {'type': 'string', 'enum': []},
            {'type': 'integer'}, {'type': 'integer', 'minimum': 0}, {'type': 'integer', 'minimum': 0, 'maximum': 255}, {'type': 'integer', 'minimum': -1}, {'type': 'integer', 'minimum': 1},
            {'type': 'integer', 'enum': [1]}, {'type': 'integer', 'pattern': 'p', 'minimum': 0}, {'type': 'number'}, {'type': ['string', 'null']}, {'type': ['integer', 'null'], 'minimum': 0}, {'type': 'boolean'}, {'type': 'null'},
            {'enum': ['x']}, {'pattern': 'p'}, {'minimum': 0}, {'const': 'c'}, {}, {'oneOf': [{'type': 'string'}]}, {'allOf': [{'type': 'integer'}]}, {'title': leaf('tt', 'any')}, {'not': {}},
            {'type': leaf('ty', 'nonstr')}, {'type': 'string', 'pattern': leaf('pt', 'nonstr')}, {'type': 'string', 'enum': leaf('en', 'nonarr')}, {'type': 'integer', 'minimum': 'x'}]
    refs_ = [{'$ref': '#/$defs/Foo'}, {'$ref': '#/$defs/Bar'}, {'$ref': '#/definitions/Foo'}, {'$ref': '#'}, {'$ref': '#/$defs/Foo', 'title': 't'}, {'$ref': 'Foo'}, {'$ref': '#/a/b/Foo'}, {'$ref': '#/$defs/'}]
    cases = []
    for k in strs + refs_ + [True, False]:
        cases.append((k, 'Foo', {'type': 'integer', 'minimum': 0}, '/$defs'))
    some = strs[:4] + [strs[9], strs[10], strs[16], {}]
    for a in some + refs_[:2] + [True]:
        for b in some + refs_[:2]:
            cases.append(({'anyOf': [a, b]}, 'Foo', {'type': 'string', 'pattern': 'q'}, '/$defs'))
    for d in strs[:17] + [True, False, None, 5]:
        for p_ in ('/$defs', '/definitions', '#/a/b', '/a/b/', '/$defs/', '#/$defs', '#/definitions/'):
            for r in ('#/$defs/Foo', '#/definitions/Foo', '#/a/b/Foo'):
                cases.append(({'$ref': r}, 'Foo', d, p_))
                if c.thorough:
                    cases.append(({'anyOf': [{'$ref': r}, {'type': 'integer'}]}, 'Foo', d, p_))
    cases += [({'anyOf': [a, b, d]}, 'Foo', {'type': 'string', 'enum': ['f']}, '/$defs') for a in some[:5] for b in some[:5] for d in ({'$ref': '#/$defs/Foo'}, {'type': 'integer', 'minimum': 0})]
    cases += [({'anyOf': []}, 'Foo', {}, '/$defs'), ({'anyOf': 5, 'type': 'integer'}, 'Foo', {}, '/$defs'), ({'anyOf': [{'type': 'integer'}], 'type': 'string'}, 'Foo', {}, '/$defs'),
              ({'anyOf': [{'type': 'integer'}, False]}, 'Foo', {}, '/$defs')]
    # definition names that are encoded in references
    for name, enc in (('a b', 'a%20b'), ('a/b', 'a~1b'), ('a~b', 'a~0b'), ('~1', '~01'), ('\u00e9', '%C3%A9'), ('A<B>', 'A%3CB%3E'), ('100%', '100%25'), ('a%20b', 'a%2520b')):
        for d in ({'type': 'integer', 'minimum': 0}, {'type': 'string', 'enum': ['x', 'y']}):
            for p_ in ('/$defs', '#/definitions/'):
                r = {'$ref': '#/' + p_.strip('#/') + '/' + enc}
                cases.append((r, name, d, p_))
                cases.append(({'anyOf': [{'type': 'string', 'pattern': 'q'}, r]}, name, d, p_))
                cases.append((r, enc, d, p_))
                cases.append(({'anyOf': [r, {'type': 'integer'}]}, enc, d, p_))
    where = None
    for i in F.I:
        if 'maps.rs' in i['span'][0] and i.get('meth') == 'json_schema':
            where = '%s:%s (%s)' % (i['span'][0].replace('/repo/', ''), i['span'][1], i['name'])
            break
    for key_, dn, dv, path in cases:
        box[0] = key_
        ps = call(E, 'probe::api::map_case', st_(path), st_(dn), val(dv))
        want = map_oracle(key_, {dn: dv}, path, V)
        ok = 0; bad = None
        for p in ps:
            if not p.precise or tops(p.ret):
                continue
            if p.end != ('ret',):
                bad = bad or (p, p.end); continue
            if plain(p.ret) not in [plain(expect(E, p.st, w)) for w in want]:
                bad = bad or (p, p.ret)
            ok += 1
        k = '%r|%s=%r|%s' % (key_, dn, dv, path)
        if bad:
            c.bad('key', k, 'a map whose key schema is %r (definition %s = %r, definitions path %s) has schema %r, expected %r' % (key_, dn, dv, path, bad[1], want[0]), where or '?', path_facts(bad[0]))
        elif ok:
            c.ok('key', k)
        else:
            c.und('key', k, sorted(set(w for p in ps for w in p.why))[:3])
    c.engine_done(m.E); c.engine_done(E)
    c.floor('builtin', 20); c.floor('key', 300)

# ------------------------------------------------------------------ C26
@check('C26')
def c26(c):
    m = Im(c)
    hook_docs(m.E, {**{t: {'v': t} for t in ('A', 'B', 'C', 'D')}, 'Box<A>': {'v': 'A'}})
    F = m.F
    box = {}
    def js(who):
        def fn(E, st, inst, args):
            st.event('js', who, E.span(st))
            return build(E, st, {'v': who, 'own': True})
        return fn
    for w in 'ABCD':
        m.E.hooks['<probe::markers::%s as schemars::JsonSchema>::json_schema' % w] = js(w)
    ts = sorted(set(re.match(r'probe::impls::(t_\w+)::', r).group(1) for r in F.roots if r.startswith('probe::impls::t_')))
    by = {}
    for t in ts:
        ids = m.res(t, 'id'); js_ = m.res(t, 'js'); nm = m.res(t, 'name')
        if not all(p.precise and isinstance(r, str) for r, _, p in ids + nm):
            c.und('id', t, 'imprecise id or name'); continue
        # markers whose schemas are part of the schema
        used = set()
        for r, ct, p in js_:
            for e in p.log:
                if e[0] in ('js', 'sub', 'np'):
                    used |= set(re.findall(r'\b([ABCD])\b', e[1]))
        probs = []
        for r, ct, p in ids:
            miss = [u for u in used if '<id:%s>' % u not in r and not (t.startswith(('t_btreemap', 't_hashmap', 't_indexmap', 't_map_ba')) and str_keyed(p))]
            if miss:
                probs.append('the id of %s is %r, which does not depend on %s' % (tyname(F, t), r, ', '.join(miss)))
            else:
                n = {u: r.count('<id:%s>' % u) for u in used}
        for r, ct, p in nm:
            miss = [u for u in used if '<name:%s>' % u not in r and not (t.startswith(('t_btreemap', 't_hashmap', 't_indexmap', 't_map_ba')) and str_keyed(p))]
            if miss:
                probs.append('the name of %s is %r, which does not mention %s' % (tyname(F, t), r, ', '.join(miss)))
        if probs:
            c.bad('parameters', t, probs[0], m.where(t, 'id'))
        else:
            c.ok('parameters', '%s: %s' % (t, ids[0][0]))
        if len({r for r, _, _ in nm}) > 2:
            c.bad('stable', t, 'the name of %s is not a function of its arguments' % t, m.where(t, 'name'))
        for r, ct, p in ids:
            sk = str_keyed(p)
            by.setdefault(r, []).append((t, sk))
        m.memo.pop(('x', t), None)
    jsof = {}
    def schema_of(t):
        if t not in jsof:
            rs = [(plain(r), ct) for r, ct, p in m.res(t, 'js') if p.precise]
            jsof[t] = dedup(rs) if rs else None
        return jsof[t]
    for i, l in sorted(by.items()):
        ref_t = l[0][0]
        for t, sk in l[1:]:
            a, b = schema_of(ref_t), schema_of(t)
            if a is None or b is None:
                c.und('shared', '%s %s' % (ref_t, t), 'imprecise'); continue
            if a != b:
                c.bad('shared', '%s/%s' % (ref_t, t), '%s and %s share the id %r but their schemas are %s and %s' % (tyname(F, ref_t), tyname(F, t), i, a, b), m.where(t, 'id'))
            else:
                c.ok('shared', '%s and %s share %r and their schema' % (ref_t, t, i))
    c.engine_done(m.E)
    c.floor('parameters', 150); c.floor('shared', 40)

def str_keyed(p):
    """the path found the key type's id to be that of strings"""
    for k, v in p.st.facts.items():
        if k[0] == 'eq' and k[1] in ('id:A', 'id:B') and v == 'string':
            return True
        if k[0] == 'dec' and v is True and 'id:' in repr(k) and 'string' in repr(k):
            return True
    return False

# ------------------------------------------------------------------ C27
NZB = {'type': 'integer', 'minimum': 1, 'maximum': 255}
def contract_table():
    A8 = {'type': 'array', 'items': sub('u8')}
    dec = Both({'type': 'string', 'pattern': r'^-?\d+(\.\d+)?$'}, {'type': ['string', 'number'], 'pattern': r'^-?\d+(\.\d+)?([eE]\d+)?$'})
    cs = Both({'type': 'array', 'items': NZB}, {'type': ['array', 'string'], 'items': NZB})
    by = Both(A8, dict(A8, type=['array', 'string']))
    return {'t_bigdec': dec, 't_rustdec': dec, 't_cstr': cs, 't_cstring': cs, 't_bytes': by, 't_bytesmut': by}

# The text that serde writes (rust_decimal: digits with an optional fraction; bigdecimal: Display, which uses
# an exponent for small and large scales)
WRITTEN = [('t_rustdec', 'plain', ('0', '-0', '1', '-1', '1.50', '0.0000000000000000000000000001', '79228162514264337593543950335', '-79228162514264337593543950335')),
           ('t_bigdec', 'plain', ('0', '1', '-1', '1.50', '-0.001', '123456789012345678901234567890', '0.00001')),
           ('t_bigdec', 'exponent', ('1E-7', '-1E-30', '1.5E-9', '1e+20', '-1.5e+40'))]

@check('C27')
def c27(c):
    m = Im(c)
    hook_docs(m.E, {t: {'v': t} for t in ('A', 'B', 'C', 'D', 'Value')})
    F = m.F
    tab = contract_table()
    for t, w in tab.items():
        m.expect('dependent', t, 'js', w)
        # what is written is accepted: same constraint keywords, types a superset
        got = {ct: plain(r) for r, ct, p in m.res(t, 'js') if p.precise and isinstance(r, dict)}
        if set(got) == {'ser', 'de'}:
            tl = lambda s: set(s['type']) if isinstance(s.get('type'), list) else {s.get('type')}
            if not tl(got['ser']) <= tl(got['de']):
                c.bad('superset', t, '%s writes types %s but accepts only %s' % (tyname(F, t), tl(got['ser']), tl(got['de'])), m.where(t, 'js'))
            else:
                c.ok('superset', t)
    # the forms that serde writes for these types satisfy the pattern of both contracts
    for t, kind, forms in WRITTEN:
        for ct in ('ser', 'de'):
            pats = {repr(plain(r).get('pattern')): plain(r).get('pattern') for r, k, p in m.res(t, 'js') if p.precise and isinstance(r, dict) and k in (ct, None)}
            for pat in pats.values():
                if not isinstance(pat, str):
                    c.ok('written', '%s %s %s: no pattern' % (t, kind, ct)); continue
                try:
                    rx = re.compile(pat.replace('\\d', '[0-9]'))
                except re.error:
                    c.und('written', t, 'pattern not understood'); continue
                miss = [f for f in forms if not rx.search(f)]
                if miss:
                    c.bad('written', '%s/%s/%s' % (t, kind, ct), '%s is written as %s, which the pattern %s does not allow' % (tyname(F, t), ', '.join(miss), pat), m.where(t, 'js'))
                else:
                    c.ok('written', '%s %s %s' % (t, kind, ct), len(forms))
    ts = sorted(set(re.match(r'probe::impls::(t_\w+)::', r).group(1) for r in F.roots if r.startswith('probe::impls::t_')))
    for t in ts:
        if t in tab:
            continue
        rs = [(plain(r), ct) for r, ct, p in m.res(t, 'js') if p.precise]
        if not rs:
            c.und('independent', t, 'imprecise'); continue
        s = [r for r, ct in rs if ct == 'ser']; d = [r for r, ct in rs if ct == 'de']
        if (s or d) and dset(s) != dset(d):
            c.bad('independent', t, 'the schema of %s is %r under the serialize contract but %r under the deserialize contract' % (tyname(F, t), s[:1], d[:1]), m.where(t, 'js'))
        else:
            c.ok('independent', '%s does not depend on the contract' % t)
    for k in ('id', 'name', 'inl'):
        for t in tab:
            rs = {repr(r) for r, _, p in m.res(t, k) if p.precise}
            if len(rs) > 1:
                c.bad('independent', t + '.' + k, 'the %s of %s is not constant' % (WHAT[k], t), m.where(t, k))
            else:
                c.ok('independent', t + '.' + k)
    c.engine_done(m.E)
    c.floor('dependent', 6); c.floor('independent', 140)

def dset(l):
    return sorted({repr(x) for x in l})

# ------------------------------------------------------------------ C28
def strings_table():
    f = lambda x: {'type': 'string', 'format': x}
    T_ = {}
    for t in ('str', 'string', 'path', 'pathbuf', 'args', 'arraystring', 'arraystring9', 'smol2', 'smol3', 'sock', 'sock4', 'sock6', 'boxstr', 'rcstr', 'cowstr', 'refstr'):
        T_[t] = {'type': 'string'}
    T_['char'] = {'type': 'string', 'minLength': 1, 'maxLength': 1}
    T_.update(ip=f('ip'), ipv4=f('ipv4'), ipv6=f('ipv6'), url=f('uri'), uuid=f('uuid'),
              date=f('date'), ndt=f('partial-date-time'), ntime=f('partial-time'), dt=f('date-time'), dtfix=f('date-time'),
              jts=f('date-time'), jz=f('zoned-date-time'), jd=f('date'), jt=f('partial-time'), jdt=f('partial-date-time'), jspan=f('duration'), jsd=f('duration'))
    T_['weekday'] = {'type': 'string', 'enum': ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']}
    T_['semver'] = {'type': 'string', 'pattern': r'^(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(?:-((?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*)(?:\.(?:0|[1-9]\d*|\d*[a-zA-Z-][0-9a-zA-Z-]*))*))?(?:\+([0-9a-zA-Z-]+(?:\.[0-9a-zA-Z-]+)*))?$'}
    return T_

@check('C28')
def c28(c):
    m = Im(c)
    hook_docs(m.E, {})
    for t, w in strings_table().items():
        m.expect('string', 't_' + t, 'js', w)
    nul = {'type': 'null'}
    m.expect('other', 't_unit', 'js', nul); m.expect('other', 't_phantom', 'js', nul)
    for t in ('value', 'rawvalue'):
        m.expect('other', 't_' + t, 'js', True)
    m.expect('other', 't_schema', 'js', {'type': ['object', 'boolean']})
    u64 = int_schema(64, False, ''); u32 = int_schema(32, False, '')
    m.expect('other', 't_duration', 'js', {'type': 'object', 'required': ['secs', 'nanos'], 'properties': {'secs': u64, 'nanos': u32}})
    m.expect('other', 't_systemtime', 'js', {'type': 'object', 'required': ['secs_since_epoch', 'nanos_since_epoch'], 'properties': {'secs_since_epoch': u64, 'nanos_since_epoch': u32}})
    m.expect('other', 't_chrono_dur', 'js', {'type': 'array', 'prefixItems': [int_schema(64, True, ''), {'type': 'integer', 'minimum': 0, 'exclusiveMaximum': 1000000000}], 'minItems': 2, 'maxItems': 2})
    os = lambda k, x: {'type': 'object', 'properties': {k: {'type': 'array', 'items': sub(x)}}, 'required': [k]}
    m.expect('other', 't_osstring', 'js', {'oneOf': [os('Unix', 'u8'), os('Windows', 'u16')]})
    c.engine_done(m.E)
    c.floor('string', 35); c.floor('other', 9)

# ------------------------------------------------------------------ C20
PRESETS = [('default', 0, 'https://json-schema.org/draft/2020-12/schema', '/$defs'), ('draft07', 1, 'http://json-schema.org/draft-07/schema#', '/definitions'),
           ('draft2019_09', 2, 'https://json-schema.org/draft/2019-09/schema', '/$defs'), ('draft2020_12', 3, 'https://json-schema.org/draft/2020-12/schema', '/$defs'),
           ('openapi3', 4, 'https://spec.openapis.org/oas/3.0/schema/2024-10-18#/definitions/Schema', '/components/schemas')]

def subs_of(x):
    """(place, subschema) of a document"""
    if not isinstance(x, dict):
        return
    for k, v in x.items():
        if k in ('properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions') and isinstance(v, dict):
            for p, y in v.items():
                yield k, y
        elif k in LIST + ['items'] and isinstance(v, list):
            for y in v:
                yield k, y
        elif k in SUBS and not isinstance(v, list):
            yield k, v

def dialect(preset, x, at='root'):
    """constructs of a document that the dialect does not have"""
    if isinstance(x, bool):
        if preset == 4 and at not in ('additionalProperties',):
            yield 'bool schema in %s' % at
        return
    if not isinstance(x, dict):
        return
    has = set(x)
    if preset in (1, 2, 4) and 'prefixItems' in has:
        yield 'prefixItems'
    if preset in (1, 4):
        if 'unevaluatedProperties' in has: yield 'unevaluatedProperties'
        if '$ref' in has and len(has) > 1: yield 'siblings of $ref: %s' % sorted(map(str, has - {'$ref'}))
    if preset == 4:
        for k in ('const', 'examples'):
            if k in has: yield k
        t = x.get('type')
        if t == 'null' or isinstance(t, list) and 'null' in t: yield 'null type'
    for k, y in subs_of(x):
        for z in dialect(preset, y, k):
            yield z

def preset_docs():
    a, b = leaf('va', 'scalar'), leaf('vb', 'scalar')
    atoms = [{'$ref': 'R', 'description': a}, {'type': 'array', 'prefixItems': [{'type': 'string'}, {'$ref': 'Q', 'title': b}], 'items': {'type': 'null'}},
             {'type': 'object', 'properties': {'p': {'$ref': 'P'}}, 'unevaluatedProperties': False, 'allOf': [{'properties': {'q': {'const': 1}}}]},
             {'type': ['string', 'null'], 'examples': [a, b]}, {'const': a}, {'type': 'null'}, {'not': {'const': b}, 'type': 'integer'},
             {'anyOf': [{'$ref': 'R'}, {'type': 'null'}]}, {'type': ['null', 'string'], 'const': None, 'default': a}, {'oneOf': [{'const': 'A', 'type': 'string'}, {'type': 'object', 'properties': {'N': {'type': ['integer', 'null']}}, 'required': ['N'], 'additionalProperties': False}]},
             {'items': {'prefixItems': [{'unevaluatedProperties': {'type': 'null'}}]}}, {'additionalProperties': {'$ref': 'R', 'examples': [1]}}, {'type': 'object', 'additionalProperties': {'unevaluatedProperties': {'$ref': 'x', 'const': 1}}}]
    for d in atoms:
        yield d
        for k in SUBS:
            if k in ('unevaluatedProperties',):
                continue
            w = [d, {'type': 'string'}] if k in LIST else {'pp': d, 'p2': {'type': 'integer'}} if k in ('properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions') else d
            yield {k: w}
    for d in (True, False):
        for k in SUBS:
            if k == 'additionalProperties':
                continue
            w = [d] if k in LIST else {'pp': d} if k in ('properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions') else d
            yield {k: w, 'title': a}
            yield {'allOf': [{k: w}], 'unevaluatedProperties': {'$ref': 'x', 'title': 't', 'examples': [1, 2]}}
    yield {'properties': {'unevaluated': {'type': 'object', 'unevaluatedProperties': True, 'if': {'properties': {'z': {'const': None}}}}}, 'title': a}
    yield {'type': 'string', 'enum': ['a', None], 'examples': []}
    yield {'title': a, 'description': b, 'minimum': 1, 'required': ['x'], 'deprecated': True, 'readOnly': True, 'default': {'const': 1, 'type': 'null', 'examples': [1], 'prefixItems': []}, 'format': 'f', 'enum': ['e']}

@check('C20')
def c20(c):
    F = c.F()
    E = new_engine(F, max_states=8000, max_depth=400)
    box = [Sc()]
    install(E, box)
    # settings
    for name, n, uri, path in PRESETS:
        for ser in (0, 1):
            w = span_named(F, 'schemars::generate::SchemaSettings::' + ('draft2020_12' if name == 'default' else name))
            for p in call(E, 'probe::api::preset_settings', it(n), it(ser)):
                if not p.precise or p.end != ('ret',):
                    c.und('preset', name, p.why); continue
                f = p.ret[1]
                want = dict(definitions_path=path, meta_schema=('Some', uri), inline_subschemas=0, contract=('Serialize',) if ser else ('Deserialize',), untagged_enum_variant_titles=0)
                for k, v in want.items():
                    if f.get(k) != v:
                        c.bad('preset', '%s.%s' % (name, k), '%s of the %s preset%s is %r, expected %r' % (k, name, ' for serialize' if ser else '', f.get(k), v), w)
                    else:
                        c.ok('preset', '%s.%s = %r' % (name, k, v))
    # transforms leave nothing the dialect does not know, and the plain dialect presets change nothing
    for name, n, uri, path in PRESETS[1:]:
        w = span_named(F, 'schemars::generate::SchemaSettings::' + name)
        for d in preset_docs():
            ps = call(E, 'probe::api::preset_apply', it(n), ref(d))
            ok = 0; bad = None
            for p in ps:
                if not p.precise or p.end != ('ret',):
                    continue
                out = doc_after(p)
                if tops(out):
                    continue
                left = list(dialect(n, out))
                if left:
                    bad = bad or (p, 'leaves %s in %r' % (left[0], out))
                if n == 3 and plain(out) != plain(expect(E, p.st, d)):
                    bad = bad or (p, 'changes it to %r' % (out,))
                lost = lost_parts(expect(E, p.st, d), out, n)
                if lost:
                    bad = bad or (p, 'loses %s: %r' % (lost, out))
                ok += 1
            if bad:
                c.bad('dialect', '%s:%r' % (name, d), 'the %s preset applied to %r %s' % (name, d, bad[1]), w, path_facts(bad[0]))
            elif ok:
                c.ok('dialect', '%s on %r' % (name, d))
            else:
                c.und('dialect', '%s %r' % (name, d), sorted(set(x for p in ps for x in p.why))[:3])
    # what has no construct foreign to the dialect is kept as it is (and 2019-09 only rewrites prefixItems)
    from .transforms import Docs, prefix_items, rec
    for name, n, uri, path in PRESETS[1:]:
        w = span_named(F, 'schemars::generate::SchemaSettings::' + name)
        skip = {1: ('prefixItems', 'unevaluatedProperties'), 2: (), 3: (), 4: ('prefixItems', 'unevaluatedProperties', 'const', 'examples')}[n]
        D = Docs('C20' + name, {'additionalProperties': [True, False, lambda g, d: g.sub(d)], 'format': ['date', 'x', '']}, skip=skip)
        ap = leaf('AP', 'scalar')
        docs = [d for d in D.all(c, [{}, {'type': 'object'}, {'additionalProperties': False}, {'properties': {'a': {'x-leaf': 0}}}, {'allOf': [{'x-leaf': 0}], 'x-k': ap}], 500) if n == 2 or not list(dialect(n, d))]
        for d in docs:
            want = rec(prefix_items)(d) if n == 2 else d
            ps = call(E, 'probe::api::preset_apply', it(n), ref(d))
            ok = 0; bad = None
            for p in ps:
                if not p.precise or p.end != ('ret',) or tops(doc_after(p)):
                    continue
                if plain(doc_after(p)) != plain(expect(E, p.st, want)):
                    bad = bad or p
                ok += 1
            if bad:
                c.bad('keep', '%s:%r' % (name, d), 'the %s preset changes %r, which has nothing that is foreign to the dialect%s, to %r' % (name, d, ' but prefixItems' if n == 2 else '', doc_after(bad)), w, path_facts(bad))
            elif ok:
                c.ok('keep', '%s keeps %r' % (name, d))
            else:
                c.und('keep', '%s %r' % (name, d), sorted(set(x for p in ps for x in p.why))[:3])
    # whole root schemas, definitions included
    for name, n, uri, path in PRESETS[1:]:
        nodes = {0: {'x': 'n0', 'type': ['object', 'null']}, 1: {'x': 'n1', 'type': ['string', 'null'], 'examples': ['e'], 'prefixItems': [{'type': 'null'}]}}
        for op in (2, 3):
            sc = Sc(edges=[(0, 1)], base=nodes, preset=n, ops=[(op, 0)])
            box[0] = sc
            E2 = new_engine(F, sub=False, max_depth=400, max_states=8000)
            install(E2, box)
            for p in run_hist(E2, sc):
                if not p.precise or p.end != ('ret',):
                    c.und('root', name, p.why); continue
                out = outs(p).get(0)
                if not isinstance(out, dict):
                    c.und('root', name, 'no document'); continue
                defs = resolve(out, '#' + path)
                left = [z for z in dialect(n, {k: v for k, v in out.items() if k not in ('components',)})]
                dl = [z for v in (defs or {}).values() for z in dialect(n, v)]
                if left:
                    c.bad('root', name, 'the root schema of the %s preset has %s' % (name, left[0]), span_named(F, 'schemars::generate::SchemaGenerator::root_schema_for'))
                elif out.get('$schema') != uri:
                    c.bad('root', name + '.meta', 'the root schema of the %s preset has $schema %r' % (name, out.get('$schema')), span_named(F, 'schemars::generate::SchemaGenerator::root_schema_for'))
                else:
                    c.ok('root', name)
                if dl:
                    c.bad('root-definitions', name, 'definitions in the root schema of the %s preset have %s: the transforms do not reach %s' % (name, dl[0], path), span_named(F, 'schemars::generate::SchemaGenerator::root_schema_for'))
                elif defs:
                    c.ok('root-definitions', name)
            c.engine_done(E2)
    c.engine_done(E)
    c.floor('preset', 50); c.floor('dialect', 700); c.floor('keep', 800); c.floor('root', 4)

def lost_parts(d, out, n):
    """annotation and validation values that the dialect knows must survive"""
    if n == 3 or not isinstance(d, dict):
        return None
    if isinstance(out, dict):
        for k in ('title', 'description', 'default', 'minimum', 'required', 'deprecated', 'readOnly', 'format'):
            if k in d and plain(out.get(k)) != plain(d[k]):
                return k
        def find_ref(x, r):
            return x == {'$ref': r} or isinstance(x, dict) and (x.get('$ref') == r or any(find_ref(y, r) for y in x.get('allOf', []) if isinstance(x.get('allOf'), list)))
        if '$ref' in d and not find_ref(out, d['$ref']):
            return '$ref'
    return None

def doc_after(p):
    return p.refs[-1]

def span_named(F, n):
    for i in F.I:
        if i['name'] == n:
            return '%s:%s (%s)' % (i['span'][0].replace('/repo/', ''), i['span'][1], n)
    return n

# ------------------------------------------------------------------ C46
@check('C46')
def c46(c):
    F = c.F()
    E = new_engine(F)
    install(E, [Sc()])
    def dc(st, v, t):
        if v[0] == 'A' and E.T[v[1]].get('name') == 'probe::api::T3':
            return v[:3] + ((v[3][0] + 1000,),)
        return v
    E.dyn_clone = dc
    w = span_named(F, 'dyn schemars::generate::GenTransform::downcast')
    def go(rule, root, args, want, wlog=None):
        ps = call(E, 'probe::api::' + root, *args)
        ok = 0; bad = None
        for p in ps:
            if not p.precise:
                continue
            log = [e[1] for e in p.log if e[0] == 'tr']
            if p.end != ('ret',) or plain(p.ret) != want:
                bad = bad or 'gives %r, expected %r' % (p.ret if p.end == ('ret',) else p.end, want)
            elif wlog is not None and log != wlog:
                bad = bad or 'applies transforms %r, expected %r' % (log, wlog)
            ok += 1
        if bad: c.bad(rule, root + str(args[:1] and args[0].x if hasattr(args[0], 'x') else ''), '%s: %s' % (DESC[root], bad), w)
        elif ok: c.ok(rule, DESC[root])
        else: c.und(rule, root, sorted(set(x for p in ps for x in p.why))[:3])
    DESC = dict(gt_is='asking a boxed transform for its type', gt_ref='borrowing a boxed transform as its type and another', gt_mut='mutating a boxed transform through its type',
                gt_own='taking a boxed transform back as its type', gt_own_fail='taking a boxed transform as another type and using what is returned', gt_clone='cloning a boxed transform, then changing the original',
                gt_settings='transforms of settings, cloned settings, generators and cloned generators', gt_closure='closures as transforms')
    DESC.update(gt_no_clone='asking, borrowing, mutating and taking a boxed transform that is not a clone', gt_clone3='cloning a boxed transform',
                gt_settings3='transforms moved and cloned with their settings and generators')
    for n in (0, 5, 40):
        go('identity', 'gt_no_clone', [it(n), ref({})], (1, ('Some', n), ('Some', n + 1)), [n + 201, n + 201])
        go('clone', 'gt_clone3', [it(n), ref({})], ('Some', n), [n + 1200])
        go('identity', 'gt_is', [it(n)], (1, 0))
        go('identity', 'gt_ref', [it(n)], (('Some', n), ('None',)))
        go('identity', 'gt_mut', [it(n), ref({})], (1, 0), [n + 1])
        go('identity', 'gt_own', [it(n)], ('Some', n))
        go('identity', 'gt_own_fail', [it(n), ref({})], ('Some', (1, 0)), [n])
        go('clone', 'gt_clone', [it(n), ref({})], (1, 0), [n, n + 50])
    go('settings', 'gt_settings', [ref({})], (2, 1), [1, 102, 3, 11, 102, 13, 1, 102, 3])
    go('settings', 'gt_settings3', [ref({})], 1, [200, 1200, 1200])
    go('settings', 'gt_closure', [ref({})], 2, [7, 8])
    c.engine_done(E)
    c.floor('identity', 18); c.floor('clone', 6); c.floor('settings', 3)
