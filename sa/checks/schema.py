"""C08..C11, C29, C45: the Schema type, its (de)serialization, pointers, references, value inference, merging."""
import itertools
from . import check
from ..gen import *
from .generator import where as gwhere, NAMES

SER = 'serde::ser::Serialize'

def loc(F, *names):
    for n in names:
        for i in F.I:
            if i['name'] == n or i['name'].endswith('::' + n) and i['span'][0].startswith('/repo'):
                return '%s:%s (%s)' % (i['span'][0].replace('/repo/', ''), i['span'][1], i['name'])
    return 'schemars/src (%s)' % names[0]

class Arg:
    """doc by reference / value / map by reference / string / int"""
    def __init__(self, how, x): self.how = how; self.x = x
    def __repr__(self): return repr(self.x)
def ref(x): return Arg('ref', x)
def val(x): return Arg('val', x)
def mp(x): return Arg('map', x)
def mpv(x): return Arg('mapv', x)
def st_(x): return Arg('str', x)
def it(x): return Arg('int', x)

def call(E, root, *args):
    st = State()
    a = []
    for n, x in enumerate(args):
        c = ('o', 'd%d' % n)
        if x.how == 'ref':
            st.mem[c] = build(E, st, x.x); a.append(('R', c, ()))
        elif x.how == 'val':
            a.append(build(E, st, x.x))
        elif x.how == 'map':
            st.mem[c] = build(E, st, x.x)[3][0]; a.append(('R', c, ()))
        elif x.how == 'mapv':
            a.append(build(E, st, x.x)[3][0])
        elif x.how == 'str':
            a.append(key(E, st, x.x))
        else:
            a.append(x.x)
    E.start(E.F.roots[root if '::' in root else 'probe::api::' + root], a, st)
    ps = [Path(E, s) for s in E.explore(st)]
    for p in ps:
        p.refs = [p.cell(('o', 'd%d' % n)) if x.how in ('ref', 'map') else None for n, x in enumerate(args)]
    return ps

def number_hook(E):
    """numbers are serialized as themselves"""
    def pred(inst): return inst['name'].startswith('<serde_json::number::Number as serde') and inst.get('meth') == 'serialize'
    def fn(E, st, inst, a):
        n = E.res(st, E.load(st, a[0][1], a[0][2])) if isinstance(a[0], tuple) and a[0][0] == 'R' else a[0]
        dt = models.find_ty(E, 'probe::docser::Doc')
        s = ' '.join(E.T[t]['s'] for t in inst['targs'])
        if 'DocSer' in s:
            k = [i for i, v in enumerate(E.T[dt]['v']) if v['n'] == 'Raw'][0]
            return models.result(E, ok=('A', dt, k, (n,)))
        if 'serde_json::value::Serializer' in s or 'value::ser::Serializer' in s:
            return models.result(E, ok=jv(E, 'Number', n))
        return None
    E.prefix_hooks.append((pred, fn))

class O:
    """one rule of a check: obligations over (case, paths)"""
    def __init__(self, c, E, rule): self.c = c; self.E = E; self.rule = rule
    def __call__(self, case, ps, judge, where, key=None):
        """judge(path) -> None if fine, else text"""
        c = self.c
        key = (key or case).replace(' ', '_')
        und = 0; ok = 0
        for p in ps:
            if not p.precise:
                und += 1; continue
            try:
                j = judge(p)
            except Undecided as e:
                und += 1; p.why.append(str(e)); continue
            if j:
                c.bad(self.rule, key, '%s: %s' % (case, j), where); return
            ok += 1
        if ok and not und:
            c.ok(self.rule, '%s: %d abstract paths' % (case, len(ps)))
        elif ok:
            c.ok(self.rule, case); c.notes.append('partly undecided: %s: %d of %d paths' % (case, und, len(ps)))
        else:
            c.und(self.rule, case, sorted(set(w for p in ps for w in p.why))[:3] or ['no path'])

class Undecided(Exception):
    pass

def is_schema_view(p, v):
    if isinstance(v, bool) or isinstance(v, dict):
        return True
    if isinstance(v, Op):
        vs = p.st.facts.get(('vars', v.id))
        F = p.E.F
        if vs is not None:
            return vs <= {F.VAR['Bool'], F.VAR['Object']}
        # the payload of a bool
        if v.id.endswith('.Bool'):
            return True
        raise Undecided('opaque value ' + v.id)
    if tops(v):
        raise Undecided(tops(v)[0])
    return False

def kind_of(p, leaf):
    """JSON kind the path decided for a leaf"""
    b = p.st.facts.get(('bind', leaf))
    if b is None:
        vs = p.st.facts.get(('vars', leaf))
        if vs is not None and len(vs) == 1:
            return p.E.T[p.E.F.value_ty]['v'][list(vs)[0]]['n']
        return None
    return p.E.T[b[1]]['v'][b[2]]['n']

L = lambda i, k='any': Lv(k, i)

# ------------------------------------------------------------------ C08
@check('C08')
def c08(c):
    F = c.F()
    E = new_engine(F, max_states=4000)
    hook_visit(E)
    number_hook(E)
    o = O(c, E, 'conversion')
    # 1. fallible conversions accept exactly objects and bools, and keep the value
    for root, arg in (('sch_try_from', val), ('sch_try_from_ref', ref), ('sch_try_from_mut', ref), ('sch_de', val)):
        for x in [L('X'), {'a': L('X'), 'b': [1]}, {}, True, False, None, 0, -1, 1.5, '', 'true', [], [True], [{}]]:
            def j(p, x=x, root=root):
                if p.end != ('ret',):
                    return 'ends with %r' % (p.end,)
                k = kind_of(p, 'X') if isinstance(x, Lv) else ('Object' if isinstance(x, dict) else 'Bool' if isinstance(x, bool) else 'other')
                if isinstance(x, Lv) and k is None:
                    # never looked at: accepted without validation
                    return 'converts any value without looking at it' if p.ret[0] == 'Ok' else 'rejects every value'
                good = k in ('Object', 'Bool')
                if (p.ret[0] == 'Ok') != good:
                    return '%s is %s' % (k if isinstance(x, Lv) else repr(x), 'accepted' if p.ret[0] == 'Ok' else 'rejected')
                if good and not tops(p.ret) and p.ret[1] != expect(E, p.st, x):
                    return 'the schema %r differs from the value' % (p.ret[1],)
            o('%s(%r)' % (root, x), call(E, 'probe::api::' + root, arg(x)), j, loc(F, 'schemars::Schema::validate'))
    # 2. infallible constructors
    def sch(p):
        if p.end != ('ret',):
            return 'ends with %r' % (p.end,)
        if not is_schema_view(p, p.ret):
            return 'gives %r, which is neither an object nor a bool' % (p.ret,)
    def same(x):
        def j(p):
            if p.end != ('ret',): return 'ends with %r' % (p.end,)
            e = expect(E, p.st, x)
            if p.ret != e: return 'gives %r, expected %r' % (p.ret, e)
        return j
    o = O(c, E, 'constructor')
    for b in (0, 1):
        o('Schema::from(%s)' % bool(b), call(E, 'sch_from_bool', it(b)), same(bool(b)), loc(F, 'schemars::Schema::from'))
    for d in ({}, {'a': L('X')}, {'$ref': 1, 'b': L('Y')}):
        o('Schema::from(map %r)' % d, call(E, 'sch_from_map', mpv(d)), same(d), loc(F, 'schemars::Schema::from'))
    o('Schema::default()', call(E, 'sch_default'), same({}), loc(F, 'schemars::Schema::default'))
    for s in ('', '#/a', 'x', Ky('r')):
        o('new_ref(%r)' % s, call(E, 'sch_new_ref', st_(s)), same({'$ref': s}), loc(F, 'schemars::Schema::new_ref'))
    o('json_schema!(true)', call(E, 'm_json_schema_bool'), same(True), 'schemars/src/macros.rs (json_schema)')
    for v in (L('X'), None, 5, {'t': 1}):
        o('json_schema!({a: %r})' % (v,), call(E, 'm_json_schema_obj', val(v)), same({'a': v}), 'schemars/src/macros.rs (json_schema)')
    for r in ('sch_clone',):
        for d in (True, False, {}, {'a': L('X')}, L('X', 'sch')):
            o('%s(%r)' % (r, d), call(E, r, ref(d)), same(d), 'schemars/src/schema.rs (Schema)')
    for r in ('sch_to_value', 'sch_into_value'):
        for d in (True, False, {}, {'a': L('X')}, L('X', 'sch')):
            o('%s(%r)' % (r, d), call(E, r, val(d)), same(d), 'schemars/src/schema.rs (Schema)')
    o('as_value', call(E, 'sch_as_value', ref({'a': L('X')})), same({'a': L('X')}), 'schemars/src/schema.rs (as_value)')
    # 3. mutators: what they leave behind is a schema, and exactly the documented one
    o = O(c, E, 'mutator')
    def after(ret, doc):
        def j(p):
            if p.end != ('ret',): return 'ends with %r' % (p.end,)
            e = expect(E, p.st, doc(p) if callable(doc) else doc)
            if p.refs[0] != e: return 'leaves %r, expected %r' % (p.refs[0], e)
            r = ret(p) if callable(ret) else ret
            if r is not ANY and p.ret != r: return 'returns %r, expected %r' % (p.ret, r)
        return j
    some = lambda p, x: ('Some', expect(E, p.st, x))
    docs = [True, False, {}, {'a': L('X')}, {'a': L('X'), 'b': L('Y')}, {'b': L('Y')}]
    def obj(d): return dict(d) if isinstance(d, dict) else ({} if d else {'not': {}})
    for d in docs:
        o('ensure_object on %r' % (d,), call(E, 'sch_ensure_object', ref(d)), after(ANY, obj(d)), loc(F, 'schemars::Schema::ensure_object'))
        for k in ('a', 'not', Ky('k', ('a', 'b', 'not'))):
            od = obj(d)
            e = dict(od); e[k] = L('N')
            o('insert %r into %r' % (k, d), call(E, 'sch_insert', ref(d), st_(k), val(L('N'))),
              after(lambda p, od=od, k=k: some(p, od[k]) if k in od else ('None',), e), loc(F, 'schemars::Schema::insert'))
            if isinstance(d, dict):
                e = {x: y for x, y in d.items() if x != k}
            else:
                e = d
            has = isinstance(d, dict) and k in d
            o('remove %r from %r' % (k, d), call(E, 'sch_remove', ref(d), st_(k)), after(lambda p, d=d, k=k, has=has: some(p, d[k]) if has else ('None',), e), loc(F, 'schemars::Schema::remove'))
            for r in ('sch_get', 'sch_get_mut'):
                o('%s %r of %r' % (r, k, d), call(E, r, ref(d), st_(k)), after(lambda p, d=d, k=k, has=has: some(p, d[k]) if has else ('None',), d), loc(F, 'schemars::Schema::' + r[4:]))
        b = ('Some', int(d)) if isinstance(d, bool) else ('None',)
        o('as_bool of %r' % (d,), call(E, 'sch_as_bool', ref(d)), after(b, d), loc(F, 'schemars::Schema::as_bool'))
        for r in ('sch_as_object', 'sch_as_object_mut'):
            o('%s of %r' % (r, d), call(E, r, ref(d)), after(lambda p, d=d: some(p, d) if isinstance(d, dict) else ('None',), d), loc(F, 'schemars::Schema::' + r[4:]))
    # 4. nothing hands out a mutable reference to the whole value (through it the schema could be made anything)
    o = O(c, E, 'mutable-root')
    for d in ({'a': L('X', 'sch')}, True, {}):
        for root, args in (('sch_get_mut', [st_('a')]), ('sch_pointer_mut', [st_('/a')]), ('sch_pointer_mut', [st_('')]), ('sch_pointer_mut', [st_('#')]), ('sch_pointer_mut', [st_('#/a')])):
            ps = call(E, root, ref(d), *args)
            def j(p):
                r = p.st.ret
                if p.end != ('ret',): return 'ends with %r' % (p.end,)
                if isinstance(r, tuple) and r[0] == 'A' and r[3]:
                    x = r[3][0]
                    if isinstance(x, tuple) and x[0] == 'R' and x[1] == ('o', 'd0') and not x[2]:
                        return 'returns a mutable reference to the whole underlying value, which need not stay an object or bool'
            key = '%s(%s)' % (root[4:], args[0].x)
            o('%s(%r) of %r' % (root[4:], args[0].x, d), ps, j, loc(F, 'schemars::Schema::' + root[4:]), key=key)
    # 5. equality with bools, maps and values is equality of the underlying value
    o = O(c, E, 'equality')
    W = 'schemars/src/schema.rs (PartialEq for Schema)'
    vals = [True, False, {}, {'a': 1}, {'a': 1, 'b': 'x'}, {'b': 'x', 'a': 1}, {'a': 2}, {'not': {}}]
    for x in vals:
        for y in vals:
            exp = (x == y) and type(x) == type(y)
            def eq(p, exp=exp):
                if p.end != ('ret',): return 'ends with %r' % (p.end,)
                if p.ret != int(exp): return 'is %s' % bool(p.ret)
            o('%r == %r' % (x, y), call(E, 'sch_eq', ref(x), ref(y)), eq, W)
            for r in ('sch_eq_value', 'sch_eq_value2'):
                o('%s: %r == %r' % (r, x, y), call(E, r, ref(x), ref(y)), eq, W)
            if isinstance(y, bool):
                for r in ('sch_eq_bool', 'sch_eq_bool2'):
                    o('%s: %r == %r' % (r, x, y), call(E, r, ref(x), it(int(y))), eq, W)
            else:
                for r in ('sch_eq_map', 'sch_eq_map2'):
                    o('%s: %r == %r' % (r, x, y), call(E, r, ref(x), mp(y)), eq, W)
    c.engine_done(E)
    c.floor('conversion', 40); c.floor('mutator', 60); c.floor('equality', 100)

class _Any: pass
ANY = _Any()

# ------------------------------------------------------------------ C09
START = ['$id', '$schema', 'title', 'description', 'type', 'format', 'properties']
END = ['$defs', 'definitions']
NOREORDER = ['properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions']

def doc_view(v):
    """Doc value of the probe's serializer -> ('map', [...]) / ('seq', [...]) / scalar"""
    if not isinstance(v, tuple):
        raise Undecided('not a document: %r' % (v,))
    k = v[0]
    if k == 'Null': return None
    if k == 'Bool': return bool(v[1]) if isinstance(v[1], int) else v[1]
    if k in ('I', 'U', 'Raw', 'F', 'Str'): return v[1]
    if k == 'Seq': return ('seq', v[1], [doc_view(x) for x in v[2]])
    if k == 'Map': return ('map', v[1], [(doc_view(x[0]), doc_view(x[1])) for x in v[2]])
    raise Undecided('serialized as %s' % k)

def ordered(x, mode='schema'):
    """expected serialization: documented keyword order for schemas, source order elsewhere"""
    if isinstance(x, dict):
        if mode == 'schema':
            ks = [k for k in START if k in x] + [k for k in x if k not in START + END] + [k for k in END if k in x]
        else:
            ks = list(x)
        out = []
        for k in ks:
            if mode == 'plain':
                m = 'plain'
            elif mode == 'map':
                m = 'schema'
            elif k in ('examples', 'default') or k.startswith('x-'):
                m = 'plain'
            elif k in NOREORDER:
                m = 'map'
            else:
                m = 'schema'
            out.append((k, ordered(x[k], m)))
        return ('map', ('Some', len(x)), out)
    if isinstance(x, list):
        return ('seq', ('Some', len(x)), [ordered(y, 'plain' if mode == 'plain' else 'schema') for y in x])
    if isinstance(x, float):
        return Num(repr(x))
    return x

def plainify(v):
    """serialized document -> JSON, None if keys repeat"""
    if isinstance(v, tuple) and v[0] == 'map':
        ks = [k for k, _ in v[2]]
        if len(set(ks)) != len(ks):
            raise Dup()
        return {k: plainify(x) for k, x in v[2]}
    if isinstance(v, tuple) and v[0] == 'seq':
        return [plainify(x) for x in v[2]]
    return v
class Dup(Exception): pass

def order_of(v):
    if isinstance(v, tuple) and v[0] == 'map':
        return [(k, order_of(x)) for k, x in v[2]]
    if isinstance(v, tuple) and v[0] == 'seq':
        return [order_of(x) for x in v[2]]
    return None

def lens(v):
    """announced lengths that differ from the number of entries"""
    if isinstance(v, tuple):
        if isinstance(v[1], tuple) and v[1][0] == 'Some' and v[1][1] != len(v[2]):
            yield (v[1][1], len(v[2]))
        for x in v[2]:
            yield from lens(x[1] if v[0] == 'map' else x)

@check('C09')
def c09(c):
    F = c.F()
    E = new_engine(F, max_depth=400, max_visits=4000, max_steps=400000)
    number_hook(E)
    W = loc(F, 'serialize')
    W = 'schemars/src/schema.rs (impl Serialize for Schema)'
    o = O(c, E, 'lossless'); oo = O(c, E, 'order'); ol = O(c, E, 'length')
    PLAINKW = ['const', 'enum', 'required', 'pattern', 'minimum', '$ref', 'additionalProperties', 'items', 'allOf', 'x-foo', 'default', 'examples', 'not', 'zzz', 'aaa', 'patternProperties',
               'dependentSchemas', 'dependencies', 'if', 'then', 'else', 'prefixItems', '$comment', '$anchor', 'readOnly', 'deprecated', 'contentSchema', 'unevaluatedProperties', 'x-']
    vals = [True, None, 3, -2, 1.5, 'str', [], {}, [1, 'a', None, [2]], {'b': 1, 'a': 2}]
    inner = {'zeta': 1, 'title': 2, '$defs': {'q': True}, 'type': 'x', 'definitions': {'d': {'format': 'f', 'aa': 0, '$id': 'i'}}, '$schema': 's', 'alpha': [True, {'y': 1, 'type': 2}]}
    docs = [True, False, {}]
    for k in START + END + PLAINKW:
        for v in vals:
            docs.append({k: v})
        docs.append({k: inner}); docs.append({k: [inner, 5]}); docs.append({k: {'p': inner, 'title': inner, '$defs': inner}})
        docs.append({'bb': 1, k: {'x': 1}, 'title': 't', 'cc': 2})
    allk = START + END + ['kk', 'x-e', 'default', 'aa']
    docs.append({k: i for i, k in enumerate(allk)}); docs.append({k: i for i, k in enumerate(reversed(allk))})
    for a, b in itertools.permutations(START + END + ['mm', 'default'], 2):
        docs.append({a: 1, b: 2})
    import random
    rnd = random.Random(7)
    def rand(depth, mode):
        ks = rnd.sample(START + END + PLAINKW, rnd.randint(1, 4))
        return {k: (rand(depth - 1, mode) if depth and rnd.random() < .6 else [rand(depth - 1, mode)] if depth and rnd.random() < .3 else rnd.choice(vals)) for k in ks}
    for n in range(400 if c.thorough else 60):
        docs.append(rand(2, 0))
    for d in docs:
        ps = call(E, 'probe::docser::ser_schema', ref(d))
        def get(p):
            if p.end != ('ret',): return None, 'ends with %r' % (p.end,)
            if p.ret[0] != 'Ok': return None, 'fails'
            if tops(p.ret): raise Undecided(tops(p.ret)[0])
            return doc_view(p.ret[1]), None
        def j(p, d=d):
            v, e = get(p)
            if e: return e
            try:
                got = plainify(v)
            except Dup:
                return 'writes a key twice: %r' % (v,)
            if got != expect(E, p.st, d): return 'serializes as %r' % (got,)
        def jo(p, d=d):
            v, e = get(p)
            if e: return None
            if order_of(v) != order_of(ordered(d)): return 'keywords are written in the order %r, expected %r' % (order_of(v), order_of(ordered(d)))
        def jl(p):
            v, e = get(p)
            if e: return None
            l = list(lens(v))
            if l: return 'announces %d entries and writes %d' % l[0]
        o('%r' % (d,), ps, j, W); oo('%r' % (d,), ps, jo, W); ol('%r' % (d,), ps, jl, W)
    # into a serde_json::Value and back
    orr = O(c, E, 'roundtrip')
    for d in docs[:120:4] + docs[-40:]:
        def j(p, d=d):
            if p.end != ('ret',): return 'ends with %r' % (p.end,)
            if p.ret[0] != 'Ok': return 'fails'
            if p.ret[1] != expect(E, p.st, d): return 'gives %r' % (p.ret[1],)
        orr('to_value(%r)' % (d,), call(E, 'probe::docser::ser_value', ref(d)), j, W)
        orr('from_value(%r)' % (d,), call(E, 'sch_de', val(d)), j, 'schemars/src/schema.rs (impl Deserialize for Schema)')
    # unknown leaves of scalar kind survive
    for k in ('title', 'zzz', 'default', 'x-y', 'properties', '$defs'):
        d = {k: L('S', 'bool'), 'b': L('T', 'str')}
        ps = call(E, 'probe::docser::ser_schema', ref(d))
        def j(p, d=d):
            if p.end != ('ret',) or p.ret[0] != 'Ok': return 'fails'
            if tops(p.ret): raise Undecided(tops(p.ret)[0])
            v = plainify(doc_view(p.ret[1]))
            e = expect(E, p.st, d)
            if v != e and norm(v) != norm(e): return 'serializes as %r, expected %r' % (v, e)
        o('%r' % (d,), ps, j, W)
    # deserialization accepts exactly objects and bools
    od = O(c, E, 'accept')
    for x in [L('X'), None, 1, -1, 2.5, 'x', [], [{}], True, {}, {'a': [1]}]:
        def j(p, x=x):
            if p.end != ('ret',): return 'ends with %r' % (p.end,)
            k = kind_of(p, 'X') if isinstance(x, Lv) else 'Object' if isinstance(x, dict) else 'Bool' if isinstance(x, bool) else 'x'
            if k is None and p.ret[0] == 'Ok': return 'any value is accepted'
            if (p.ret[0] == 'Ok') != (k in ('Object', 'Bool')): return '%s is %s' % (k, 'accepted' if p.ret[0] == 'Ok' else 'rejected')
        od('from_value(%r)' % (x,), call(E, 'sch_de', val(x)), j, 'schemars/src/schema.rs (impl Deserialize for Schema)')
    c.engine_done(E)
    c.floor('lossless', 300); c.floor('order', 300); c.floor('length', 300); c.floor('accept', 10)

def norm(v):
    return repr(v).replace("'", '').replace('<', '').replace('>', '')

# ------------------------------------------------------------------ C10
def codepoints():
    yield from (chr(i) for i in range(0x80))
    yield from '\u0080\u00ff\u0100\u07ff\u0800\u0fff\u20ac\ud7ff\ue000\ufffd\uffff\U00010000\U0001F680\U0010FFFF'

@check('C10')
def c10(c):
    F = c.F()
    E = new_engine(F, sub=False, max_depth=400, max_steps=200000, max_visits=2000)
    box = [None]
    install(E, box)
    W = gwhere(F, 'subschema_for')
    o = O(c, E, 'reference')
    def names():
        for ch in codepoints():
            yield ch
            yield 'a' + ch + 'b'
        sp = ['~', '/', '%', '#', ' ', '0', '1', 'A', '\u00e9', '\t', '"', '+', '%2', '~1', '~0', '%25', '%7E']
        for a, b in itertools.product(sp, sp):
            yield a + b
        yield from NAMES
        if c.thorough:
            for a, b, d in itertools.product(sp[:11], repeat=3):
                yield a + b + d
    seen = set()
    refs_ = {}
    for n in names():
        if n in seen: continue
        seen.add(n)
        box[0] = Sc(edges=[(0, 1)], names={0: 'Root', 1: n}, ops=[])
        def j1(p, n=n):
            if p.end != ('ret',): return 'ends with %r' % (p.end,)
            r = p.ret.get('$ref') if isinstance(p.ret, dict) else None
            if not isinstance(r, str): return 'gives %r' % (p.ret,)
            if tops(r) or '<' in r and not FRAG.match(r): 
                return 'reference %r is not a valid URI fragment' % r
            if not FRAG.match(r): return 'reference %r is not a valid URI fragment' % r
            want = '/$defs/' + n.replace('~', '~0').replace('/', '~1')
            if pct(r[1:]) != want: return 'reference %r denotes %r, expected %r' % (r, pct(r[1:]), want)
            if refs_.setdefault(r, n) != n: return 'reference %r is used for the names %r and %r' % (r, refs_[r], n)
        o('reference to %r' % n, run(E, 'probe::api::ref_only'), j1, W, key='name=' + ascii(n))
        for root in ('ref_lookup', 'ref_lookup_mut'):
            def j2(p):
                if p.end != ('ret',): return 'ends with %r' % (p.end,)
                if p.ret != ('Some', {'x': 'n1'}): return 'looking the reference up gives %r, not the definition' % (p.ret,)
            o('%s %r' % (root, n), run(E, 'probe::api::' + root), j2, W, key=root + '=' + ascii(n))
    # decoding: percent sequences of a pointer in URI fragment form
    E2 = new_engine(F)
    o = O(c, E2, 'decode')
    W = loc(F, 'schemars::encoding::percent_decode', 'percent_decode')
    ks = ['%41', '%4', '%', '%%', '%25', '%2525', '%zz', '%+1', '%-1', '% 1', '%0', '%C3%A9', '%c3%a9', 'a%20b', '%E2%82%AC', '%F0%9F%9A%80', '%C3', '%FF', '%A9', '%C3x', '%7e1', '%7E0', '%2F', '%2f', '%25\u00e9', '%\u00e9', '%4\u00e9', '\u00e9%41', '%00', '%7F', '+', 'a+b', '%41%', '%41%4', '%%41', '%4%41', '%0x', '%4g', '%G4', '\u20ac%\u20ac']
    ks += ['%%%02X' % b for b in range(0x80)] + ['%%%02x' % b for b in range(0x80)]
    for k in dict.fromkeys(ks):
        dec = lenient(k)
        tok = None
        if dec is not None:
            toks = dec.split('/')
        for d_ in ('hit',):
            doc = {'~zz': 9}
            exp = None
            if dec is not None:
                # nest along the pointer's tokens
                cur = L('HIT')
                for t in reversed(toks):
                    cur = {t.replace('~1', '/').replace('~0', '~'): cur}
                doc.update(cur); exp = L('HIT')
            # the undecoded spelling is also present: it must not be found instead
            if dec != k and '/' not in k and k.replace('~1', '/').replace('~0', '~') not in doc:
                doc[k.replace('~1', '/').replace('~0', '~')] = L('RAW')
            def j(p, exp=exp):
                if p.end != ('ret',): return 'ends with %r' % (p.end,)
                e = ('None',) if exp is None else ('Some', expect(E2, p.st, exp))
                if p.ret != e: return 'finds %r, expected %r' % (p.ret, e)
            o('pointer(#/%s)' % k, call(E2, 'sch_pointer', ref(doc), st_('#/' + k)), j, W, key=ascii(k))
            o('pointer_mut(#/%s)' % k, call(E2, 'sch_pointer_mut', ref(doc), st_('#/' + k)), j, W, key='mut' + ascii(k))
    c.engine_done(E); c.engine_done(E2)
    c.floor('reference', 800); c.floor('decode', 200)

def lenient(s):
    """documented decoding: %XX is a byte, a % not followed by two hex digits is itself; None if not UTF-8"""
    out = bytearray(); b = s.encode(); k = 0
    while k < len(b):
        if b[k:k + 1] == b'%' and re.fullmatch(rb'[0-9A-Fa-f]{2}', b[k + 1:k + 3]):
            out.append(int(b[k + 1:k + 3], 16)); k += 3
        else:
            out.append(b[k]); k += 1
    try:
        return out.decode()
    except UnicodeDecodeError:
        return None

# ------------------------------------------------------------------ C11
def rfc6901(doc, ptr):
    """value at a JSON pointer; None if there is none"""
    if ptr == '': return doc
    if not ptr.startswith('/'): return None
    cur = doc
    for t in ptr[1:].split('/'):
        t = t.replace('~1', '/').replace('~0', '~')
        if isinstance(cur, dict):
            if t not in cur: return None
            cur = cur[t]
        elif isinstance(cur, list):
            if not re.fullmatch('0|[1-9][0-9]*', t) or int(t) >= len(cur): return None
            cur = cur[int(t)]
        else:
            return None
    return cur

@check('C11')
def c11(c):
    F = c.F()
    E = new_engine(F)
    L = lambda i, k='scalar': Lv(k, i)
    d1 = {'a': {'b': [L('X'), {'c': L('Y')}, [L('Z')]], '': L('EM'), '~': L('TI'), '/': L('SL'), '~1': L('T1'), '~0': L('T0'), '0': L('ZERO')}, '': {'': L('EE')}, 'p/q': L('PQ'),
          'm~n': L('MN'), 'c%d': L('PC'), 'e^f': L('CA'), 'k"l': L('QU'), ' ': L('SP'), 'i\\j': L('BS'), '\u00e9': L('UE'), '#': L('HASH'), 'arr': [L('A0'), L('A1'), L('A2')], 'sc': 5, 'nul': None, 't': True, 's': 'str',
          '$ref': '#/a', '-': L('DASH'), '%': L('PCT'), '#/a': L('HA')}
    ptrs = ['', '/', '//', '///', '/a', '/a/', '/a/b', '/a/b/', '/a/b/0', '/a/b/1', '/a/b/1/c', '/a/b/2/0', '/a/b/3', '/a/b/00', '/a/b/01', '/a/b/+1', '/a/b/-', '/a/b/-1', '/a/b/1.0', '/a/b/ 1', '/a/0', '/a/~0', '/a/~1', '/a/~01', '/a/~00',
            '/p~1q', '/p/q', '/m~0n', '/m~n', '/c%d', '/c%25d', '/e^f', '/k"l', '/ ', '/i\\j', '/\u00e9', '/#', '/arr/0', '/arr/2', '/arr/3', '/arr/18446744073709551616', '/sc', '/sc/0', '/nul', '/nul/x', '/t', '/s', '/s/0', '/$ref',
            '/$ref/b', '/-', '/arr/-', 'a', 'a/b', ' /a', '/A', '/a/B', '/zzz', '/a/b/c', '/%', '/%25', '/arr/1/', '/#~1a', '\u00e9']
    frag = ['#' + p for p in ptrs] + ['#/%61', '#/a%2Fb', '#/p~1q', '#/p%7E1q', '#/m%7E0n', '#/c%25d', '#/%C3%A9', '#/%20', '#/%23', '#%2Fa', '##/a', '#/i%5Cj', '#/arr/%30', '#/a/%62/1/c', '#/%C3', '#/%', '#/%25', '#/a/b/%2B1', '#/e%5ef']
    docs = [('d1', d1), ('true', True), ('false', False), ('empty', {}), ('opaque', {'a': L('X', 'scalar')})]
    o = O(c, E, 'lookup'); om = O(c, E, 'lookup_mut'); ou = O(c, E, 'unchanged')
    for nm, d in docs:
        for p_ in ptrs + frag:
            exp = None; found = False
            if isinstance(d, dict):
                q = p_
                if p_.startswith('#'):
                    q = lenient(p_[1:])
                if q is not None:
                    r = rfc6901(d, q) if not (q and not q.startswith('/')) else None
                    found = q == '' or has(d, q)
                    exp = r
            if nm == 'opaque' and p_.startswith(('/a/', '#/a/')) : continue
            for rule, root in ((o, 'sch_pointer'), (om, 'sch_pointer_mut')):
                ps = call(E, root, ref(d), st_(p_))
                def j(p):
                    if p.end != ('ret',): return 'ends with %r' % (p.end,)
                    e = ('Some', expect(E, p.st, exp)) if found else ('None',)
                    if p.ret != e: return 'gives %r, expected %r' % (p.ret, e)
                def ju(p):
                    if p.refs[0] != expect(E, p.st, d): return 'changes the schema to %r' % (p.refs[0],)
                w = loc(F, 'schemars::Schema::' + root[4:])
                rule('%s(%r) on %s' % (root[4:], p_, nm if nm != 'd1' else 'the sample document'), ps, j, w, key='%s/%s' % (nm, ascii(p_)))
                ou('%s(%r) on %s' % (root[4:], p_, nm), ps, ju, w, key='%s/%s/%s' % (root, nm, ascii(p_)))
    # pointer_mut gives access to the place itself, not to a copy
    op = O(c, E, 'place')
    for p_, path in (('/a/b/1/c', 4), ('#/p~1q', 1), ('/arr/2', 2)):
        def j(p):
            r = p.st.ret
            x = r[3][0] if r[3] else None
            if not (isinstance(x, tuple) and x[0] == 'R' and x[1] == ('o', 'd0')): return 'the reference does not point into the schema'
        op('pointer_mut(%r)' % p_, call(E, 'sch_pointer_mut', ref(d1), st_(p_)), j, loc(F, 'schemars::Schema::pointer_mut'))
    c.engine_done(E)
    c.floor('lookup', 300); c.floor('lookup_mut', 300)

def has(doc, ptr):
    class M: pass
    cur = doc
    for t in ptr[1:].split('/'):
        t = t.replace('~1', '/').replace('~0', '~')
        if not ptr.startswith('/'): return False
        if isinstance(cur, dict):
            if t not in cur: return False
            cur = cur[t]
        elif isinstance(cur, list):
            if not re.fullmatch('0|[1-9][0-9]*', t) or int(t) >= len(cur): return False
            cur = cur[int(t)]
        else:
            return False
    return True

# ------------------------------------------------------------------ C29
VREC = ('struct', 'Rec', [('a', 1), ('b', 2), ('c', 3)])
VTUP = ('tuple_struct', 'Tup', [1, 2, 3])
U8S = {'type': 'array', 'items': {'type': 'integer', 'format': 'uint8', 'minimum': 0, 'maximum': 255}}
VALUES = {   # root -> value in the serde data model (numbers are leaves)
    'i_v': 1, 'i_true': ('bool', True), 'i_false': ('bool', False),
    'i_char': ('char', 'x'), 'i_str': ('str', 's'), 'i_string': ('str', ''), 'i_disp': ('str', 'disp'), 'i_raw': ('bytes', b'xyz'), 'i_unit': ('none',), 'i_unit_struct': ('unit_struct',),
    'i_new': ('newtype', 'New', 1), 'i_newnew': ('newtype', 'NewNew', ('newtype', 'New', 1)), 'i_newrec': ('newtype', 'NewRec', VREC), 'i_recnest': ('newtype', 'NewNewRec', ('newtype', 'NewRec', VREC)),
    'i_tup3': ('tuple', [1, 2, 1]), 'i_tup': VTUP, 'i_rec': VREC, 'i_empty': ('struct', 'Empty', []), 'i_noname': ('struct', '', [('a', 1)]),
    'i_skip0': ('struct', 'Skip', [('b', ('none',))]), 'i_skip1': ('struct', 'Skip', [('a', ('some', 1)), ('b', ('some', 2))]),
    'i_outer': ('struct', 'Outer', [('inner', VREC), ('opt', ('some', VREC)), ('new', ('newtype', 'New', 1)), ('tup', VTUP), ('list', ('seq', [VREC, VREC])), ('unit', ('unit_struct',))]),
    'i_en_u': ('variant', 'Unit'), 'i_en_n': ('variant', {'New': 1}), 'i_en_t': ('variant', {'Tup': ('seq', [1, 2])}), 'i_en_r': ('variant', {'Rec': ('map', [('a', 1), ('b', 2)])}),
    'i_vec0': ('seq', []), 'i_vec1': ('seq', [1]), 'i_vec2': ('seq', [1, 2]), 'i_vec3': ('seq', [1, 2, 3]), 'i_vec4': ('seq', [1, 2, 1, 3]), 'i_seq0': ('seq', []), 'i_seq2': ('seq', [1, 2]), 'i_seq3': ('seq', [1, 2, 3]),
    'i_ents0': ('map', []), 'i_ents1': ('map', [('k', 1)]), 'i_ents3': ('map', [('k', 1), ('q"\\\n', 2), ('', 3)]), 'i_entsi': ('map', [('1', 1), ('-2', 2)]),
    'i_coll0': ('cmap', []), 'i_coll1': ('cmap', [('k', 1)]), 'i_coll2': ('cmap', [('k', 1), ('l', 2)]), 'i_coll3': ('cmap', [('k', 1), ('l', 2), ('m', 3)]), 'i_btree': ('cmap', []),
    'i_some': ('some', 1), 'i_none': ('none',), 'i_somesome': ('some', ('some', 1)), 'i_somenone': ('some', ('none',)), 'i_arr2': ('tuple', [1, 2]), 'i_arr0': ('tuple', []), 'i_box': 1,
    'i_vecvec': ('seq', [('seq', [1]), ('seq', [2])]), 'i_someveco': ('some', ('seq', [('some', 1), ('none',)])), 'i_optrec': ('some', VREC),
    'i_tupnest': ('tuple', [('tuple', [1, 2]), ('newtype', 'New', 3)]), 'i_vectup': ('seq', [VTUP, VTUP]), 'i_vecen': ('seq', [('variant', 'Unit'), ('variant', {'New': 1})]),
    'i_vecopt': ('seq', [('none',), ('some', 1)]), 'i_vecopt2': ('seq', [('some', 1), ('none',), ('some', 2)]),
    'i_k_enum': ('map', [('Alpha', 1)]), 'i_k_bool': ('map', [('true', 1)]), 'i_k_char': ('map', [('c', 1)]), 'i_k_str': ('map', [('s"t', 1)]), 'i_k_u8': ('map', [('7', 1)]), 'i_k_esc': ('map', [('\u00e9\t\U0001F680/', 1)]),
    'i_vec12': ('seq', list(range(1, 13))), 'i_tup9': ('tuple', list(range(1, 10))), 'i_ents12': ('map', [('k%d' % i, i) for i in range(1, 13)]),
    'i_deep': ('seq', [('some', ('seq', [('seq', [('some', ('seq', [('tuple', [1, ('seq', [2])])]))])]))]), 'i_k_i64': ('map', [(str(-1 << 63), 1)]), 'i_k_u64': ('map', [(str((1 << 64) - 1), 1)]),
    'i_k_i128': ('map', [('-5', 1)]), 'i_k_long': ('map', [('a rather long key, with / and ~ and # in it, longer than any inline buffer', 1)]),
    'i_vec_str_int': ('tuple', [('seq', [('str', 'a'), ('str', 'b')]), ('seq', [('int', 1), ('int', 2)]), ('seq', [('bool', True)]), ('seq', [('float', '1'), ('float', '2')])]),
}
for _t, _v in dict(i8=-1, i16=5, i32=0, i64=-1 << 63, i128=7, u8=0, u16=1, u32=2, u64=(1 << 64) - 1, u128=3).items():
    VALUES['i_' + _t] = ('int', _v)

def allow_null(s):
    """schema that additionally allows null"""
    if s is True: return True
    if s is False: return {'type': 'null'}
    if set(s) == {'anyOf'} and any(isinstance(x, dict) and (x.get('type') == 'null' or isinstance(x.get('type'), list) and 'null' in x['type']) for x in s['anyOf']):
        return s
    if any(k in s for k in ('if', 'allOf', 'anyOf', 'oneOf', '$ref')):
        return {'anyOf': [s, {'type': 'null'}]}
    s = dict(s)
    t = s.get('type')
    if isinstance(t, Ky) or isinstance(t, str) and t != 'null': s['type'] = [t, 'null']
    elif isinstance(t, list) and 'null' not in t: s['type'] = t + ['null']
    if 'const' in s:
        if s['const'] is not None:
            s['enum'] = [s.pop('const'), None]
    elif isinstance(s.get('enum'), list) and None not in s['enum']:
        s['enum'] = s['enum'] + [None]
    return s

def infer(x, leaf, top=True):
    """documented inference rules"""
    I = lambda y: infer(y, leaf, False)
    if isinstance(x, int): return leaf(x)
    k = x[0]
    if k == 'bool': return {'type': 'boolean'}
    if k == 'int': return {'type': 'integer'}
    if k == 'float': return True if x[1] in ('inf', '-inf', 'nan') else {'type': 'number'}
    if k == 'char': return {'type': 'string', 'minLength': 1, 'maxLength': 1}
    if k == 'str': return {'type': 'string'}
    if k == 'bytes': return U8S
    if k in ('none', 'variant'): return True
    if k == 'unit_struct': return {'type': 'null'}
    if k == 'some': return allow_null(I(x[1]))
    title = {'title': x[1]} if top and k in ('newtype', 'tuple_struct', 'struct') and x[1] else {}
    if k == 'newtype':
        s = infer(x[2], leaf, top)
        if not title: return s
        return mg_(obj_(s), title)
    if k == 'seq':
        items = []
        for y in x[1]:
            s = I(y)
            if s is True:
                items = [True]; break
            if s not in items: items.append(s)
        return {'type': 'array', 'items': True if not items else items[0] if len(items) == 1 else {'anyOf': items}}
    if k in ('tuple', 'tuple_struct'):
        l = [I(y) for y in x[-1]]
        return mg_({'type': 'array', **({'prefixItems': l} if l else {}), 'maxItems': len(l), 'minItems': len(l)}, title)
    if k in ('map', 'struct'):
        return mg_({'type': 'object', 'properties': {a: I(y) for a, y in x[-1]}}, title)
    if k == 'cmap':
        l = [I(y) for _, y in x[1]]
        return {'type': 'object', 'additionalProperties': l[0] if l and all(y == l[0] for y in l) else True}
    raise TypeError(x)

def mg_(a, b): return {**a, **b}
def obj_(s): return s if isinstance(s, dict) else {} if s else {'not': {}}

def to_json(x, leaf):
    I = lambda y: to_json(y, leaf)
    if isinstance(x, int): return leaf(x)
    k = x[0]
    if k in ('bool', 'int', 'char', 'str'): return x[1]
    if k == 'float': return None if x[1] in ('inf', '-inf', 'nan') else Num(x[1])
    if k == 'bytes': return list(x[1])
    if k in ('none', 'unit_struct'): return None
    if k == 'some': return I(x[1])
    if k == 'variant':
        return x[1] if isinstance(x[1], str) else {a: I(b) for a, b in x[1].items()}
    if k == 'newtype': return I(x[2])
    if k in ('seq', 'tuple', 'tuple_struct'): return [I(y) for y in x[-1]]
    return {a: I(y) for a, y in x[-1]}

def uses(x):
    if isinstance(x, int): return {x}
    if isinstance(x, dict): return set().union(*map(uses, x.values())) if x else set()
    if isinstance(x, tuple) and x and x[0] in ('bool', 'int', 'float', 'char', 'str', 'bytes'): return set()
    if isinstance(x, (tuple, list)):
        s = set()
        for y in x: s |= uses(y) if not isinstance(y, str) else set()
        return s
    return set()

TABLES = [   # what the leaves' schemas may be
    {}, {1: {'x': 1}, 2: {'x': 1}, 3: {'x': 1}}, {1: {'x': 1}, 2: {'x': 2}, 3: {'x': 1}}, {1: True, 2: {'x': 2}, 3: {'x': 3}}, {1: {'x': 1}, 2: True, 3: {'x': 3}}, {1: {'x': 1}, 2: {'x': 2}, 3: True},
    {1: True, 2: True, 3: True}, {1: False, 2: False, 3: {'x': 1}}, {1: {'type': 'string'}, 2: {'type': 'integer'}, 3: {'type': 'string'}}, {1: {'$ref': '#/$defs/A'}, 2: {'$ref': '#/$defs/A'}, 3: {'$ref': '#/$defs/B'}},
    {1: {'type': ['string', 'null']}, 2: {'type': ['string', 'null']}, 3: {'type': 'null'}}, {1: {'const': 5}, 2: {'const': None}, 3: {'enum': ['a', None]}}, {1: {'enum': ['a']}, 2: {'anyOf': [{'type': 'null'}, {'x': 1}]}, 3: {'oneOf': [True]}},
    {1: {'anyOf': [{'type': 'string'}, {'type': 'integer'}]}, 2: {'type': 'null'}, 3: {'anyOf': [{'type': 'null'}], 'y': 1}}, {1: {'title': 'inner', 'type': 'object'}, 2: {}, 3: {}}, {1: {'type': 'string', 'enum': ['q'], 'format': 'f'}, 2: {'allOf': [True], 'type': 'string'}, 3: {'type': []}},
]

@check('C29')
def c29(c):
    F = c.F()
    E = new_engine(F, sub=False, max_depth=400, max_steps=200000, max_visits=2000)
    box = [Sc()]
    install(E, box)
    W = 'schemars/src/ser.rs (Serializer)'
    o = O(c, E, 'inferred'); oe = O(c, E, 'example'); of = O(c, E, 'failure')
    def one(name, root, x, args, vals):
        box[0] = Sc(vals=vals)
        lf = lambda n: vals.get(n, {'x': 'v%d' % n})
        ps = run(E, 'probe::values::' + root, list(args))
        exp = obj_(infer(x, lf)); ex = to_json(x, lambda n: 'json%d' % n)
        def j(p):
            if p.end != ('ret',): return 'ends with %r' % (p.end,)
            if p.ret[0] != 'Ok': return 'fails'
            if tops({k: v for k, v in p.ret[1].items() if k != 'examples'}): raise Undecided(tops(p.ret[1])[0])
            g = {k: v for k, v in p.ret[1].items() if k != 'examples'}
            if g != exp: return 'gives %r, expected %r' % (g, exp)
        def je(p):
            if p.end != ('ret',) or p.ret[0] != 'Ok': return None
            if tops(p.ret[1].get('examples')): raise Undecided(tops(p.ret[1].get('examples'))[0])
            if p.ret[1].get('examples') != [ex]: return 'has the examples %r, expected %r' % (p.ret[1].get('examples'), [ex])
        nm = '%s with leaves %r' % (name, {k: v for k, v in vals.items() if k in uses(x)})
        o(nm, ps, j, W); oe(nm, ps, je, 'schemars/src/generate.rs (root_schema_for_value)')
    for root, x in sorted(VALUES.items()):
        if 'probe::values::' + root not in F.roots:
            c.und('inferred', root, 'no such probe'); continue
        seen = set()
        for t in TABLES:
            t = {k: v for k, v in t.items() if k in uses(x)}
            if repr(t) in seen: continue
            seen.add(repr(t))
            one('value %r' % (x,), root, x, [], t)
    fl = lambda r: ('flt', r)
    for r in ('1.5', '0.0', '-0.0', 'inf', '-inf', 'nan', '1e308', '5e-324'):
        for root in ('i_f32', 'i_f64'):
            one('%s %s' % (root, r), root, ('float', r), [fl(r)], {})
        one('Some(%s)' % r, 'i_somef64', ('some', ('float', r)), [fl(r)], {})
        for r2 in ('2.5', 'nan'):
            one('[%s, %s]' % (r, r2), 'i_vecf64', ('seq', [('float', r), ('float', r2)]), [fl(r), fl(r2)], {})
    # a failing leaf makes the inference fail; a value that cannot be represented as JSON only has no example
    for root, x in sorted(VALUES.items()):
        us = uses(x)
        if not us or 'variant' in repr(x): continue
        for n in us:
            # once any value is allowed, the remaining elements of a collection need not be looked at
            if isinstance(x, tuple) and (x[0] == 'cmap' and n == 3 or x[0] == 'seq' and ('none',) in x[1] and n == max(us)): continue
            box[0] = Sc(vals={n: 'fail', 1: 'fail' if n == 1 else {'x': 1}})
            def j(p):
                if p.end != ('ret',): return 'ends with %r' % (p.end,)
                if p.ret[0] != 'Err': return 'the error of a part is ignored: %r' % (p.ret,)
            of('value %r failing at %d' % (x, n), run(E, 'probe::values::' + root), j, W)
        n = min(us)
        box[0] = Sc(vals={('json', n): 'fail'})
        def j(p):
            if p.end != ('ret',): return 'ends with %r' % (p.end,)
            if p.ret[0] != 'Ok': return 'inference fails'
            if 'examples' in p.ret[1]: return 'has examples %r' % (p.ret[1]['examples'],)
        of('value %r without JSON form' % (x,), run(E, 'probe::values::' + root), j, 'schemars/src/generate.rs (root_schema_for_value)')
    c.engine_done(E)
    c.floor('inferred', 300); c.floor('example', 300)
