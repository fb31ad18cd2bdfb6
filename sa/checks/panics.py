"""C30: no operation of the crate panics except where its documentation says so."""
import itertools, random, re
from . import check
from ..gen import *
from .. import dspec, dsupport, models
from . import derive
from .generator import Runner, random_scenarios, base_scenarios, HISTS, NAMES, all_inline_cycle, skey
from .impls import I_, preset_docs, hook_docs
from .schema import call, ref, val, mp, mpv, st_, it, VALUES, TABLES, uses
from .transforms import leaf, SINGLE, LIST, BOTH, MAP, PLAIN, path_facts, Docs

# documented: schema_for_value! panics when the value cannot be serialized
DOCUMENTED = {'probe::api::m_schema_for_value'}
# test fixtures of the analysis that do not exercise the crate by themselves
# (value inference is covered by the rules 'value' and 'generator', where serialisation of the opaque value is given)
SKIP = re.compile(r'probe::api::(?:h_|gt_|root_val$|into_root_val$)')

KW = sorted(set(SINGLE + LIST + BOTH + MAP + PLAIN + ['deprecated', 'dependencies', '$id', '$anchor', 'readOnly', 'writeOnly', 'maxItems', 'minItems', 'multipleOf', 'contentEncoding']))
def junk(kw):
    A = leaf('J', 'any')
    yield {kw: A}
    yield {kw: [A]}
    yield {kw: []}
    yield {kw: [leaf('J', 'any'), leaf('K', 'any')]}
    yield {kw: {}}
    yield {kw: {'p': A}}
    yield {kw: {'': A, 'type': leaf('K', 'any')}}
    yield {kw: [{kw: A}]}
    yield {kw: {'p': {kw: A}}}
    yield {kw: {kw: A}}

JV = [None, True, False, 0, -1, 5, '', 'x', 'null', '#', '#/', 'a/b', [], [5], ['null'], ['null', 'null'], [None], [[]], [True], [{}], ['string', 5], {}, {'': 5}, {'p': []}, {'p': True}, {'p': {}}, {'type': 'null'}, {'type': 5},
      {'properties': 5}, {'enum': {}}, {'$ref': 5}, {'items': [5]}, {'p': {'allOf': 5}}]

def pool(name, n, hot=()):
    """seeded malformed documents: any keyword with any value, nested"""
    r = random.Random('schemars panics ' + name)
    def v(d):
        if d and r.random() < .35: return doc(d - 1)
        if d and r.random() < .15: return [v(d - 1) for _ in range(r.choice((1, 2, 3)))]
        if d and r.random() < .1: return {k: v(d - 1) for k in r.sample(['p', '', 'type', '$ref', 'a/b'], 2)}
        return r.choice(JV)
    def doc(d):
        ks = [r.choice(hot) if hot and r.random() < .5 else r.choice(KW) for _ in range(r.choice((0, 1, 2, 2, 3, 4)))]
        return {k: v(d) for k in ks}
    for _ in range(n):
        yield doc(2)

class P:
    """reports of one engine"""
    def __init__(self, c, E): self.c, self.E = c, E
    def site(self, p):
        e = p.end
        for x in e[1:]:
            m = re.search(r'((?:/repo/)?schemars\w*/src/[\w/]+\.rs)[: ,\']+(\d+)', str(x))
            if m: return '%s:%s' % (m.group(1).replace('/repo/', ''), m.group(2))
        return 'schemars/src (%s)' % (e[2:],)
    def paths(self, rule, k, ps, what, allowed=None):
        ok = 0; why = set(); bad = None
        for p in ps:
            if not p.precise:
                why |= set(p.why); continue
            if p.end[0] == 'panic':
                if allowed and allowed(p): ok += 1
                else: bad = bad or p
            elif p.end == ('ret',): ok += 1
            else: why.add(repr(p.end)[:100])
        if bad: self.c.bad(rule, str(k).replace(' ', ','), '%s panics: %s (%s)' % (what, bad.end[1], path_facts(bad)[:400]), self.site(bad), bad.log)
        elif ok: self.c.ok(rule, str(k))
        else: self.c.und(rule, str(k), sorted(why)[:3])

@check('C30')
def c30(c):
    F = c.F()
    symbolic(c, F); malformed(c, F); generator(c); derived(c)
    c.floor('symbolic', 40); c.floor('number', 40); c.floor('malformed', 3000); c.floor('generator', 500); c.floor('impl', 150); c.floor('value', 200); c.floor('derive', 500)

def ops_hooks(E):
    # a transform applied to an opaque subschema may make any schema of it: whether that call panics is
    # the same question again, about a smaller document
    hook_leaf_visits(E)
    hook_visit(E)
    install(E, [Sc()])

# ------------------------------------------------------------------ operations on any arguments
SPEC = {   # arguments that are schemas: only true, false and objects are schemas
    'sch_insert': (('ref', 'sch'), ('str', None), ('val', 'any')), 'sch_ensure_object': (('ref', 'sch'),), 'sch_remove': (('ref', 'sch'), ('str', None)),
    'sch_get': (('ref', 'sch'), ('str', None)), 'sch_get_mut': (('ref', 'sch'), ('str', None)), 'sch_pointer': (('ref', 'sch'), ('str', None)),
    'sch_pointer_mut': (('ref', 'sch'), ('str', None)), 'sch_try_from': (('val', 'any'),), 'sch_try_from_ref': (('ref', 'any'),), 'sch_try_from_mut': (('ref', 'any'),),
    'sch_de': (('val', 'any'),), 'sch_ser': (('ref', 'sch'),), 'sch_to_value': (('val', 'sch'),), 'sch_into_value': (('val', 'sch'),), 'sch_as_value': (('ref', 'sch'),),
    'sch_as_bool': (('ref', 'sch'),), 'sch_as_object': (('ref', 'sch'),), 'sch_as_object_mut': (('ref', 'sch'),), 'sch_eq': (('ref', 'sch'), ('ref', 'sch')),
    'sch_eq_value': (('ref', 'sch'), ('ref', 'any')), 'sch_eq_value2': (('ref', 'sch'), ('ref', 'any')), 'sch_clone': (('ref', 'sch'),),
    'm_json_schema_obj': (('val', 'any'),),
}
STRS = ['', '/', '//', '#', '#/', '/a', '/a/b', 'a', '/0', '/-', '/~', '/~2', '/~0', '/%', '#/$defs/%', '\u00e9', '/\u00e9/0', '/00', '/18446744073709551616', '$ref', 'type', 'properties', '/properties/', '/properties//x', '%zz', 'x' * 80,
        '#%', '#%a', '#%\u00e9', '#%a\u00e9', '#%\u20ac', '#/a%\u20ac', '#/%\U0001F680', '#%4\u20ac', '#\u20ac%', '#%%', '#%%4', '#%80', '#%ff%fe', '#/%E2%82', '\u20ac', '/\u20ac', '~', '#~', '/~\u00e9', '#+', '#/%2']

def symbolic(c, F):
    E = new_engine(F, max_states=1000, max_depth=400)
    ops_hooks(E)
    r = P(c, E)
    for n in sorted(F.roots):
        if not n.startswith('probe::api::') or SKIP.match(n): continue
        s = n.split('::')[-1]
        if s in SPEC:
            for combo in itertools.product(*[STRS + [Ky('any')] if h == 'str' else [k] for h, k in SPEC[s]]):
                args = []
                for i, ((h, _), x) in enumerate(zip(SPEC[s], combo)):
                    if h == 'str': args.append(st_(x))
                    else: args.append({'ref': ref, 'val': val}[h](leaf('a%d' % i, x)))
                r.paths('symbolic', '%s(%s)' % (s, ', '.join(map(repr, combo))), call(E, n, *args), s)
        else:
            try: ps = run(E, n)
            except Exception as e:
                c.und('symbolic', s, [repr(e)[:100]]); continue
            ps = [p for p in ps if not (p.end[0] == 'panic' and outside(p))]
            r.paths('symbolic', s, ps, s, (lambda p: True) if n in DOCUMENTED else None)
    c.engine_done(E)
    # with serde_json's arbitrary_precision, a number need not be representable in any primitive type
    E = new_engine(F, max_states=1500, max_depth=400)
    ops_hooks(E)
    for m in ('as_u64', 'as_i64', 'as_f64', 'as_u128', 'as_i128'):
        E.hooks['serde_json::number::Number::' + m] = lambda E, st, inst, a: models.opt(E, None)
    for m in ('is_u64', 'is_i64'):
        E.hooks['serde_json::number::Number::' + m] = lambda E, st, inst, a: 0
    E.hooks['serde_json::number::Number::is_f64'] = lambda E, st, inst, a: 1
    r = P(c, E)
    for n in ('sch_try_from', 'sch_try_from_ref', 'sch_try_from_mut', 'sch_de', 'm_json_schema_obj'):
        a = leaf('n', 'num')
        for h in (ref, val):
            if (h is ref) == (n in ('sch_try_from_ref', 'sch_try_from_mut')):
                r.paths('number', n, call(E, n, h(a)), '%s of a number outside the range of f64' % n)
    for t in TRS:
        for d in ({'minimum': leaf('n', 'num'), 'x-y': [leaf('m', 'num')]}, {'type': leaf('n', 'num')}, {'items': leaf('n', 'num')}, {'const': leaf('n', 'num')}, {'examples': [leaf('n', 'num')]}, {'properties': {'a': leaf('n', 'num')}}):
            r.paths('number', '%s:%r' % (t, d), run_doc(E, 'probe::api::' + t, d), '%s of %r' % (t, d))
    c.engine_done(E)

def outside(p):
    """the arguments of this abstract path are not schemas (a schema is a bool or an object)"""
    if p.end[0] != 'panic': return False
    for k, v in p.st.facts.items():
        if k[0] == 'bind' and isinstance(k[1], str) and isinstance(v, tuple) and v and v[0] == 'A' and v[1] == p.E.F.value_ty and v[2] not in (p.E.F.VAR['Bool'], p.E.F.VAR['Object']):
            return True
    return False

# ------------------------------------------------------------------ documents of any shape
TRS = ['tr_replace_bool', 'tr_remove_ref', 'tr_single_example', 'tr_replace_const', 'tr_prefix_items', 'tr_add_nullable', 'tr_unevaluated', 'tr_restrict_formats', 'tr_subschemas', 'tr_recursive']
HOT = {'tr_remove_ref': ['$ref', 'allOf'], 'tr_single_example': ['examples', 'example'], 'tr_replace_const': ['const', 'enum'], 'tr_prefix_items': ['prefixItems', 'items', 'additionalItems'],
       'tr_add_nullable': ['type', 'const', 'enum', 'nullable', 'anyOf'], 'tr_unevaluated': ['unevaluatedProperties', 'properties', 'patternProperties', 'allOf', 'anyOf', 'if', 'then', '$ref', '$dynamicRef'],
       'tr_restrict_formats': ['format', '$schema', 'type'], 'tr_replace_bool': ['additionalProperties', 'properties', 'items']}

def malformed(c, F):
    E = new_engine(F, sub=False, max_states=1000, max_depth=400)
    ops_hooks(E)
    r = P(c, E)
    N = 3000 if c.thorough else 150
    for t in TRS:
        n = 'probe::api::' + t
        ds = [d for k in KW for d in junk(k)]
        ds += [{a: leaf('J', 'any'), b: leaf('K', 'any')} for a, b in itertools.combinations(HOT.get(t, ['type', 'allOf']), 2)]
        ds += [leaf('J', 'sch'), True, False, {}]
        ds += list(pool(t, N, HOT.get(t, ())))
        for d in ds:
            r.paths('malformed', '%s:%r' % (t, d), run_doc(E, n, d), '%s of %r' % (t, d))
    for pre in range(5):
        ds = [d for k in ('type', 'const', 'examples', 'prefixItems', 'items', '$ref', 'format', 'unevaluatedProperties', 'allOf', '$schema') for d in junk(k)]
        for d in ds + list(pool('preset%d' % pre, N)):
            r.paths('malformed', 'preset %d:%r' % (pre, d), call(E, 'probe::api::preset_apply', it(pre), ref(d)), 'the transforms of preset %d on %r' % (pre, d))
    for s in STRS:
        for d in [leaf('J', 'sch'), True] + list(pool('ptr', 40)):
            for op in ('sch_pointer', 'sch_pointer_mut', 'sch_get', 'sch_remove'):
                r.paths('malformed', '%s(%r) of %r' % (op, s, d), call(E, op, ref(d), st_(s)), '%s(%r) of %r' % (op, s, d))
    c.engine_done(E)

# ------------------------------------------------------------------ generator, implementations, values
def generator(c):
    R = Runner(c)
    r = P(c, R.E)
    def go(sc):
        if all_inline_cycle(sc): return
        R.box[0] = sc
        r.paths('generator', repr(sc), run_hist(R.E, sc), 'the history %r' % (sc,))
    odd = NAMES + ['$defs', 'N1', '2', '0', 'A2', '18446744073709551616', 'a' * 70]
    for nm in odd:
        for h in ([(2, 0)], [(1, 1), (3, 0)], [(1, 0), (4, 1), (2, 0)], [(5, 0), (2, 0)]):
            go(Sc(edges=[(0, 1), (1, 2), (2, 1)], names={0: nm, 1: nm, 2: nm}, ops=h))
    for pre in range(5):
        for path in (None, '', '/', '#', '#/', '//', '/$defs', '#/$defs', '/a/b/c', 'defs', '/\u00e9', '/a%b', '%', '/~', '/~1', '$', '/0', '/-', ' ', '/definitions/definitions', '/properties/type'):
            for b in ({'x': 'n0'}, True, {'x': 1, '$defs': 5}, {'$defs': []}, {'definitions': True, 'a': 'x'}, {'properties': 5, 'x': {'a': []}}, {'$defs': {'N1': 5}, 'title': 5, '$schema': []}):
                for h in ([(2, 0)], [(1, 1), (3, 0)], [(1, 0), (4, 1)], [(9, 1), (10, 2)]):
                    e = [(0, 1), (1, 2), (2, 1)] if isinstance(b, dict) else [(1, 2), (2, 1)]
                    go(Sc(edges=e, base={0: b}, ops=h, preset=pre, path=path))
    for b in pool('root', 2000 if c.thorough else 120, ['title', '$schema', '$defs', 'definitions', 'examples']):
        for h in ([(2, 0)], [(1, 1), (3, 0)], [(9, 1)], [(10, 1)]):
            go(Sc(edges=[(0, 1), (1, 1)], base={0: b, 1: b}, vals={0: b, 1: b}, ops=h, preset=len(b)))
    for sc in random_scenarios('C30', 8000 if c.thorough else 300, names=odd, presets=range(5), ops=(1, 1, 2, 3, 4, 5, 6, 7, 9, 10)):
        go(sc)
    c.engine_done(R.E)
    # values
    F = c.F()
    E = new_engine(F, sub=False, max_depth=200, max_states=8000, max_visits=2000)
    box = [Sc()]
    install(E, box)
    r = P(c, E)
    for root, x in sorted(VALUES.items()):
        n = 'probe::values::' + root
        if n not in F.roots: continue
        seen = set()
        for t in TABLES:
            t = {k: v for k, v in t.items() if k in uses(x)}
            if repr(t) in seen: continue
            seen.add(repr(t))
            box[0] = Sc(vals=t)
            r.paths('value', 'value %r, leaves %r' % (x, t), run(E, n, []), 'inference from %r' % (x,))
    c.engine_done(E)
    # implementations over any subschemas
    E = new_engine(F, max_states=300, max_depth=400)
    r = P(c, E)
    for n in sorted(F.roots):
        if n.startswith('probe::impls::t_'):
            r.paths('impl', n.split('::', 2)[2], [p for p in run(E, n) if not outside(p)], n.split('::', 2)[2])
    for d in [x for k in ('properties', 'type', 'pattern', 'minimum') for x in junk(k)] + list(pool('map', 60, ['type', 'pattern'])):
        for pth in ('#/$defs/', '/$defs', '', '#'):
            r.paths('impl', 'map key %r at %r' % (d, pth), call(E, 'probe::api::map_case', st_(pth), st_('K'), val(d)), 'the schema of a map with a key of schema %r' % (d,))
    c.engine_done(E)
    docs = [x for k in ('type', 'enum', 'const', 'anyOf', '$ref', 'not', 'maxItems', 'properties', 'oneOf') for x in junk(k)] + list(pool('opt', 500 if c.thorough else 80, ['type', 'enum', 'const', 'pattern']))
    for d in docs:
        E = new_engine(F, max_states=200, max_depth=400)
        hook_docs(E, {t: d for t in ('A', 'B', 'C', 'D', 'Box<A>', 'Option<A>')})
        r = P(c, E)
        for t in ('option_a', 'option_d', 'opt_opt', 'map_a', 'result', 'bound', 'vec_a', 'range', 'box_a'):
            for n in (I_ + 't_%s::js' % t, I_ + 't_%s::np' % t):
                if n in F.roots:
                    r.paths('impl', '%s over %r' % (n.split('::', 2)[2], d), [p for p in run(E, n) if not outside(p)], '%s over %r' % (t, d))
    c.engine_done(E)

# ------------------------------------------------------------------ derived code around any schema
def derived(c):
    F = c.F('derive')
    E = derive.engine(c, max_states=100)
    ts = [t for t in dspec.W if 'C30' in t.props]
    r = P(c, E)
    keep = dict(dsupport.JS)
    hot = ['type', 'properties', 'required', 'oneOf', 'anyOf', 'allOf', 'enum', 'items', 'additionalProperties', 'unevaluatedProperties', '$ref', 'title', 'description', 'const', 'if', 'patternProperties']
    docs = [True, False, {}] + [d for k in hot for d in junk(k)] + list(pool('derive', 1000 if c.thorough else 60, hot))
    try:
        for i, d in enumerate(docs):
            dsupport.JS['Mal'] = d
            for j, t in enumerate(ts):
                if not c.thorough and (i + j) % 2: continue
                if 'probe::gen::%s::js' % t.module not in F.roots: continue
                r.paths('derive', '%s with Mal %r' % (t.name, d), run(E, 'probe::gen::%s::js' % t.module), 'the schema of %s, where Mal has the schema %r,' % (t.source(), d))
    finally:
        dsupport.JS.clear(); dsupport.JS.update(keep)
    # every other derived type
    for t in dspec.W:
        n = 'probe::gen::%s::js' % t.module
        if n in F.roots and (c.thorough or hash_(t.name) % 6 == 0):
            r.paths('derive', t.name, run(E, n), 'the schema of %s' % t.source())
    c.engine_done(E)

def hash_(s):
    return sum(map(ord, s))
