"""C12..C19: schema transforms."""
import itertools, random
from . import check
from ..js import *
from ..engine import Facts

SINGLE = ['not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'propertyNames', 'additionalItems',
          'unevaluatedProperties', 'unevaluatedItems', 'contentSchema']
LIST = ['allOf', 'anyOf', 'oneOf', 'prefixItems']
BOTH = ['items']
MAP = ['properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions']
PLAIN = ['default', 'const', 'enum', 'examples', 'example', 'required', 'type', 'format', 'title', 'description', '$ref', '$schema', 'x-ext',
         'minimum', 'pattern', 'nullable', 'dependentRequired']
SUBS = SINGLE + LIST + BOTH + MAP
ALLKW = SUBS + PLAIN + ['dependencies', '$id', '$anchor', '$recursiveRef', '$dynamicRef']
IMMEDIATE = ['if', 'then', 'else', 'allOf', 'anyOf', 'oneOf']

def mg(a, b):
    return {**a, **b}

def leaf(i, kind='sch'):
    return Lv(kind, i)

def kids(doc, f):
    """apply f to every direct subschema of a schema document"""
    if not isinstance(doc, dict):
        return doc
    def sch(x):
        return isinstance(x, (dict, bool)) or isinstance(x, Lv) and x.kind in ('sch', 'obj', 'bool')
    g = lambda x: f(x) if sch(x) else x
    out = {}
    for k, v in doc.items():
        if k in SINGLE or k in BOTH and not isinstance(v, list):
            out[k] = g(v)
        elif (k in LIST or k in BOTH) and isinstance(v, list):
            out[k] = [g(x) for x in v]
        elif k in MAP and isinstance(v, dict):
            out[k] = {p: g(x) for p, x in v.items()}
        else:
            out[k] = v
    return out

def T(x):
    return Lv('sch', 'T(%s)' % x.id)

def rec(op):
    """oracle of a transform that applies to all subschemas: op(level doc, recurse)"""
    def f(x):
        if isinstance(x, Lv):
            return T(x)
        return op(x, f)
    return f

def anchor(F, name, default='schemars/src/transform.rs'):
    for i in F.I:
        if i['name'] == name:
            return '%s:%s (%s)' % (i['span'][0].replace('/repo/', ''), i['span'][1], name)
    return default + ' (' + name + ')'

def scenario(c, E, rule, root, name, doc, exp, pre=None, key=None):
    ps = run_doc(E, root, doc, pre=pre)
    ok, und, bad = judge(ps, exp)
    k = key or repr(doc)
    if bad:
        p, e, a = bad[0]
        c.bad(rule, '%s:%s' % (name, k), '%s on %r gives %r, expected %r' % (name, doc, a, e), anchor(E.F, name),
              detail='path decisions: %s' % path_facts(p))
    elif not ps or ok == 0 or und:
        why = sorted(set(w for p in ps for w in p.why))[:4] or ['no path']
        if ok == 0:
            c.und(rule, '%s %s' % (name, k), why)
        else:
            c.ok(rule, '%s on %r' % (name, doc))
            c.notes.append('partly undecided: %s %s: %d of %d paths' % (name, k, und, len(ps)))
    else:
        c.ok(rule, '%s on %r: %d abstract paths' % (name, doc, len(ps)))

def path_facts(p):
    out = []
    for k, v in p.st.facts.items():
        if k[0] == 'bind' and isinstance(v, tuple) and v[0] == 'A' and v[1] is not None:
            T = p.E.T[v[1]]
            out.append('%s is %s' % (k[1], T['v'][v[2]]['n']))
        elif k[0] in ('eq', 'ne', 'rng'):
            out.append('%s %s %s' % (k[1], k[0], sorted(v) if isinstance(v, frozenset) else v))
        elif k[0] == 'has':
            out.append('%s %s %s' % (k[1], 'has' if v else 'lacks', kname(k[2])))
        elif k[0] == 'dec':
            out.append('%s=%s' % (k[1], v))
        elif k[0] == 'bind':
            out.append('%s = %r' % (k[1], v))
    return '; '.join(out)[:1500]

def engine(c, types, visit=False):
    E = new_engine(c.F(), max_states=6000)
    if visit:
        hook_visit(E)
    hook_leaf_visits(E, types)
    return E

# ------------------------------------------------------------------ C12
@check('C12')
def c12(c):
    F = c.F()
    E = new_engine(F)
    def mark(E, st, inst, args):
        """the opaque transform marks whatever it is given, once more each time"""
        r = args[1]
        v = E.load(st, r[1], r[2])
        st.event('visit', E.span(st))
        if isinstance(v, tuple) and v and v[0] == 'L':
            E.store(st, r[1], r[2], opaque_schema(E, st, 'T(%s)' % v[2]))
            return UNIT
        if isinstance(v, tuple) and v and v[0] == 'A' and v[2] == E.F.VAR['Object']:
            m = v[3][0]
            n = sum(1 for k, _ in m[2] if k[1][:1] and isinstance(k[1][0], str) and k[1][0].startswith('!T'))
            m = ('M', m[1], m[2] + ((S('!T%d' % n), jv(E, 'Bool', len([e for e in st.log if e[0] == 'visit']))),), m[3])
            E.store(st, r[1], r[2], ('A', v[1], v[2], (m,)))
            return UNIT
        E.store(st, r[1], r[2], jv(E, 'String', S('!T(%s)' % (view(E, st, v),))))
        return UNIT
    E.hooks['<probe::markers::Visit as %s>::transform' % TR] = mark
    def V(x):
        if isinstance(x, Lv):
            return T(x)
        if isinstance(x, dict):
            return mg(x, {'!T0': Lv('bool', 'seen')})
        return '!T(%s)' % x
    name = 'schemars::transform::transform_subschemas'
    root = 'probe::api::tr_subschemas'
    def go(doc, key=None):
        e = kids(doc, V)
        ps = run_doc(E, root, doc)
        for p in ps:            # the mark's payload is the visit number: any bool-like view
            p.doc = unmark(p.doc)
        ok, und, bad = judge(ps, lambda p: e)
        k = key or repr(doc)
        if bad:
            p, ev, a = bad[0]
            c.bad('subschemas', k, 'transform_subschemas on %r gives %r, expected every direct subschema (and nothing else) to be transformed once: %r' % (doc, a, ev), anchor(F, name), path_facts(p))
        elif ok == 0:
            c.und('subschemas', k, sorted(set(w for p in ps for w in p.why))[:3])
        else:
            c.ok('subschemas', '%r: %d abstract paths' % (doc, len(ps)))
    def unmark(d):
        if isinstance(d, dict):
            return {k: (Op('seen') if isinstance(k, str) and k.startswith('!T') else unmark(v)) for k, v in d.items()}
        if isinstance(d, list):
            return [unmark(x) for x in d]
        return d
    kw = Ky('kw', ALLKW)
    shapes = lambda: [leaf('X'), leaf('X', 'junk'), [leaf('X'), leaf('J', 'junk'), leaf('Y')], [], {}, True, False,
                      {Ky('p'): leaf('X'), 'q': leaf('J', 'junk'), 'r': [leaf('Z')]}, {'p': leaf('X')}]
    for k in SUBS + PLAIN + [kw]:
        for s in shapes():
            if not (isinstance(s, Lv) and s.kind == 'sch' and k in MAP):
                go({k: s})
    # several keywords in one schema: all of them are visited, in any order
    full = {k: leaf('s_' + k) for k in SINGLE}
    full.update({k: [leaf('l0_' + k), leaf('l1_' + k)] for k in LIST})
    full.update({k: {Ky('k_' + k): leaf('m_' + k)} for k in MAP})
    full['items'] = leaf('items')
    full[kw] = leaf('other')
    full['const'] = {'not': leaf('c')}
    for k in sorted(full, key=str):
        for j in ('type', 'not', 'properties', 'allOf'):
            if k != j:
                go({j: full.get(j, leaf('ty', 'any')), k: full[k]})
                go({k: full[k], j: full.get(j, leaf('ty', 'any'))})
    go({'items': [leaf('a'), leaf('b')], 'prefixItems': [leaf('c')], 'additionalItems': leaf('d')})
    for b in (True, False):
        go(b)
    for d in Docs('C12', {}).all(c, [{}, {'type': 'object'}, {'not': True}], 500):
        go(d)
    # any JSON map, any keyword: the visited set depends only on keyword and shape
    c.engine_done(E)
    # RecursiveTransform
    E2 = new_engine(F)
    E2.hooks['<probe::markers::Visit as %s>::transform' % TR] = mark
    hook_leaf_visits(E2, ['RecursiveTransform'])
    rname = '<schemars::transform::RecursiveTransform as schemars::transform::Transform>::transform'
    def R(x):
        if isinstance(x, Lv):
            return T(x)
        return kids(V(x), R) if isinstance(x, dict) else V(x)
    for k in SUBS + list(Docs('C12r', {}).all(c, [{}], 250)):
        for inner in ((None,) if isinstance(k, dict) else (leaf('X'), {'not': leaf('X')}, {'properties': {'p': {'items': leaf('X'), 'const': leaf('Y', 'any')}}})):
            s = None if isinstance(k, dict) else inner if k in SINGLE + BOTH else [inner, leaf('Y')] if k in LIST else {Ky('p'): inner}
            doc = k if isinstance(k, dict) else {'title': 't', k: s}
            e = R(doc)
            ps = run_doc(E2, 'probe::api::tr_recursive', doc)
            pre_ok = all(isinstance(p.doc, dict) and p.doc.get('!T0') == 1 for p in ps if p.precise and p.end == ('ret',))
            order = all(preorder(p.doc) for p in ps if p.precise and p.end == ('ret',))
            for p in ps:
                p.doc = unmark(p.doc)
            ok, und, bad = judge(ps, lambda p: e)
            if bad:
                c.bad('recursive', repr(doc), 'RecursiveTransform on %r gives %r, expected %r' % (doc, bad[0][2], bad[0][1]), anchor(F, rname))
            elif not pre_ok or not order:
                c.bad('recursive-order', repr(doc), 'RecursiveTransform does not apply the inner transform to a schema before its subschemas on %r' % (doc,), anchor(F, rname))
            elif ok:
                c.ok('recursive', repr(doc))
            else:
                c.und('recursive', repr(doc), [w for p in ps for w in p.why][:3])
    c.engine_done(E2)
    c.floor('subschemas', 400)
    c.floor('recursive', 60)

def preorder(d, at=0):
    """visit numbers grow from parent to child"""
    if isinstance(d, dict):
        m = d.get('!T0')
        if m is not None:
            m = int(m)
            if m < at:
                return False
            at = m
        return all(preorder(v, at) for k, v in d.items())
    if isinstance(d, list):
        return all(preorder(x, at) for x in d)
    return True

# ------------------------------------------------------------------ helpers for the built-in transforms
def carriers(extra=None, skip=()):
    """documents carrying an opaque subschema under each subschema keyword, alone and beside `extra`"""
    out = []
    for k in SUBS:
        if k in skip:
            continue
        s = leaf('X') if k in SINGLE else [leaf('X'), leaf('Y')] if k in LIST else {Ky('p'): leaf('X')} if k in MAP else leaf('X')
        out.append({k: s})
        if k == 'items':
            out.append({k: [leaf('X'), leaf('Y')]})
        if extra:
            out.append(mg(extra, {k: s}))
            out.append(mg({k: s}, extra))
    return out

def others(c, ne=()):
    kw = Ky('kw', ALLKW)
    return {kw: leaf('other', 'any'), 'title': leaf('title', 'any')}

def setfield(**fields):
    """bind fields of the transform under analysis"""
    def pre(E, st, a):
        for k, v in fields.items():
            st.facts[('bind', 'arg1.' + k)] = int(v)
    return pre

ODDKEYS = ['', '$ref', 'a', 'b', 'c/d', 'e~f', ' ', 'type', 'properties', 'items', 'additionalProperties', 'const', 'examples', 'format', '0', '\u00e9', 'A']
TEXTS = ['', 'a', '#', '#/$defs/X', 'null', 'string', 'object', 'date', 'true', '\n', '{}']
VALS = [None, True, False, 0, 1, -1, '', 'a', [], {}, [None], [1, 'a'], {'a': 1}, {'': None}, {'type': 'null', 'const': 1}, {'$ref': '#', 'x': True}]

class Docs:
    """Seeded pool of well-formed schema documents: every keyword with every shape of value (empty, one, several, bool, opaque),
    every pair with a keyword of interest, and random combinations of up to five keywords at up to three levels."""
    def __init__(self, name, hot, skip=(), ref_any=True):
        self.r = random.Random('schemars ' + name)
        self.hot, self.skip, self.n = hot, set(skip), 0
    def lf(self, kind='sch'):
        self.n += 1
        return {'x-leaf': self.n}
    def sub(self, d):
        x = self.r.random()
        if x < .45 or d <= 0:
            return self.lf()
        if x < .55:
            return self.r.choice((True, False))
        if x < .62:
            return {}
        return self.doc(d - 1)
    def val(self, k, d):
        r = self.r
        if k in self.hot and r.random() < .8:
            v = r.choice(self.hot[k])
            return v(self, d) if callable(v) else v
        if k in SINGLE: return self.sub(d)
        if k in LIST: return [self.sub(d) for _ in range(r.choice((0, 1, 1, 2, 3)))]
        if k in BOTH: return self.sub(d) if r.random() < .6 else [self.sub(d) for _ in range(r.choice((0, 1, 2)))]
        if k in MAP: return {p: self.sub(d) for p in r.sample(ODDKEYS, r.choice((0, 1, 2, 3)))}
        if k in ('title', 'description', '$ref', '$schema', 'format', 'pattern'): return r.choice(TEXTS)
        if k == 'type': return r.choice(('string', 'object', 'array', ['string', 'integer'], ['object']))
        if k == 'required': return r.choice(([], ['a'], ['', 'b']))
        if k in ('enum', 'examples'): return r.choice(([], [1], [None, 'a'], [{'a': 1}, True]))
        if k in ('minimum',): return r.choice((0, 1, -3))
        if k == 'nullable': return r.choice((True, False))
        if k == 'dependentRequired': return r.choice(({}, {'a': ['b']}))
        return r.choice(VALS)
    def doc(self, d):
        r = self.r
        ks = [k for k in SUBS * 2 + PLAIN + ['x-ext', 'deprecated', 'minItems', 'uniqueItems'] if k not in self.skip]
        out = {}
        hs = [k for k in self.hot if r.random() < .6]
        r.shuffle(hs)
        for k in hs[:2] + [r.choice(ks) for _ in range(r.choice((0, 1, 2, 2, 3)))]:
            out.setdefault(k, None)
        k = list(out); r.shuffle(k)
        return {x: self.val(x, d) for x in k}
    def shapes(self, k):
        X, Y = self.lf(), self.lf()
        if k in SINGLE: return [X, True, False, {}, {'title': ''}]
        if k in LIST: return [[], [X], [True, X], [{}], [False], [X, Y, {}]]
        if k in BOTH: return [X, True, False, {}, [], [X, Y], [True], [{}]]
        if k in MAP: return [{}, {'': X}, {'a': True}, {'a': False, 'b': {}}, {'a': X, 'b': Y, 'c': {}}]
        if k in ('title', 'description', '$ref', '$schema', 'format', 'pattern'): return ['', 'a']
        if k == 'type': return ['string', 'object', [], ['integer', 'string']]
        if k == 'required': return [[], ['a']]
        if k in ('enum', 'examples'): return [[], [1], [None]]
        if k == 'minimum': return [0, 5]
        if k == 'nullable': return [True, False]
        if k == 'dependentRequired': return [{}, {'a': ['b']}]
        return [None, '', 0, [], {}, True]
    def pairs(self, frags, thorough=False):
        for fr in frags:
            for k in SUBS + PLAIN:
                if k in fr or k in self.skip:
                    continue
                for s in self.shapes(k):
                    yield mg(fr, {k: s})
        if thorough:
            for fr in frags:
                for k, k2 in itertools.combinations([x for x in SUBS + PLAIN if x not in self.skip and x not in fr], 2):
                    for s, s2 in itertools.product(self.shapes(k)[:5], self.shapes(k2)[:5]):
                        yield mg(fr, {k: s, k2: s2})
    def all(self, c, frags, n=700):
        yield from self.pairs(frags, c.thorough)
        for _ in range(n * (20 if c.thorough else 1)):
            yield self.doc(2)
        # many children, and deep nesting
        for k in LIST + BOTH + MAP:
            if k not in self.skip:
                ch = [self.doc(0) for _ in range(17)]
                yield {k: {'p%d' % i: x for i, x in enumerate(ch)} if k in MAP else ch}
        ks = [k for k in SUBS if k not in self.skip]
        for i in range(4):
            d = self.doc(0)
            for j in range(14):
                k = self.r.choice(ks)
                d = {k: d if k in SINGLE or k in BOTH else [d] if k in LIST else {'a': d}}
            yield d

# ------------------------------------------------------------------ C16
@check('C16')
def c16(c):
    name = '<schemars::transform::ReplaceBoolSchemas as schemars::transform::Transform>::transform'
    E = engine(c, ['ReplaceBoolSchemas'])
    for skip in (False, True):
        def op(x, f):
            if x is True:
                return {}
            if x is False:
                return {'not': {}}
            if skip and isinstance(x, dict) and 'additionalProperties' in x and isinstance(x['additionalProperties'], (bool,)):
                return dict(kids({k: v for k, v in x.items() if k != 'additionalProperties'}, f), additionalProperties=x['additionalProperties'])
            return kids(x, f)
        f = rec(op)
        pre = setfield(skip_additional_properties=skip)
        docs = [True, False, {}, others(c), dict(others(c), type='object'),
                {'additionalProperties': True}, {'additionalProperties': False},
                {'additionalProperties': {'not': True}}, {'additionalProperties': {'additionalProperties': False, 'items': False}},
                {'additionalProperties': {'properties': {'a': True}}},
                {'properties': {'additionalProperties': True, 'b': False}},
                {'additionalProperties': leaf('X', 'obj'), 'not': leaf('Y'), 'properties': {'p': leaf('Z')}},
                {'additionalProperties': False, 'not': leaf('Y'), 'allOf': [True, leaf('Z')]},
                {'not': False}, {'items': True}, {'items': [True, False]}, {'default': True, 'const': False, 'enum': [True, False], 'examples': [True]},
                {'deprecated': True, 'readOnly': True, 'uniqueItems': True, 'nullable': True}, {'properties': {'a': True, 'b': False, Ky('q', ['a', 'b']): leaf('Q')}},
                {'unevaluatedProperties': False}, {'unevaluatedItems': True}, {'dependentSchemas': {'a': True}}]
        docs += carriers(others(c), skip=('additionalProperties',) if skip else ())
        docs += Docs('C16%s' % skip, {'additionalProperties': [True, False, {'not': True}, lambda g, d: g.doc(d) if d else {}]}).all(c, [{}, {'additionalProperties': True}, {'additionalProperties': {'not': False}}, {'not': True}, {'properties': {}}], 500)
        for d in docs:
            scenario(c, E, 'skip' if skip else 'all', 'probe::api::tr_replace_bool', name, d, f(d) if not isinstance(d, Lv) else None, pre, key='skip=%s:%r' % (skip, d))
    c.engine_done(E)
    c.floor('skip', 50); c.floor('all', 50)

# ------------------------------------------------------------------ C14
@check('C14')
def c14(c):
    name = '<schemars::transform::RemoveRefSiblings as schemars::transform::Transform>::transform'
    E = engine(c, ['RemoveRefSiblings'])
    def op(x, f):
        x = kids(x, f)
        if isinstance(x, dict) and '$ref' in x and len(x) > 1:
            x = dict(x)
            r = x.pop('$ref')
            x['allOf'] = list(x.get('allOf', [])) + [{'$ref': r}]
        return x
    f = rec(op)
    ref = leaf('R', 'any')
    o = others(c)
    docs = [True, False, {}, o, {'$ref': ref}, mg({'$ref': ref}, o), mg(o, {'$ref': ref}), {'$ref': ref, 'description': leaf('d', 'any')},
            {'$ref': ref, 'allOf': []}, {'$ref': ref, 'allOf': [{'$ref': leaf('R2', 'any')}]}, {'allOf': [leaf('X'), {'$ref': 'a', 'title': 't'}], '$ref': ref},
            {'allOf': [{'$ref': ref}]}, {'properties': {'a': {'$ref': 'x', 'default': leaf('v', 'any')}, 'b': {'$ref': 'y'}}},
            {'properties': {'$ref': leaf('X'), 'other': leaf('Y')}}, {'default': {'$ref': 'x', 'y': 1}, 'const': {'$ref': 'x', 'y': 1}},
            {'$ref': '', 'nullable': True}, {'$ref': ref, 'properties': {'p': {'$ref': ref, 'title': 'q'}}},
            {'$ref': ref, 'anyOf': [{'$ref': ref, 'type': 'object'}, {'oneOf': [{'$ref': ref, 'deprecated': True}]}]}]
    docs += carriers({'$ref': ref}) + carriers(o)
    docs += Docs('C14', {'$ref': ['#/x', '', ref], 'allOf': [[], [{'$ref': 'y'}], lambda g, d: [g.sub(d)]]}).all(c, [{'$ref': '#/x'}, {'$ref': ref}, {'$ref': '#/x', 'allOf': []}, {'$ref': '#/x', 'description': ''}, {'allOf': [{'$ref': 'q'}]}])
    for d in docs:
        scenario(c, E, 'ref', 'probe::api::tr_remove_ref', name, d, f(d))
    c.engine_done(E)
    c.floor('ref', 100)

# ------------------------------------------------------------------ C15
def prefix_items(x, f):
    x = kids(x, f)
    if isinstance(x, dict) and 'prefixItems' in x:
        x = dict(x); p = x.pop('prefixItems')
        if 'items' in x:
            x['additionalItems'] = x['items']
        x['items'] = p
    return x

@check('C15')
def c15(c):
    F = c.F()
    o = others(c)
    def run(name, root, op, docs, rule, types, hot, frags):
        E = engine(c, types)
        docs = docs + list(Docs('C15' + rule, hot).all(c, frags, 400))
        f = rec(op)
        for d in docs:
            scenario(c, E, rule, root, name, d, f(d))
        c.engine_done(E)
    def ex(x, f):
        x = kids(x, f)
        if isinstance(x, dict) and 'examples' in x:
            x = dict(x); e = x.pop('examples')
            if isinstance(e, list) and e:
                x['example'] = e[0]
        return x
    a, b = leaf('a', 'any'), leaf('b', 'any')
    t = '<schemars::transform::%s as schemars::transform::Transform>::transform'
    run(t % 'SetSingleExample', 'probe::api::tr_single_example', ex,
        [True, False, {}, o, {'examples': [a]}, {'examples': [a, b]}, {'examples': [a, b, leaf('e3', 'any')]}, {'examples': []}, dict(o, examples=[a, b]),
         {'examples': [None]}, {'examples': [False, a]}, {'examples': [{'examples': [1]}]}, {'properties': {'examples': leaf('X')}},
         {'properties': {'p': {'examples': [a, b]}}}, {'default': {'examples': [1, 2]}}, {'examples': [a, b], 'example': leaf('x', 'any')}, {'example': leaf('x', 'any')}, {'allOf': [{'examples': [b, a]}], 'examples': [a]}]
        + carriers({'examples': [a, b]}) + carriers(o), 'example', ['SetSingleExample'], {'examples': [[a], [a, b], [], [None], [False, 1], ['', 'a'], [[]], [{}]]}, [{'examples': [a, b]}, {'examples': [None]}, {'examples': ['']}])
    def cn(x, f):
        x = kids(x, f)
        if isinstance(x, dict) and 'const' in x:
            x = dict(x); x['enum'] = [x.pop('const')]
        return x
    run(t % 'ReplaceConstValue', 'probe::api::tr_replace_const', cn,
        [True, False, {}, o, {'const': a}, dict(o, const=a), {'const': None}, {'const': {'const': 1}}, {'const': [a, b]}, {'enum': [a]}, {'properties': {'const': leaf('X')}},
         {'const': False}, {'properties': {'p': {'const': a, 'type': 'string'}}}, {'examples': [{'const': 1}]}, {'const': a, 'enum': [b]}, {'const': 1, 'enum': [1, 2]}, {'const': a, 'enum': [a, b]}, {'enum': [1, 2, 3], 'const': 3},
         {'enum': [a, b]}, {'enum': []}, {'const': 1, 'enum': [], 'type': 'integer'}, {'oneOf': [{'const': a}, {'const': b, 'title': 't'}]}]
        + carriers({'const': a}) + carriers(o), 'const', ['ReplaceConstValue'], {'const': [a, None, '', 0, False, [], {}, 'x', [a]]}, [{'const': a}, {'const': None}, {'const': ''}, {'const': []}])
    pi = prefix_items
    X, Y, Z = leaf('X'), leaf('Y'), leaf('Z')
    run(t % 'ReplacePrefixItems', 'probe::api::tr_prefix_items', pi,
        [True, False, {}, o, {'prefixItems': [X, Y]}, {'prefixItems': [X], 'items': Y}, {'items': Y, 'prefixItems': [X]}, {'items': X}, {'items': [X, Y]}, dict(o, prefixItems=[X]),
         {'prefixItems': []}, {'prefixItems': [X], 'items': False}, {'prefixItems': [{'prefixItems': [X], 'items': Y}], 'items': {'prefixItems': [Z]}},
         {'properties': {'prefixItems': X, 'items': Y}}, {'prefixItems': [X], 'items': True, 'minItems': 1, 'maxItems': 2},
         {'default': {'prefixItems': [1], 'items': 2}}, {'additionalItems': X, 'items': [Y]}, {'additionalItems': X, 'items': Y, 'prefixItems': [Z]}, {'additionalItems': X, 'prefixItems': [Z]}, {'prefixItems': [X, X], 'items': X}, {'anyOf': [{'prefixItems': [X], 'items': Y}]}]
        + carriers({'prefixItems': [leaf('P')]}, skip=('prefixItems', 'additionalItems')) + carriers(o), 'prefixItems', ['ReplacePrefixItems'], {'prefixItems': [[], [X], [X, Y], [True], [{}]], 'items': [X, True, False, {}, {'prefixItems': [Z]}]}, [{'prefixItems': [X, Y]}, {'prefixItems': []}, {'prefixItems': [X], 'items': False}, {'items': True}])
    c.floor('example', 60); c.floor('const', 60); c.floor('prefixItems', 60)

# ------------------------------------------------------------------ C17
@check('C17')
def c17(c):
    name = '<schemars::transform::AddNullable as schemars::transform::Transform>::transform'
    E = engine(c, ['AddNullable'])
    o = others(c)
    types = ['null', 'string', ['null'], ['null', 'null'], ['string'], ['string', 'null'], ['null', 'integer', 'string'], ['integer', 'string'], [], 5, None, {'a': 1},
             ['array', 'object', 'null'], ['null', Ky('t', ['null'])], Ky('t', ['null']), ['string', 'null', 'null'], ['Null'], 'nul', ['null', 'string', 'null']]
    for rm, cn in itertools.product((False, True), repeat=2):
        def op(x, f):
            x = dict(x) if isinstance(x, dict) else x
            if isinstance(x, dict) and 'type' in x:
                t = x['type']
                has = t == 'null' or isinstance(t, list) and 'null' in t
                if has:
                    x['nullable'] = True
                    only = not isinstance(t, list) or all(y == 'null' for y in t)
                    if only:
                        if cn:
                            x['const'] = None
                            if rm:
                                del x['type']
                        elif rm:
                            x['type'] = []
                    elif rm:
                        r = [y for y in t if y != 'null']
                        x['type'] = r[0] if len(r) == 1 else r
            return kids(x, f)
        f = rec(op)
        pre = setfield(remove_null_type=rm, add_const_null=cn)
        docs = [True, False, {}, o]
        for t in types:
            docs += [{'type': t}, dict(o, type=t), {'type': t, 'enum': [leaf('e', 'any'), None]}]
        docs += [{'type': 'null', 'nullable': False}, {'type': ['null', 'string'], 'nullable': False, 'const': leaf('k', 'any')}, {'nullable': False, 'type': 'string'}, {'nullable': True}]
        docs += [{'properties': {'type': {'type': ['null', 'integer']}, 'p': {'type': 'null'}}}, {'default': {'type': 'null'}}, {'const': {'type': 'null'}},
                 {'anyOf': [{'type': 'null'}, {'type': ['string', 'null']}, {'$ref': 'x'}]}, {'type': ['object', 'null'], 'properties': {'a': {'items': {'type': ['null', 'number']}}}}]
        docs += carriers({'type': ['string', 'null']}) + carriers(o) + carriers({'type': 'null'})
        docs += Docs('C17%s%s' % (rm, cn), {'type': types, 'nullable': [True, False], 'enum': [[None], [None, 1], []], 'const': [None, 1]}).all(c, [{'type': 'null'}, {'type': ['null', 'string']}, {'type': ['null']}, {'type': 'string'}], 300)
        for d in docs:
            scenario(c, E, 'nullable', 'probe::api::tr_add_nullable', name, d, f(d), pre, key='remove_null_type=%s,add_const_null=%s:%r' % (rm, cn, d))
    ps = run(E, 'probe::api::tr_add_nullable_default')
    for p in ps:
        want = ('AddNullable', {'remove_null_type': 1, 'add_const_null': 1})
        if p.precise and p.end == ('ret',):
            if p.ret != want:
                c.bad('defaults', 'AddNullable', 'AddNullable::default() is %r, expected both options on' % (p.ret,), anchor(E.F, '<schemars::transform::AddNullable as core::default::Default>::default'))
            else:
                c.ok('defaults', 'AddNullable::default() turns both options on')
    c.engine_done(E)
    c.floor('nullable', 400); c.floor('defaults', 1)

# ------------------------------------------------------------------ C18
ODD = ['', '$ref', '$x', '_', '0', 'a b', 'a/b', 'a~b', '\u00e9', 'A', 'x-y', 'type', 'properties', 'additionalProperties', 'unevaluatedProperties', 'allOf', 'enum']
@check('C18')
def c18(c):
    name = '<schemars::transform::ReplaceUnevaluatedProperties as schemars::transform::Transform>::transform'
    E = engine(c, ['ReplaceUnevaluatedProperties'])
    def names(x):
        out = []
        if isinstance(x, dict):
            if isinstance(x.get('properties'), dict):
                out += list(x['properties'])
            for k in ('if', 'then', 'else'):
                if k in x:
                    out += names(x[k])
            for k in ('allOf', 'anyOf', 'oneOf'):
                if isinstance(x.get(k), list):
                    for y in x[k]:
                        out += names(y)
        return out
    def op(x, f):
        x = kids(x, f)
        if isinstance(x, dict) and 'unevaluatedProperties' in x:
            x = dict(x)
            x['additionalProperties'] = x.pop('unevaluatedProperties')
            ns = names(x)
            if ns:
                x['properties'] = dict(x.get('properties', {}))
                for n in ns:
                    x['properties'].setdefault(n, True)
        return x
    f = rec(op)
    o = others(c)
    U = leaf('U')
    def props(*n):
        return {'properties': {x: leaf('v_%s' % (x.id if isinstance(x, Ky) else x)) for x in n}}
    p, q = Ky('p', ['a', 'b', 'c', 'd']), Ky('q', ['a', 'b', 'c', 'd'])
    docs = [True, False, {}, o, {'unevaluatedProperties': U}, {'unevaluatedProperties': False}, {'unevaluatedProperties': True}, dict(o, unevaluatedProperties=False),
            dict(props('a'), unevaluatedProperties=False), dict(props(p), unevaluatedProperties=U), dict(props('a')), dict(props('a', 'b'), additionalProperties=False)]
    for k in IMMEDIATE:
        w = (lambda x: [x]) if k in LIST else (lambda x: x)
        docs += [{k: w(props('a')), 'unevaluatedProperties': False}, {k: w(props(p)), 'unevaluatedProperties': U}, mg(props('a', 'b'), {k: w(props('b', 'c')), 'unevaluatedProperties': False}),
                 {k: w({}), 'unevaluatedProperties': False}, {k: w(True), 'unevaluatedProperties': False},
                 {k: w({k: w(props('a'))}), 'unevaluatedProperties': False}, {k: w({'allOf': [props('a'), {'oneOf': [props('b')]}], 'properties': {'c': leaf('cc')}}), 'unevaluatedProperties': False},
                 {k: w(dict(props('a'), unevaluatedProperties=False)), 'unevaluatedProperties': False}, {k: w(props('a'))},
                 {'unevaluatedProperties': False, k: w({'not': props('a'), 'items': props('b')})},
                 mg(props('a'), {k: w(props(p)), 'unevaluatedProperties': False}), mg(props(p), {k: w(props('b', 'a')), 'unevaluatedProperties': U}), mg(props('a', p), {k: w(props('b')), 'unevaluatedProperties': U}),
                 *[mg(props('a'), {k: w(props(x)), 'unevaluatedProperties': False}) for x in ODD],
                 {'unevaluatedProperties': False, 'properties': {'a': leaf('keep')}, k: w({'properties': {'a': leaf('inner'), 'd': leaf('dd')}})}]
        if k in LIST:
            docs += [{k: [props('a'), props('b'), {}], 'unevaluatedProperties': False}, {k: [{'type': 'null'}, props('c', 'd')], 'unevaluatedProperties': False}]
    for k in SUBS:
        if k in IMMEDIATE or k in ('properties', 'unevaluatedProperties', 'additionalProperties'):
            continue
        w = props('a') if k in SINGLE + BOTH else [props('a')] if k in LIST else {'x': props('a')}
        docs.append({k: w, 'unevaluatedProperties': False})
    docs += [{'properties': {'unevaluatedProperties': leaf('X')}}, {'default': {'unevaluatedProperties': 1}}, {'properties': {'a': {'unevaluatedProperties': False, 'allOf': [props('b')]}}}]
    docs += carriers({'unevaluatedProperties': U}, skip=('unevaluatedProperties', 'additionalProperties', 'properties') + tuple(IMMEDIATE)) + [d for d in carriers(o) if 'unevaluatedProperties' not in d]
    D = Docs('C18', {'unevaluatedProperties': [False, True, U, {}], 'properties': [lambda g, d: {p: g.sub(0) for p in g.r.sample(ODDKEYS, g.r.choice((0, 1, 2, 4)))}]}, skip=('additionalProperties',))
    docs += D.all(c, [{'unevaluatedProperties': False}, {'unevaluatedProperties': U}, dict(props('a'), unevaluatedProperties=False), {'properties': {}, 'unevaluatedProperties': False}, {'allOf': [props('a')], 'unevaluatedProperties': False}])
    for d in docs:
        scenario(c, E, 'unevaluated', 'probe::api::tr_unevaluated', name, d, f(d))
    c.engine_done(E)
    c.floor('unevaluated', 120)

# ------------------------------------------------------------------ C19
D07 = 'http://json-schema.org/draft-07/schema#'
D19 = 'https://json-schema.org/draft/2019-09/schema'
D20 = 'https://json-schema.org/draft/2020-12/schema'
OA3 = 'https://spec.openapis.org/oas/3.0/schema/2024-10-18'
F07 = ['date-time', 'date', 'time', 'email', 'idn-email', 'hostname', 'idn-hostname', 'ipv4', 'ipv6', 'uri', 'uri-reference', 'iri', 'iri-reference',
       'uri-template', 'json-pointer', 'relative-json-pointer', 'regex']
F19 = F07 + ['duration', 'uuid']
FORMATS = {D07: F07, D19: F19, D20: F19}

def nested_in_unknown(x, unknown=False):
    if isinstance(x, list):
        return any(nested_in_unknown(y, unknown) for y in x)
    if not isinstance(x, dict):
        return False
    s = x.get('$schema')
    if unknown and s is not None:
        return True
    if s is not None and not isinstance(s, Ky):
        unknown = s not in (D07, D19, D20)
    return any(nested_in_unknown(v, unknown) for k, v in x.items())

@check('C19')
def c19(c):
    name = '<schemars::transform::RestrictFormats as schemars::transform::Transform>::transform'
    E = engine(c, ['RestrictFormatsNothing'])
    o = others(c)
    for infer in (True, False):
        def pre(E, st, a):
            setfield(infer_from_meta_schema=infer)(E, st, a)
            r = a[0]
            v = E.res(st, E.load(st, r[1], r[2]))
            t = E.T[v[1]]['v'][0]['f']
            i = [n for n, _ in t].index('allowed_formats')
            fs = list(v[3]); fs[i] = ('M', None, ((S('custom1'), UNIT),), frozenset())
            E.store(st, r[1], r[2], ('A', v[1], v[2], tuple(fs)))
        def oracle(x, cur, eqs):
            """cur: list of formats | 'unknown'"""
            if not isinstance(x, dict):
                return x
            if infer and '$schema' in x:
                s = x['$schema']
                s = eqs(s)
                cur = FORMATS.get(s, 'unknown') if isinstance(s, str) else 'unknown'
            fm = eqs(x.get('format')) if 'format' in x else None
            x = kids(x, lambda y: oracle(y, cur, eqs))
            if isinstance(fm, Ky) or isinstance(fm, str):
                keep = fm == 'custom1' or infer and (cur == 'unknown' or fm in cur)
                if not keep:
                    x = {k: v for k, v in x.items() if k != 'format'}
            return x
        metas = [None, D07, D19, D20, OA3, 'http://unknown', D07[:-1], D20 + '#', 5, Ky('meta', [D07, D19, D20])]
        fmts = F19 + ['custom1', 'custom2', '', 'Date', Ky('f', []), 5, None, leaf('nf', 'nonstr')]
        docs = [True, False, {}, o]
        for mt in metas:
            b = {} if mt is None else {'$schema': mt}
            for fm in fmts:
                docs.append(dict(b, format=fm))
            docs += [mg(b, {'allOf': [{'format': 'uuid'}, {'format': 'custom2'}, {'format': 'custom1'}]}), mg(b, o), mg(dict(o, format='custom2'), b)]
            for m2 in (D07, D20):
                docs.append(dict(b, anyOf=[{'$schema': m2, 'format': 'uuid', 'items': {'format': 'duration'}}, {'format': 'uuid'}, {'format': 'date', 'not': {'format': 'x'}}], format='uuid')
                            if mt in (None, D07, D19, D20) else dict(b, format='uuid'))
            for k in SUBS:
                inner = {'format': 'custom2', 'title': leaf('tt', 'any')}
                s = inner if k in SINGLE + BOTH else [inner, {'format': 'uuid'}] if k in LIST else {Ky('pp'): inner}
                docs.append(mg(b, {k: s}))
            docs += [dict(b, properties={'format': {'format': 'custom2'}, '$schema': {'format': 'time'}}), dict(b, default={'format': 'custom2'}, const={'format': 'q'})]
        D = Docs('C19%s' % infer, {'format': [x for x in fmts if not isinstance(x, Lv)], '$schema': [D07, D19, D20, OA3, 'http://unknown', D07[:-1]]})
        docs += D.all(c, [{'format': 'uuid'}, {'format': 'custom1'}, {'format': 'custom2', '$schema': D07}, {'format': 'duration', '$schema': D20}], 400)
        # what a meta-schema nested in one that is unknown means is not claimed
        docs = [d for d in docs if not nested_in_unknown(d)]
        for d in docs:
            def exp(p, d=d):
                def eqs(s):
                    if isinstance(s, Ky):
                        e = p.st.facts.get(('eq', s.id))
                        return e if e is not None else s
                    return s
                return oracle(d, 'unknown', eqs)
            scenario(c, E, 'infer' if infer else 'explicit', 'probe::api::tr_restrict_formats', name, d, exp, pre, key='infer=%s:%r' % (infer, d))
    for p in run(E, 'probe::api::tr_restrict_formats_default'):
        if p.precise and p.end == ('ret',):
            f = p.ret[1]
            if f.get('infer_from_meta_schema') != 1 or f.get('allowed_formats') != {}:
                c.bad('defaults', 'RestrictFormats', 'RestrictFormats::default() is %r' % (p.ret,), anchor(E.F, '<schemars::transform::RestrictFormats as core::default::Default>::default'))
            else:
                c.ok('defaults', 'RestrictFormats::default() infers and allows nothing else')
    c.engine_done(E)
    c.floor('infer', 400); c.floor('explicit', 400); c.floor('defaults', 1)
