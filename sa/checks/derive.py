"""Checks of the derive macro: the code it generates for witness types is interpreted abstractly under
both contracts and compared with the schema that serde's documented behaviour demands (sa/dmodel.py)."""
import json, re, itertools
from ..domain import *
from .. import dspec, dspec2, dsupport, dmodel
from . import check
from .schema import *
from .impls import plain, short

SUPP = re.compile(r'^<probe::(?:support|markers)::(\w+) as schemars::JsonSchema>::(\w+)$')

def engine(c, **kw):
    E = new_engine(c.F('derive'), sub=False, markers=False, **kw)
    def sub(E, st, inst, args):
        t = short(E.T[inst['targs'][0]]['s'])
        try:
            d = dsupport.doc(t, dsupport.SUBD)
        except KeyError:
            # a type that the generated code itself defines: not a definition, so its own schema
            inl, js_ = impl_of(E, inst, 'inline_schema'), impl_of(E, inst, 'json_schema')
            if inl is None or js_ is None:
                return None
            if [p.ret for p in run(E, inl)] != [1]:
                return build(E, st, {'$ref': '#/$defs/' + t})
            return ('!call', js_, [args[0]])
        return build(E, st, d)
    E.hooks[SUB] = sub
    def fn(E, st, inst, args):
        m = SUPP.match(inst['name'])
        t, meth = m.group(1), m.group(2)
        if meth == 'inline_schema': return int(dsupport.inline(t))
        if meth == '_schemars_private_is_option': return int(dsupport.opt(t))
        if meth == 'schema_name': return cow(E, inst, S('n:' + t))
        if meth == 'schema_id': return cow(E, inst, S('i:' + t))
        return build(E, st, dsupport.JS[t] if meth == 'json_schema' else dsupport.np(t))
    E.prefix_hooks.append((lambda i: i['name'].startswith('<probe::') and SUPP.match(i['name']), fn))
    return E

def setting(st, name):
    """the values of a boolean setting possible on this path"""
    for k, v in st.facts.items():
        if k[0] == 'bind' and isinstance(k[1], str) and k[1].endswith('.' + name):
            return [bool(v)]
    return [False, True]

def impl_of(E, inst, meth, depth=4):
    """the trait method instance that the given instantiation of subschema_for resolves to"""
    seen, todo = set(), [(inst, 0)]
    while todo:
        i, d = todo.pop(0)
        for b in (i.get('body') or {}).get('blocks') or []:
            stack = [b]
            while stack:
                x = stack.pop()
                if isinstance(x, dict):
                    if isinstance(x.get('i'), int) and x['i'] not in seen:
                        seen.add(x['i'])
                        j = E.I[x['i']]
                        if j.get('trait') == 'schemars::JsonSchema':
                            if j.get('meth') == meth:
                                return x['i']
                        elif d < depth and j['name'].startswith('schemars::'):
                            todo.append((j, d + 1))
                    stack += list(x.values())
                elif isinstance(x, (list, tuple)):
                    stack += list(x)
    return None

# ------------------------------------------------------------------ projections
META = {'title', 'description', 'deprecated', 'examples', 'default'}
CLOSED = {'additionalProperties', 'unevaluatedProperties'}
VALID = {'minLength', 'maxLength', 'minItems', 'maxItems', 'minimum', 'maximum', 'pattern', 'format'}
MAPS = ('properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions')
LISTS = ('allOf', 'anyOf', 'oneOf', 'prefixItems')
SINGLE = ('not', 'if', 'then', 'else', 'items', 'contains', 'additionalProperties', 'propertyNames', 'unevaluatedProperties')

def proj(s, drop):
    """the schema without the keywords in `drop`, at every subschema"""
    if not isinstance(s, dict):
        return s
    o = {}
    for k, v in s.items():
        if k in drop or 'x-' in drop and k.startswith('x-'):
            continue
        if k in MAPS and isinstance(v, dict):
            v = {n: proj(x, drop) for n, x in v.items()}
        elif k in LISTS and isinstance(v, list):
            v = [proj(x, drop) for x in v]
        elif k in SINGLE:
            v = [proj(x, drop) for x in v] if isinstance(v, list) else proj(v, drop)
        o[k] = v
    return o

RW = {'readOnly', 'writeOnly'}
DROP = {
    'C31': META | CLOSED | {'required', 'x-'},
    'C32': META | CLOSED | VALID | RW | {'x-'},
    'C33': META | CLOSED | RW,
    'C34': {'default', 'deprecated', 'examples'} | RW,
    'C35': META | RW,
    'C36': META | RW,
    'C37': CLOSED | {'required'},
    'C38': META - {'title', 'description'} | CLOSED | RW | {'required'},
    'C39': META | CLOSED | RW | {'required'},
    'C48': set(),
}

def strip_untouched(prop, s):
    return proj(s, DROP[prop])

def where(F, t):
    """the witness's source is in /verif; the construct at fault is the code the macro emits for it"""
    return 'schemars_derive/src/schema_exprs.rs (code generated for witness %s: %s)' % (t.name, ' '.join(t.source().split())[:300])

def witness(c, E, prop, t, rule):
    root = 'probe::gen::%s::js' % t.module
    ps = run(E, root)
    ok = und = 0
    for p in ps:
        if not p.precise or p.end not in (('ret',), ('panic',)) and p.end[0] != 'panic':
            und += 1
            continue
        if p.end != ('ret',):
            c.bad(rule, t.name, 'generating the schema panics: %s' % (p.end,), where(c.F('derive'), t), t.source())
            return
        if tops(p.ret):
            und += 1
            continue
        got = plain(strip_untouched(prop, raw(p.ret)))
        ct = contract(E, p.st)
        for k, tt, il in itertools.product([ct] if ct else ['ser', 'de'], setting(p.st, 'untagged_enum_variant_titles'), setting(p.st, 'inline_subschemas')):
            w = plain(strip_untouched(prop, dsupport.model(tt, il).schema(t, k)))
            if got != w:
                c.bad(rule, t.name, 'under the %s contract%s%s the schema is %s, expected %s' % ({'ser': 'serialize', 'de': 'deserialize'}[k],
                      ' with titles for untagged variants' if tt and len(setting(p.st, 'untagged_enum_variant_titles')) == 1 else '',
                      ' with inlined subschemas' if il and len(setting(p.st, 'inline_subschemas')) == 1 else '', js(got), js(w)), where(c.F('derive'), t), t.source())
                return
        ok += 1
    if ok and not und:
        c.ok(rule, '%s: %d abstract paths' % (t.name, ok))
    elif ok:
        c.ok(rule, '%s: %d abstract paths' % (t.name, ok))
        c.notes.append('partly undecided: %s: %d of %d paths' % (t.name, und, len(ps)))
    else:
        c.und(rule, t.name, sorted(set(w for p in ps for w in p.why))[:4] or 'no path')

def js(x): return json.dumps(x, ensure_ascii=False, default=str)

def raw(v):
    return v

def family(prop, n):
    def f(c):
        E = engine(c, max_states=4000)
        for t in dspec.W:
            if prop in t.props:
                witness(c, E, prop, t, t.kind)
        c.engine_done(E)
        for k in ('struct', 'enum'):
            m = sum(1 for t in dspec.W if prop in t.props and t.kind == k)
            c.floor(k, m)
    return f

for _p in ('C31', 'C32', 'C33', 'C34', 'C35', 'C36', 'C37', 'C38', 'C39'):
    check(_p)(family(_p, 0))

@check('C48')
def c48(c):
    family('C48', 0)(c)
    E = engine(c, max_states=4000)
    n = 0
    for t in dspec.W:
        if 'C48' not in t.props: continue
        for m in t.meth:
            if m not in ('name', 'id', 'inl', 'opt', 'np'): continue
            n += 1
            ps = run(E, 'probe::gen::%s::%s' % (t.module, m))
            good = [p for p in ps if p.precise and p.end == ('ret',) and not tops(p.ret)]
            # the type whose identity is taken over: only if nothing is added to its schema
            meta = any(t.has(k) for k in ('title', 'description', 'example', 'extend', 'transform')) or t.doc or t.dep
            inner = None
            if t.has('with') and not meta: inner = t.get('with')
            elif t.has('transparent') and not t.has('schema_with') and not t.has('with') and not meta: inner = dsupport.norm(t.fields[0].ty)
            bad_ = None
            for p in good:
                r = plain(p.ret)
                ct = contract(E, p.st)
                if m == 'id' and not inner:
                    continue              # C41
                if m == 'id' and inner not in dsupport.MARKERS: continue
                if inner and m == 'name' and inner not in dsupport.MARKERS: continue
                if m == 'np':
                    ok = any(r == plain(dsupport.np(inner) if inner else dsupport.model(tt, il).schema(t, k)) for k in ([ct] if ct else ['ser', 'de'])
                             for tt in setting(p.st, 'untagged_enum_variant_titles') for il in setting(p.st, 'inline_subschemas'))
                    w = dsupport.np(inner) if inner else 'its schema'
                else:
                    w = {'name': 'n:' + inner, 'id': 'i:' + inner, 'inl': int(dsupport.inline(inner)), 'opt': int(dsupport.opt(inner))}[m] if inner else \
                        {'name': t.get('rename') or (t.get('remote') or t.name).split('::')[-1], 'inl': int(t.has('inline')), 'opt': 0}[m]
                    ok = r == w
                if not ok:
                    bad_ = 'the %s of %s is %s, expected %s' % ({'name': 'name', 'id': 'schema id', 'inl': 'inlining', 'opt': 'optionality', 'np': 'non-optional schema'}[m], t.name, js(r), js(w))
            if bad_: c.bad('identity', '%s.%s' % (t.name, m), bad_, where(c.F('derive'), t), t.source())
            elif good: c.ok('identity', '%s of %s' % (m, t.name))
            else: c.und('identity', '%s of %s' % (m, t.name), sorted(set(w for p in ps for w in p.why))[:4] or 'no path')
    c.engine_done(E)
    c.floor('identity', n)

# ------------------------------------------------------------------ C40
SYNTAX = set('^$\\.*+?()[]{}|')        # ECMA 262 SyntaxCharacter
def literal(p):
    """the text that a pattern consisting of literal characters stands for, or a reason why it is not one"""
    o, i = '', 0
    while i < len(p):
        if p[i] == '\\':
            if i + 1 < len(p) and (p[i + 1] in SYNTAX or p[i + 1] == '/'):
                o += p[i + 1]; i += 2
                continue
            return None, 'a backslash before %r is an error (or a special escape) in an ECMA 262 regular expression' % p[i + 1:i + 2]
        if p[i] in SYNTAX:
            return None, 'unescaped %r at position %d' % (p[i], i)
        o += p[i]; i += 1
    return o, None

def texts(t, e):
    """(path to the schema, text) of the contains validations of a witness"""
    from .. import dmodel
    def txt(i):
        e = i.eff()
        def g(v):
            if isinstance(v, tuple): v = v[0]
            if isinstance(v, list): v = dict(v)['pattern']
            return dmodel.ev(v)
        if 'contains' in e: return [((), g(e['contains'][0]))]
        if 'inner' in e: return [(('items',), g(dict(e['inner'][0])['contains']))]
        return []
    if t.kind == 'newtype':
        return txt(t.fields[0])
    if t.kind == 'enum':
        o = []
        for n, v in enumerate(t.variants):
            for f in v.fields:
                o += [(('oneOf', n, 'properties', v.name) + (('properties', f.name) if v.kind == 'struct' else ()) + p, x) for p, x in txt(f)]
        return o
    return [(('properties', f.name) + p, x) for f in t.fields for p, x in txt(f)]

@check('C40')
def c40(c):
    E = engine(c, max_states=4000)
    n = 0
    for t in dspec.W:
        if 'C40' not in t.props: continue
        ps = run(E, 'probe::gen::%s::js' % t.module)
        want = texts(t, E)
        for path, x in want:
            ok = 0
            for p in ps:
                if not p.precise or p.end != ('ret',) or tops(p.ret): continue
                s = plain(p.ret)
                for k in path:
                    try: s = s[k]
                    except (KeyError, IndexError, TypeError): s = None; break
                pat = s.get('pattern') if isinstance(s, dict) else None
                got, why = literal(pat) if isinstance(pat, str) else (None, 'no pattern in %r' % (s,))
                if got != x:
                    c.bad('contains', repr(x)[:60], 'the pattern for contains = %r is %r, which does not stand for that text: %s' % (x, pat, why or 'it stands for %r' % got), where(c.F('derive'), t), t.source())
                    break
                ok += 1
            else:
                if ok: c.ok('contains', '%r (%s)' % (x[:30], t.name))
                else: c.und('contains', '%s %r' % (t.name, x[:30]), sorted(set(w for p in ps for w in p.why))[:4] or 'no path')
            n += 1
    c.engine_done(E)
    c.floor('contains', n)

# ------------------------------------------------------------------ C45
def merge_docs(thorough):
    O = lambda *n, **k: dict({'type': 'object', 'properties': {x: {'type': 'string', 'title': x} for x in n}, 'required': list(n)}, **k)
    N = {'type': 'number'}
    D = [True, False, {}, O('p'), O('p', 'q'), {'properties': {'q': N, 'r': False}}, {'required': ['q', 'z']}, {'required': []}, {'properties': {}},
         {'patternProperties': {'^a': N}}, {'patternProperties': {'^a': True, '^b': {'type': 'null'}}, 'type': 'object'},
         {'additionalProperties': True}, {'additionalProperties': N}, {'unevaluatedProperties': N}, {'unevaluatedProperties': True, 'additionalProperties': {'type': 'string'}},
         O('s', additionalProperties={'type': 'boolean'}), O('t', unevaluatedProperties={'type': 'array'}),
         {'oneOf': [O('o1'), O('o2')]}, {'oneOf': [N, True]}, {'anyOf': [O('a1'), {'required': ['a2']}]}, {'anyOf': [{}, N]}, {'allOf': [O('l1'), N]}, {'allOf': [{'x-l': 2}]},
         {'allOf': [{'x-l': 3}], 'oneOf': [O('b1')], 'anyOf': [O('b2')]}, {'if': O('i'), 'then': {'required': ['th']}, 'else': {'properties': {'el': N}}}, {'if': N, 'then': {'minimum': 2}}, {'$ref': '#/$defs/X'}, {'$ref': '#/$defs/Y', 'title': 'y'},
         {'not': {'required': ['nn']}}, {'not': {'type': 'null'}}, {'title': 'T', 'description': 'D', 'examples': [1], 'default': {'q': 1}, 'deprecated': True}, {'title': 'T2', 'description': '', 'examples': [], 'x-ext': [1]},
         {'minProperties': 1, 'maxProperties': 5, 'propertyNames': {'maxLength': 3}, 'dependentRequired': {'a': ['b']}, 'dependentSchemas': {'a': {'required': ['c']}}}, {'minProperties': 2, 'propertyNames': {'minLength': 1}, 'x-ext': None},
         {'type': 'object'}, {'type': ['object', 'null']}, {'const': 1, 'enum': [1, 2]}, {'enum': ['e'], 'format': 'f'}, {'$defs': {'K': N}, 'definitions': {'J': True}},
         {'required': ['p', 'p'], 'properties': {'p': {'$ref': '#/$defs/P'}}}, {'properties': {'p': {'oneOf': [O('deep')]}}, 'oneOf': [O('c1', additionalProperties=False)], 'additionalProperties': False},
         O('f', additionalProperties=False), O('g', unevaluatedProperties=False), {'allOf': [O('h', unevaluatedProperties=False), {'then': True, 'anyOf': [O('k', additionalProperties=False)]}], 'unevaluatedProperties': False}]
    return D

@check('C45')
def c45(c):
    E = engine(c, max_states=4000)
    D = merge_docs(c.thorough)
    from .transforms import others
    tys = {t.name: t for t in dspec.W if 'C45' in t.props}
    n = 0
    def case(t, docs, rule):
        nonlocal n
        n += 1
        old = dict(dsupport.JS)
        dsupport.JS.update({'M%d' % i: d for i, d in enumerate(docs)})
        try:
            ps = run(E, 'probe::gen::%s::js' % t.module)
            w = plain(dsupport.model().schema(t, 'de'))
        finally:
            dsupport.JS.clear(); dsupport.JS.update(old)
        ok = 0
        for p in ps:
            if not p.precise or p.end == ('ret',) and tops(p.ret):
                continue
            if p.end != ('ret',):
                c.bad(rule, t.name + '-panic', 'merging %s panics: %s' % (' and '.join(map(js, docs)), p.end), MERGE, t.source()); return
            got = plain(p.ret)
            ser = contract(E, p.st) == 'ser'
            if not ser and got != w:
                c.bad(rule, t.name, 'flattening %s gives %s, expected %s' % (' and '.join(map(js, docs)), js(got), js(w)), MERGE, t.source()); return
            ok += 1
        if ok: c.ok(rule, '%s: %s' % (t.name, ' and '.join(map(js, docs))))
        else: c.und(rule, '%s %s' % (t.name, ' and '.join(map(js, docs))), sorted(set(w for p in ps for w in p.why))[:4] or 'no path')
    for a, b in itertools.product(D, D):
        case(tys['W45_2'], [a, b], 'pair')
    for a in D:
        for b in D[::5 if not c.thorough else 1]:
            case(tys['W45_p'], [a, b], 'with-properties')
            case(tys['W45_e'], [b, a], 'variant')
            case(tys['W45_i'], [a, b], 'tagged-variant')
        case(tys['W45_d'], [a], 'closed')
    T = D[3::4] if not c.thorough else D
    for a, b, d in itertools.product(T, T, T):
        case(tys['W45_3'], [a, b, d], 'triple')
    # seeded random documents: odd and coinciding names, empty and larger collections, every keyword
    from .transforms import Docs, ODDKEYS
    some = lambda g, d: {p: g.r.choice((True, False, {}, {'x-leaf': p})) for p in g.r.sample(ODDKEYS, g.r.choice((0, 1, 2, 3, 5)))}
    G = Docs('C45', {'properties': [some], 'patternProperties': [some], 'required': [[], [''], ['a', ''], ['a', 'b', 'c/d'], ['b', 'b']], 'allOf': [lambda g, d: [{'x-leaf': i} for i in range(g.r.choice((0, 1, 3)))]],
                     'additionalProperties': [False, {'type': 'null'}], 'type': ['object', 'string', ['object', 'null']]}, skip=('definitions',))
    R = [G.doc(1) for _ in range(4000 if c.thorough else 500)]
    for a, b in zip(R, R[1:] + R[:1]):
        case(tys['W45_2'], [a, b], 'random')
        case(tys['W45_p'], [a, b], 'random')
    for i in range(0, len(R) - 3, 3):
        case(tys['W45_3'], R[i:i + 3], 'random')
        case(tys['W45_i'], R[i:i + 2], 'random')
    for k in (['properties'], ['patternProperties'], ['properties', 'required']):
        for m, l in itertools.product(range(5), repeat=2):
            mk = lambda ns: {x: ({n: {'x-leaf': n} for n in ns} if x != 'required' else list(ns)) for x in k}
            case(tys['W45_2'], [mk(ODDKEYS[:m]), mk(ODDKEYS[m:m + l])], 'sizes')
            case(tys['W45_2'], [mk(ODDKEYS[l:l + m]), mk(ODDKEYS[:l])], 'sizes')
    c.engine_done(E)
    c.floor('random', 1200); c.floor('sizes', 150)
    c.floor('pair', len(D) ** 2); c.floor('closed', len(D)); c.floor('triple', len(T) ** 3)

MERGE = 'schemars/src/_private/mod.rs (merging of flattened schemas)'

# ------------------------------------------------------------------ C41
def expand(fmt, by):
    """the name that a rename format string gives; False if it contains the name of an unknown type"""
    o, exact = '', True
    for m in re.finditer(r'\{\{|\}\}|\{(\w+)\}|[^{}]+', fmt):
        if m.group(1):
            v = by[m.group(1)]
            if v in dsupport.MARKERS: o += '<name:%s>' % v
            elif re.fullmatch(r"-?\d+|'.'|true|false", v): o += v.strip("'")
            else: exact = False
        else:
            o += {'{{': '{', '}}': '}'}.get(m.group(0), m.group(0))
    return o, exact

@check('C41')
def c41(c):
    from .. import dspec41 as d41
    E = engine(c, max_states=4000)
    F = c.F('derive')
    def fn(E, st, inst, args):
        m = SUPP.match(inst['name'])
        if m.group(2) not in ('schema_name', 'schema_id'): return None
        return cow(E, inst, S('<%s:%s>' % (m.group(2)[7:], m.group(1))))
    E.prefix_hooks.insert(0, (lambda i: i['name'].startswith('<probe::') and i['name'].endswith(('schema_name', 'schema_id')) and SUPP.match(i['name']), fn))
    G = 'probe::gen41::g::'
    memo = {}
    def res(root, m):
        if (root, m) not in memo:
            ps = run(E, G + root + '::' + m)
            good = [(contract(E, p.st), plain(p.ret) if p.end == ('ret',) else p.end) for p in ps if p.precise and not (p.end == ('ret',) and tops(p.ret))]
            memo[root, m] = (good, len(good) == len(ps) and bool(good), ps)
        return memo[root, m]
    def one(root, m):
        g, full, ps = res(root, m)
        vs = {json.dumps(v, sort_keys=True, default=str) for _, v in g}
        return (g[0][1] if len(vs) == 1 and full else None), ps
    SX = 'schemars_derive/src/lib.rs (derived schema_%s, witness %s)'
    ids = []
    n = 0
    for i, d in enumerate(d41.DECLS):
        for j, a in enumerate(d.insts):
            root = 'i%d_%d' % (i, j)
            t = d.ty + ('<%s>' % ', '.join(a) if a else '')
            n += 1
            nm, ps = one(root, 'name')
            args = [x for x in a]
            if args and args[0].startswith("'static"):
                args = [args[0].split(', ')[1]]
            by = dict(zip(d.params, args))
            pat, exact = expand(d.name, by) if '{' in d.name and '#[schemars(rename' in d.src else (d.name, True)
            if nm is None:
                c.und('name', t, sorted(set(w for p in ps for w in p.why))[:4] or 'several names')
            elif exact and nm != pat:
                c.bad('name', t, 'the name of %s is %r, expected %r' % (t, nm, pat), SX % ('name', t), d.src)
            else:
                c.ok('name', '%s: %s' % (t, nm))
            iv, ps = one(root, 'id')
            if not isinstance(iv, str):
                c.und('id', t, sorted(set(w for p in ps for w in p.why))[:4] or 'several ids'); continue
            if re.search(r'<id:\w+><id:\w+>', iv):
                c.bad('id', d.ty + '-ambiguous', 'the id of %s is %r: the ids of two parameters are concatenated without a separator, so different parameters can give the same id' % (t, iv), SX % ('id', t), d.src); continue
            c.ok('id', '%s: %s' % (t, iv))
            ids.append((d, t, root, iv))
    by = {}
    for d, t, root, iv in ids:
        by.setdefault(iv, []).append((d, t, root))
    def same(r1, r2):
        a, fa, _ = res(r1, 'js'); b, fb, _ = res(r2, 'js')
        if not fa or not fb: return None
        k = lambda g: sorted({(ct or 'x', json.dumps(strip_title(v), sort_keys=True, default=str)) for ct, v in g})
        return k(a) == k(b)
    def strip_title(v): return v
    pairs = len(ids) * (len(ids) - 1) // 2
    shared = 0
    for iv, l in by.items():
        for x, y in itertools.combinations(l, 2):
            shared += 1
            s_ = same(x[2], y[2])
            if s_ is None:
                c.und('distinct', '%s %s' % (x[1], y[1]), 'imprecise schema')
            elif not s_:
                c.bad('distinct', '%s/%s' % (x[1].replace(' ', ''), y[1].replace(' ', '')), '%s and %s have the same id %r but different schemas' % (x[1], y[1], iv), SX % ('id', x[1]), x[0].src)
            else:
                c.ok('distinct', '%s and %s share an id and a schema' % (x[1], y[1]))
    c.ok('distinct', 'pairs of types with different ids', pairs - shared)
    for k, src, a, b, why in d41.TWINS:
        r = 'tw_' + k.replace('-', '_')
        ia, _ = one(r + '_a', 'id'); ib, _ = one(r + '_b', 'id')
        if ia is None or ib is None: c.und('twins', k, 'imprecise id'); continue
        if ia == ib and same(r + '_a', r + '_b') is False:
            c.bad('twins', k, '%s: %s and %s have the same id %r but different schemas' % (why, a, b, ia), SX % ('id', a), src)
        else: c.ok('twins', k)
    v = []
    for r in ('twin_local_1', 'twin_local_2'):
        ps = run(E, 'probe::gen41::m1::' + r)
        v.append({p.ret for p in ps} if all(p.precise and isinstance(p.ret, str) for p in ps) else None)
    if v[0] is None or v[1] is None: c.und('twins', 'local', 'imprecise id')
    elif v[0] & v[1]: c.bad('twins', 'local-types', 'types with the same name declared in two functions of one module have the same id %s' % sorted(v[0] & v[1]), 'schemars_derive/src/lib.rs (schema_id)')
    else: c.ok('twins', 'local-types')
    c.engine_done(E)
    c.floor('name', n); c.floor('twins', len(d41.TWINS) + 1)
