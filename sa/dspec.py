"""Witness types for the derive macro, as data (see dmodel). tools/derive_gen.py writes their Rust source."""
from .dmodel import *
import itertools

W = []
_n = {}
def nm(p):
    _n[p] = _n.get(p, 0) + 1
    return '%s%d' % (p, _n[p])

def add(prop, kind, items=(), *attrs, **kw):
    p = prop if isinstance(prop, tuple) else (prop,)
    t = Ty(kw.pop('name', None) or nm(p[0].replace('C', 'W') + '_'), kind, items, *attrs, props=p, **kw)
    W.append(t)
    return t

def s(k, v=None): return ('serde', k, v)
def x(k, v=None): return ('schemars', k, v)
def val(k, v=None): return ('validate', k, v)
def gar(k, v=None): return ('garde', k, v)

SD = [{}, {'serialize': 1}, {'deserialize': 1}]
RULES = ['lowercase', 'UPPERCASE', 'PascalCase', 'camelCase', 'snake_case', 'SCREAMING_SNAKE_CASE', 'kebab-case', 'SCREAMING-KEBAB-CASE']
TAGS = {'ext': (), 'int': (s('tag', 'tg'),), 'adj': (s('tag', 'tg'), s('content', 'ct')), 'un': (s('untagged'),)}
SKIPS = [(), (s('skip'),), (s('skip_serializing'),), (s('skip_deserializing'),), (s('skip_serializing'), s('skip_deserializing')), (x('skip'),), (x('skip_serializing'),), (x('skip_deserializing'),),
         (s('skip_serializing'), x('!skip_serializing')), (s('skip_deserializing'), x('!skip_deserializing')), (s('skip'), x('!skip')), (s('skip_serializing'), x('skip_deserializing')), (s('skip_deserializing'), x('skip'))]

def all_kinds(a=(), b=(), st_fields=None):
    return [Vr('UnitV', 'unit', (), *a), Vr('NewV', 'newtype', [F('', 'A')], *b), Vr('TupV', 'tuple', [F('', 'A'), F('', 'B')]), Vr('StV', 'struct', st_fields or [F('fa', 'A'), F('fb', 'Option<A>')])]

# ---------------------------------------------------------------- C31: what is present under each contract
for sk in SKIPS:
    add('C31', 'struct', [F('a', 'A'), F('b', 'B', *sk), F('c', 'C')])
    add('C31', 'tuple', [F('', 'A'), F('', 'B', *sk), F('', 'C')])
    add('C31', 'tuple', [F('', 'A', *sk), F('', 'B', *sk)])
    for tg, ta in TAGS.items():
        add('C31', 'enum', [Vr('Va', 'newtype', [F('', 'A')], *sk), Vr('Vb', 'newtype', [F('', 'B')]), Vr('Vc', 'struct', [F('c', 'C', *sk), F('d', 'A')])], *ta)
        add('C31', 'enum', [Vr('Va', 'unit', (), *sk), Vr('Vb', 'unit'), Vr('Vc', 'unit', (), *sk, doc=' d')], *ta)
        if tg != 'int':
            add('C31', 'enum', [Vr('Va', 'tuple', [F('', 'A', *sk), F('', 'B'), F('', 'C', *sk)]), Vr('Vb', 'newtype', [F('', 'B')], *sk)], *ta)
        else:
            add('C31', 'enum', [Vr('Va', 'struct', [F('p', 'A', *sk)], *sk), Vr('Vb', 'struct', [F('p', 'B', *sk)])], *ta)
        if tg != 'un':
            add('C31', 'enum', [Vr('Va', 'newtype', [F('', 'A')], s('untagged'), *sk), Vr('Vb', 'newtype', [F('', 'B')], *sk)][::-1], *ta)
for a, b in itertools.product(SKIPS[:5], SKIPS[:5]):
    add('C31', 'struct', [F('a', 'A', *a), F('b', 'Option<B>', *b), F('c', 'D', *a, s('default'))])
add('C31', 'struct', [F('a', 'Inner1', s('flatten'), s('skip_serializing')), F('b', 'B')])
add('C31', 'struct', [F('a', 'Inner1', s('flatten'), s('skip_deserializing')), F('b', 'B')])
add('C31', 'struct', [F('a', 'Inner1', s('flatten'), s('skip')), F('b', 'B')])
add('C31', 'newtype', [F('', 'A', s('skip_serializing'))])
add('C31', 'newtype', [F('', 'A', s('skip_deserializing'))])
add('C31', 'struct', [F('a', 'A', s('skip'))])
add('C31', 'struct', [])
add('C31', 'tuple', [])
add('C31', 'unit')
add('C31', 'enum', [])
add('C31', 'enum', [Vr('Va', 'struct', []), Vr('Vb', 'tuple', [])])
for ta in ('int', 'adj', 'un'):
    add('C31', 'enum', [Vr('Va', 'struct', [])], *TAGS[ta])

# ---------------------------------------------------------------- C32: requiredness
DEF = [(), (s('default'),), (s('default', 'dflt'),), (x('default'),), (s('default'), x('!default'))]
SIF = [(), (s('skip_serializing_if', 'sif'),), (x('skip_serializing_if', 'sif'),), (s('skip_serializing_if', 'sif'), x('!skip_serializing_if'))]
REQ = [(), (x('required'),), (val('required'),), (gar('required'),)]
for d in DEF:
    for si in SIF:
        for r in REQ:
            if r and (d[1:] or si[1:]): continue
            ty = lambda t: t
            fs = []
            for i, t_ in enumerate(['A', 'Option<A>', 'D', 'Option<Option<A>>', 'Box<Option<A>>']):
                if (r or d[:1] == (s('default', 'dflt'),)) and t_ in ('Option<Option<A>>', 'Box<Option<A>>'): continue
                if d[:1] == (s('default', 'dflt'),):
                    d2 = (s('default', {'A': 'dflt_a', 'Option<A>': 'dflt_oa', 'D': 'dflt_d'}[t_]),)
                else: d2 = d
                fs.append(F('f%d' % i, t_, *d2, *si, *r))
            add('C32', 'struct', fs)
            if not r:
                add('C32', 'struct', fs, s('default'), derive='JsonSchema, Default')
            for tg, ta in TAGS.items():
                if len(si) < 2 and len(d) < 2 and not (d and si and r):
                    add('C32', 'enum', [Vr('Va', 'struct', fs[:3])], *ta)
add('C32', 'struct', [F('a', 'A'), F('b', 'Option<A>', s('skip_serializing_if', 'sif'))], s('default', 'mk_w'), name='W32_mk')
for sk in SKIPS[1:4]:
    add('C32', 'struct', [F('a', 'A', *sk), F('b', 'Option<A>', *sk), F('c', 'A', s('default'), *sk), F('d', 'A', s('skip_serializing_if', 'sif'), *sk)])
add('C32', 'struct', [F('a', 'A', x('with', 'Option<A>')), F('b', 'Option<A>', x('with', 'A')), F('c', 'Option<A>', x('schema_with', 'sw1')), F('d', 'A', x('with', 'D'))])
add('C32', 'struct', [F('a', 'Option<A>', s('rename', 'q')), F('b', 'A', s('rename', 'z'))])
add('C32', 'struct', [F('a', 'A', s('rename', {'serialize': 'sa', 'deserialize': 'da'})), F('b', 'Option<A>', s('rename', {'serialize': 'sb', 'deserialize': 'db'}))])
add('C32', 'struct', [F('a', 'InnerO', s('flatten')), F('b', 'A')])
add('C32', 'struct', [F('a', 'Option<Inner1>', s('flatten')), F('b', 'A')])
add('C32', 'struct', [F('a', 'Option<Inner1>', s('flatten'), x('required')), F('b', 'A')])
add('C32', 'struct', [F('a', 'Inner1', s('flatten')), F('b', 'Option<A>')])
add('C32', 'struct', [F('a', 'Inner1', s('flatten'), s('default')), F('b', 'Option<A>')])
for tg, ta in TAGS.items():
    add('C32', 'enum', [Vr('Va', 'struct', [F('a', 'Inner1', s('flatten')), F('b', 'A', s('default'))]), Vr('Vb', 'struct', [F('a', 'Option<Inner1>', s('flatten')), F('b', 'A')])], *ta)

# ---------------------------------------------------------------- C33: names
IDS = ['a', 'ab', 'foo_bar', 'foo_bar_baz', 'x1_y2', 'r#type', '_lead', 'trail_', 'dbl__us', 'URL_part', 'fooBar', 'éé_à']
VIDS = ['A', 'Ab', 'FooBar', 'FooBarBaz', 'X1Y2', 'URLPart', 'Foo_Bar', 'ÉéÀ']
def rn(v, ns=s): return ns('rename', v)
for r in [None] + RULES:
    for ns in (s, x):
        at = (ns('rename_all', r),) if r else ()
        if not r and ns is x: continue
        IDS_, VIDS_ = (IDS, VIDS) if r != 'camelCase' else (IDS[:-1], VIDS[:-1])      # serde itself does not support camelCase of non-ASCII identifiers
        add('C33', 'struct', [F(i, 'A') for i in IDS_], *at)
        add('C33', 'enum', [Vr(i) for i in VIDS_], *at)
        for tg, ta in TAGS.items():
            add('C33', 'enum', [Vr(i, 'newtype', [F('', 'A')]) for i in VIDS[:6]], *at, *ta)
            if ns is s and r:
                add('C33', 'enum', [Vr('FooBar', 'struct', [F(i, 'A') for i in IDS[:8]])], *at, *ta)
                add('C33', 'enum', [Vr('FooBar', 'struct', [F(i, 'A') for i in IDS[:8]])], ns('rename_all_fields', r), *ta)
                add('C33', 'enum', [Vr('FooBar', 'struct', [F(i, 'A') for i in IDS[:8]], ns('rename_all', r))], *ta)
            elif r and tg == 'ext':
                add('C33', 'enum', [Vr('FooBar', 'struct', [F(i, 'A') for i in IDS[:8]])], ns('rename_all_fields', r), *ta)
                add('C33', 'enum', [Vr('FooBar', 'struct', [F(i, 'A') for i in IDS[:8]], ns('rename_all', r))], *ta)
for i, r in enumerate(RULES):
    q = RULES[(i + 3) % 8]
    for tg, ta in TAGS.items():
        add('C33', 'enum', [Vr('FooBar', 'struct', [F('foo_bar', 'A'), F('b_c', 'B', rn('X_y'))]), Vr('BarBaz', 'struct', [F('foo_bar', 'A')], s('rename_all', q)), Vr('QuxQ', 'unit', (), rn('q q'))],
            s('rename_all', r), s('rename_all_fields', RULES[(i + 5) % 8]), *ta)
    add('C33', 'struct', [F('foo_bar', 'A'), F('b_c', 'B', rn('X_y')), F('d_e', 'C', x('rename', 'D e'))], s('rename_all', {'serialize': r, 'deserialize': q}))
    add('C33', 'struct', [F('foo_bar', 'A'), F('b_c', 'B')], s('rename_all', {'serialize': r}))
    add('C33', 'struct', [F('foo_bar', 'A'), F('b_c', 'B')], s('rename_all', {'deserialize': r}))
    add('C33', 'enum', [Vr('FooBar'), Vr('BcDe', 'newtype', [F('', 'A')]), Vr('EfGh', 'struct', [F('foo_bar', 'A')])], s('rename_all', {'serialize': r, 'deserialize': q}))
    add('C33', 'enum', [Vr('FooBar'), Vr('EfGh', 'struct', [F('foo_bar', 'A')]), Vr('IjKl', 'struct', [F('foo_bar', 'A')], s('rename_all', {'serialize': q}))], s('rename_all_fields', {'deserialize': r}))
    add('C33', 'enum', [Vr('EfGh', 'struct', [F('foo_bar', 'A')], s('rename_all', {'serialize': q, 'deserialize': r}))], s('rename_all_fields', {'deserialize': r}))
NMS = ['n', 'N m', 'é', '"q"', 'a\\b', 'a/b~c', '$ref', 'type', 'properties', '', '{x}', '%41', 'line\nbreak', 'f0', ' lead', 'trail ', '\t', '  ', 'UPPER', 'a  b', '\u00a0n', '_', 'r#type', '\u0130']
for v in NMS:
    add('C33', 'struct', [F('f0', 'A', rn(v)), F('f1', 'B')])
    for tg, ta in TAGS.items():
        add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')], rn(v)), Vr('Vb', 'unit', (), rn(v + '2'))], *ta)
    if v != '':
        add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')]), Vr('Vb', 'unit')], s('tag', v))
        add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')]), Vr('Vb', 'unit')], s('tag', v + 't'), s('content', v))
        add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')]), Vr('Vb', 'unit')], x('tag', v), x('content', v + 'c'))
PER = [{'serialize': 'sx', 'deserialize': 'dx'}, {'serialize': 'sx'}, {'deserialize': 'dx'}, {'deserialize': 'b', 'serialize': 'q'}]
for v in PER:
    add('C33', 'struct', [F('a', 'A', rn(v)), F('c', 'B')])
    add('C33', 'struct', [F('a', 'A', x('rename', v)), F('c', 'B')], s('rename_all', 'UPPERCASE'))
    add('C33', 'struct', [F('a', 'A', rn('zz'), x('rename', v)), F('c', 'B')])
    for tg, ta in TAGS.items():
        add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')], rn(v)), Vr('Vb', 'unit', (), rn({'serialize': 'us', 'deserialize': 'ud'})), Vr('Vc', 'struct', [F('a', 'A', rn(v))])], *ta)
add('C33', 'struct', [F('a', 'A', rn('sn'), x('rename', 'xn')), F('c', 'B', rn('sn2'), x('!rename'))], s('rename_all', 'UPPERCASE'), x('rename_all', 'PascalCase'))
add('C33', 'struct', [F('a_b', 'A')], s('rename_all', 'UPPERCASE'), x('!rename_all'))
add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')]), Vr('Vb')], s('tag', 'x'), x('tag', 'y'))
add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')]), Vr('Vb')], s('tag', 'x'), s('content', 'c'), x('content', 'y'))
add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')]), Vr('Vb')], s('untagged'), x('!untagged'))
add('C33', 'enum', [Vr('Va', 'newtype', [F('', 'A')]), Vr('Vb')], s('tag', 'x'), x('!tag'))

# ---------------------------------------------------------------- C34: representations
PAY = {'unit': lambda: Vr('U', 'unit'), 'new': lambda: Vr('N', 'newtype', [F('', 'A')]), 'tup': lambda: Vr('T', 'tuple', [F('', 'A'), F('', 'B')]), 'tup0': lambda: Vr('T0', 'tuple', []),
       'st': lambda: Vr('S', 'struct', [F('a', 'A'), F('b', 'Option<A>')]), 'st0': lambda: Vr('S0', 'struct', []), 'newopt': lambda: Vr('NO', 'newtype', [F('', 'Option<A>')]), 'newunit': lambda: Vr('NU', 'newtype', [F('', '()')]),
       'newrec': lambda: Vr('NI', 'newtype', [F('', 'Inner1')]), 'newbool': lambda: Vr('NB', 'newtype', [F('', 'TT')]), 'tup1': lambda: Vr('T1', 'tuple', [F('', 'A', ), F('', 'B', s('skip'))])}
for tg, ta in TAGS.items():
    for k in PAY:
        if tg == 'int' and k in ('tup', 'tup0', 'tup1'): continue
        add('C34', 'enum', [PAY[k]()], *ta)
        for u in ('w', 'd'):
            v = PAY[k]()
            if u == 'd': v.doc = ' Docs.'
            else:
                if tg == 'un': continue
                v.attrs.append(s('untagged'))
            add('C34', 'enum', ([PAY['unit'](), v] if k != 'unit' else [PAY['new'](), v]), *ta)
    ks = [k for k in PAY if not (tg == 'int' and k.startswith('tup'))]
    for a, b in itertools.combinations(ks, 2):
        add('C34', 'enum', [PAY[a](), PAY[b]()], *ta)
    add('C34', 'enum', [PAY[k]() for k in ks], *ta)
    add('C34', 'enum', [PAY[k]() for k in ks[::-1]], *ta)
    add('C34', 'enum', [Vr('U1'), Vr('U2'), Vr('U3')], *ta)
    add('C34', 'enum', [Vr('U1'), Vr('N', 'newtype', [F('', 'A')]), Vr('U2'), Vr('U3', doc=' x'), Vr('U4')], *ta)
    add('C34', 'enum', [Vr('U1', doc=' x'), Vr('U2', doc=' y')], *ta)
    add('C34', 'enum', [Vr('U1', 'unit', (), x('title', 't')), Vr('U2')], *ta)
    add('C34', 'enum', [Vr('U1', dep=True), Vr('U2')], *ta)
    add('C34', 'enum', [Vr('U1', 'unit', (), x('with', 'A')), Vr('U2', 'unit', (), x('schema_with', 'sw1')), Vr('N', 'newtype', [F('', 'A')], x('with', 'B')), Vr('T', 'struct', [F('a', 'A')], x('schema_with', 'sw1'))], *ta)
    add('C34', 'enum', [Vr('N', 'newtype', [F('', 'A', x('with', 'B'))]), Vr('N2', 'newtype', [F('', 'A', x('schema_with', 'sw1'))]), Vr('N3', 'newtype', [F('', 'A', doc=' fd')], doc=' vd')], *ta)
for t_ in ('Deny1', 'Uneval1', 'Nested1', 'UnitS', 'Refd', 'MapS', 'InlineS', 'TT', 'FF', 'Option<A>', 'D', 'Box<Deny1>', 'NestedDeep', 'Req1'):
    add('C34', 'enum', [Vr('N', 'newtype', [F('', t_)]), Vr('U')], s('tag', 'tg'))
    add('C34', 'enum', [Vr('N', 'newtype', [F('', t_)]), Vr('U')], s('tag', 'tg'), s('deny_unknown_fields'))
    add('C34', 'enum', [Vr('N', 'newtype', [F('', t_)]), Vr('U')])
    add('C34', 'enum', [Vr('N', 'newtype', [F('', t_)]), Vr('U')], s('tag', 'tg'), s('content', 'ct'))
    add('C34', 'enum', [Vr('N', 'newtype', [F('', 'A')], x('with', t_))], s('tag', 'tg'))

# ---------------------------------------------------------------- C35: unknown fields
for d in ((), (s('deny_unknown_fields'),), (x('deny_unknown_fields'),), (s('deny_unknown_fields'), x('!deny_unknown_fields'))):
    for fl in (None, 'Inner1', 'Deny1', 'Enum1', 'Refd', 'MapS', 'Option<Inner1>', 'Option<Enum1>', 'TT', 'UnEnum', 'Uneval1', 'Nested1'):
        fs = [F('a', 'A'), F('b', 'B')]
        if fl:
            if d == (s('deny_unknown_fields'),): continue          # serde rejects deny_unknown_fields with flatten at run time only for some; covered by the schemars attribute
            fs.insert(1, F('fl', fl, s('flatten')))
        add('C35', 'struct', fs, *d)
        if fl: add('C35', 'struct', [F('fl', fl, s('flatten'))], *d)
        for tg, ta in TAGS.items():
            if fl in (None, 'Inner1', 'Deny1', 'Enum1', 'Refd'):
                add('C35', 'enum', [Vr('S', 'struct', fs), Vr('U'), Vr('N', 'newtype', [F('', 'A')])], *d, *ta)
    for tg, ta in TAGS.items():
        add('C35', 'enum', [Vr('S', 'struct', []), Vr('U', 'unit', doc=' d'), Vr('NU', 'newtype', [F('', '()')]), Vr('NI', 'newtype', [F('', 'Deny1')]), Vr('NR', 'newtype', [F('', 'Inner1')])], *d, *ta)
        if tg != 'un':
            add('C35', 'enum', [Vr('S', 'struct', [F('a', 'A')]), Vr('S2', 'struct', [F('a', 'A')], s('untagged')), Vr('N2', 'newtype', [F('', 'Deny1')], s('untagged'))], *d, *ta)
        if tg != 'int':
            add('C35', 'enum', [Vr('T', 'tuple', [F('', 'A'), F('', 'B')]), Vr('S', 'struct', [F('a', 'A')])], *d, *ta)
    add('C35', 'newtype', [F('', 'Inner1')], *d)
    add('C35', 'tuple', [F('', 'Inner1'), F('', 'A')], *d)

# ---------------------------------------------------------------- C36: flattening
FLAT = ['Inner1', 'Inner2', 'InnerO', 'Deny1', 'Uneval1', 'Enum1', 'Enum2', 'UnEnum', 'UnitEnum', 'TagEnum', 'MixEnum', 'Refd', 'MapS', 'TT', 'FF', 'A', 'Nested1', 'NestedDeep', 'PatS']
for t_ in FLAT:
    for o in ('%s', 'Option<%s>', 'Box<%s>'):
        ty = o % t_
        add('C36', 'struct', [F('a', 'A'), F('fl', ty, s('flatten')), F('b', 'B')])
        add('C36', 'struct', [F('fl', ty, x('flatten'))])
        if o != '%s':
            add('C36', 'struct', [F('a', 'A'), F('fl', ty, s('flatten'), x('required'))])
        if o == '%s':
            add('C36', 'enum', [Vr('S', 'struct', [F('a', 'A'), F('fl', ty, s('flatten'))])])
            add('C36', 'enum', [Vr('S', 'struct', [F('a', 'A'), F('fl', ty, s('flatten'))])], s('tag', 'tg'))
            add('C36', 'struct', [F('fl', 'A', s('flatten'), x('with', ty))])
            add('C36', 'struct', [F('p', ty, s('flatten'), rn('zz'))])
            add('C36', 'struct', [F('p', ty, s('flatten'), s('default'))])
for a, b in itertools.product(FLAT, FLAT):
    add('C36', 'struct', [F('a', 'A'), F('f1', a, s('flatten')), F('f2', b, s('flatten'))])
for a, b in itertools.product(['Enum1', 'UnEnum', 'Inner1', 'MapS'], ['Enum2', 'UnEnum', 'Inner2', 'Nested1']):
    add('C36', 'struct', [F('f1', 'Option<%s>' % a, s('flatten')), F('f2', b, s('flatten')), F('z', 'A')])
    add('C36', 'struct', [F('f1', 'Option<%s>' % a, s('flatten')), F('f2', 'Option<%s>' % b, s('flatten')), F('z', 'A')])
    add('C36', 'struct', [F('f1', a, s('flatten')), F('f2', b, s('flatten')), F('f3', 'Enum1', s('flatten'))])
add('C36', 'struct', [F('a', 'A', s('flatten'), x('schema_with', 'sw_obj')), F('b', 'B')])
add('C36', 'struct', [F('a', 'A'), F('b', 'Inner1', s('flatten'), x('!flatten'))])

# ---------------------------------------------------------------- C37: metadata
DOCS_ = [None, ' A doc.', ' # Title\n\n Body text\n more.', ' # Only title', '']
COMMON = [(), (x('title', 'T1'),), (x('description', 'D1'),), (x('title', 'T1'), x('description', 'D1')), (x('example', Raw('8')),), (x('example', Raw('8')), x('example', Raw('mk_ex()'))), (x('extend', [('x-a', '1'), ('title', '"XT"')]),),
          (x('transform', Raw('tr1')),), (x('title', ''),), (x('title', Raw('TITLE_C')), x('description', Raw('DESC_C'))), (x('extend', [('x-a', '{"k": [1, null]}')]), x('extend', [('x-b', 'true')]), x('transform', Raw('tr1')), x('transform', Raw('tr2'))),
          (x('description', ''),), (s('title', 'ST'),) if False else (x('example', Raw('&"str lit"')),)]
for d in DOCS_:
    for cm in COMMON:
        for dep in (False, True):
            if dep and (d == '' or len(cm) > 2): continue
            add('C37', 'struct', [F('a', 'A'), F('b', 'B', *cm, doc=d, dep=dep)])
            add('C37', 'struct', [F('a', 'A')], *cm, doc=d, dep=dep)
            if not dep:
                add('C37', 'tuple', [F('', 'A'), F('', 'B', *cm, doc=d)], doc=' outer')
                add('C37', 'newtype', [F('', 'A', *cm, doc=d)])
                add('C37', 'newtype', [F('', 'A')], *cm, doc=d)
                add('C37', 'unit', (), *cm, doc=d)
                if d != '':
                    add('C37', 'newtype', [F('', 'A')], s('transparent'), *cm, doc=d)
                    add('C37', 'newtype', [F('', 'A', *cm, doc=d)], s('transparent'))
                add('C37', 'enum', [Vr('Va'), Vr('Vb', 'newtype', [F('', 'A')])], *cm, doc=d)
                for tg, ta in TAGS.items():
                    if d == '': continue
                    add('C37', 'enum', [Vr('Va', 'unit', (), *cm, doc=d), Vr('Vb', 'newtype', [F('', 'A')], *cm, doc=d), Vr('Vc', 'struct', [F('q', 'B', *cm, doc=d)], *cm, doc=d)], *ta)
            else:
                add('C37', 'enum', [Vr('Va', 'unit', (), *cm, doc=d, dep=True), Vr('Vb', 'newtype', [F('', 'A')])])
for t_ in ('TT', 'FF', 'Refd', 'Option<A>'):
    for cm in COMMON:
        add('C37', 'struct', [F('a', t_, *cm, doc=' Field doc.')])
DV = [('u32', 'dflt_u'), ('String', 'dflt_s'), ('bool', 'dflt_b'), ('Option<u32>', 'dflt_ou'), ('A', 'dflt_a'), ('NoSer', 'dflt_ns'), ('FailSer', 'dflt_fs'), ('Vec<u32>', 'dflt_v')]
add('C37', 'struct', [F('f%d' % i, t_, s('default')) for i, (t_, _) in enumerate(DV)])
add('C37', 'struct', [F('f%d' % i, t_, s('default', fn)) for i, (t_, fn) in enumerate(DV)])
add('C37', 'struct', [F('f%d' % i, t_, x('default', fn)) for i, (t_, fn) in enumerate(DV)])
add('C37', 'struct', [F('f%d' % i, t_) for i, (t_, fn) in enumerate(DV)], s('default'), derive='JsonSchema, Default')
add('C37', 'struct', [F('f0', 'u32'), F('f1', 'String'), F('f2', 'u32', s('default', 'dflt_u')), F('f3', 'u32', s('default'))], s('default'), name='W37_own', meth=('own_default',))
add('C37', 'struct', [F('f0', 'u32'), F('f1', 'String'), F('f2', 'u32', s('default', 'dflt_u'))], s('default', 'mk_w37'), name='W37_path')
for sk in SKIPS[1:5]:
    add('C37', 'struct', [F('f0', 'u32', s('default', 'dflt_u'), *sk), F('f1', 'String', s('default'), *sk)])
    add('C37', 'struct', [F('f0', 'u32', *sk), F('f1', 'String', *sk)], s('default'), derive='JsonSchema, Default')
for si in ('sif_u', 'sif_u_true'):
    add('C37', 'struct', [F('f0', 'u32', s('default', 'dflt_u'), s('skip_serializing_if', si)), F('f1', 'u32', s('default'), s('skip_serializing_if', si)), F('f2', 'u32', s('skip_serializing_if', si))])
    add('C37', 'struct', [F('f0', 'u32', s('default', 'dflt_u'), s('skip_serializing_if', si)), F('f1', 'u32', s('skip_serializing_if', si))], s('default'), derive='JsonSchema, Default')
add('C37', 'struct', [F('f0', 'u32', s('default', 'dflt_u'), s('serialize_with', 'ser_str')), F('f1', 'u32', s('default'), s('serialize_with', 'ser_str')), F('f2', 'NoSer', s('default'), s('serialize_with', 'ser_ns'))])
add('C37', 'struct', [F('f0', 'u32', s('default', 'dflt_u'), doc=' d'), F('f1', 'u32', s('default'), x('extend', [('default', '99')]))])
for tg, ta in TAGS.items():
    add('C37', 'enum', [Vr('S', 'struct', [F('f0', 'u32', s('default', 'dflt_u')), F('f1', 'String', s('default')), F('f2', 'bool')])], *ta)
add('C37', 'struct', [F('a', 'Inner1', s('flatten'), x('title', 'ft'), doc=' fd'), F('b', 'B')])

# ---------------------------------------------------------------- C39: validation
VT = ['String', 'u32', 'i32', 'f64', 'bool', 'Vec<String>', 'Vec<u32>', 'Option<String>', 'Option<u32>', 'Option<Vec<String>>', 'A', 'Refd', 'TT', 'MultiT', 'Constrained', 'Vec<Vec<String>>', 'TupS']
VA = [[('length', [('min', Raw('1')), ('max', Raw('10'))])], [('length', [('min', Raw('3'))])], [('length', [('max', Raw('7'))])], [('length', [('equal', Raw('5'))])], [('length', [('min', Raw('MIN_C')), ('max', Raw('MAX_C'))])],
      [('range', [('min', Raw('-5')), ('max', Raw('100'))])], [('range', [('min', Raw('2.5'))])], [('range', [('max', Raw('0'))])], [('range', [('min', Raw('MIN_C'))])],
      [('length', [('min', Raw('0')), ('max', Raw('0'))])]]
for ns in (x, val, gar):
    for a in VA:
        add('C39', 'struct', [F('f%d' % i, t_, *[ns(k, v) for k, v in a]) for i, t_ in enumerate(VT)])
    for f in ('email', 'url', 'ip', 'ipv4', 'ipv6'):
        add('C39', 'struct', [F('f%d' % i, t_, ns(f)) for i, t_ in enumerate(VT)])
    add('C39', 'struct', [F('f%d' % i, t_, ns('required')) for i, t_ in enumerate(VT) if t_.startswith('Option')])
    add('C39', 'struct', [F('f%d' % i, t_, ns('required'), ns('length', [('min', Raw('4'))]), ns('range', [('max', Raw('4'))])) for i, t_ in enumerate(VT) if t_.startswith('Option')])
    add('C39', 'struct', [F('f%d' % i, t_, ns('length', [('min', Raw('1'))]), ns('range', [('min', Raw('1')), ('max', Raw('9'))]), ns('email')) for i, t_ in enumerate(VT)])
for t_ in ('String', 'u32', 'Option<String>', 'MultiT', 'Constrained', 'TT', 'Vec<String>'):
    add('C39', 'struct', [F('f0', t_, x('regex', [('pattern', '^a+$')])), F('f1', t_, x('regex', [('pattern', Raw('RE_C'))])), F('f2', t_, val('regex', [('path', Raw('RE_C'))])), F('f3', t_, gar('pattern', ('^g$',))),
                          F('f4', t_, x('contains', [('pattern', 'a.b')])), F('f5', t_, gar('contains', ('c+d',))), F('f6', t_, val('contains', [('pattern', 'e*f')])), F('f7', t_, x('pattern', ('^p',))), F('f8', t_, x('contains', ('q?',)))])
for ia in ([('length', [('min', Raw('2'))])], [('email', None)], [('range', [('min', Raw('1')), ('max', Raw('3'))])], [('pattern', ('^i$',))], [('contains', ('z.',))], [('inner', [('length', [('max', Raw('4'))])])], [('length', [('equal', Raw('2'))]), ('url', None)]):
    for ns in (x, gar):
        add('C39', 'struct', [F('f%d' % i, t_, ns('inner', ia)) for i, t_ in enumerate(VT)])
        add('C39', 'struct', [F('f%d' % i, t_, ns('length', [('max', Raw('9'))]), ns('inner', ia)) for i, t_ in enumerate(VT)])
for tg, ta in TAGS.items():
    add('C39', 'enum', [Vr('N', 'newtype', [F('', 'String' if tg != 'int' else 'Refd', x('length', [('min', Raw('1'))]))]), Vr('S', 'struct', [F('a', 'String', x('length', [('max', Raw('6'))]))])], *ta)
add('C39', 'tuple', [F('', 'String', x('length', [('min', Raw('1'))])), F('', 'u32', x('range', [('max', Raw('5'))]))])
add('C39', 'newtype', [F('', 'String', x('length', [('min', Raw('1'))]))])
add('C39', 'newtype', [F('', 'String', x('email'))], s('transparent'))
add('C39', 'struct', [F('a', 'String', x('length', [('min', Raw('1'))]), val('length', [('min', Raw('2')), ('max', Raw('3'))])), F('b', 'String', val('length', [('min', Raw('2'))]), gar('length', [('min', Raw('7'))])), F('c', 'u32', x('with', 'String'), x('length', [('min', Raw('1'))]))])

# ---------------------------------------------------------------- C48: proxies
for t_ in ('B', 'Option<A>', 'Refd', 'String'):
    add('C48', 'struct', [F('a', 'A', x('with', t_)), F('b', 'A', *([s('with', t_)] if '<' not in t_ else [])), F('c', 'A')])
    add('C48', 'tuple', [F('', 'A', x('with', t_)), F('', 'A')])
    add('C48', 'newtype', [F('', 'NoSchema', x('with', t_))])
    add('C48', 'newtype', [F('', 'NoSchema', x('with', t_))], s('transparent'))
    for tg, ta in TAGS.items():
        add('C48', 'enum', [Vr('Va', 'newtype', [F('', 'NoSchema')], x('with', t_)), Vr('Vb', 'newtype', [F('', 'NoSchema', x('with', t_))]), Vr('Vc', 'struct', [F('a', 'NoSchema', x('with', t_))])], *ta)
add('C48', 'struct', [F('a', 'NoSchema', x('schema_with', 'sw1')), F('b', 'A', x('schema_with', 'sup::sw2')), F('c', 'A', x('schema_with', 'sw_true'), doc=' d')])
for tg, ta in TAGS.items():
    add('C48', 'enum', [Vr('Va', 'newtype', [F('', 'NoSchema')], x('schema_with', 'sw1')), Vr('Vb', 'newtype', [F('', 'NoSchema', x('schema_with', 'sup::sw2'))]), Vr('Vc', 'struct', [F('a', 'NoSchema', x('schema_with', 'sw1'))])], *ta)
MET = ('name', 'id', 'inl', 'opt', 'np')
PX = [(s('from', 'B'),), (s('try_from', 'B'),), (s('into', 'C'),), (s('from', 'B'), s('into', 'C')), (s('try_from', 'B'), s('into', 'C')), (s('from', 'B'), x('!from')), (s('from', 'B'), x('from', 'C')), (s('into', 'C'), x('!into')), (x('from', 'B'), x('into', 'C')), (x('try_from', 'C'),)]
for px in PX:
    add('C48', 'struct', [F('a', 'A')], *px)
    add('C48', 'newtype', [F('', 'A')], *px)
    add('C48', 'tuple', [F('', 'A'), F('', 'B')], *px, doc=' docs')
    add('C48', 'enum', [Vr('Va'), Vr('Vb')], *px)
    add('C48', 'enum', [Vr('Va'), Vr('Vb', 'newtype', [F('', 'A')])], *px, s('tag', 'tg'), x('title', 'TT'))
    add('C48', 'unit', (), *px)
for k in ('with', 'schema_with'):
    v = 'B' if k == 'with' else 'sw1'
    for a in ((), (x('title', 'T1'),), (s('from', 'C'), s('into', 'C'))):
        add('C48', 'struct', [F('a', 'A')], x(k, v), *a, meth=MET)
        add('C48', 'enum', [Vr('Va'), Vr('Vb')], x(k, v), *a, meth=MET)
for it in ('A', 'D', 'Option<A>'):
    add('C48', 'newtype', [F('', it)], s('transparent'), meth=MET)
    add('C48', 'struct', [F('a', it)], s('transparent'), meth=MET)
    add('C48', 'struct', [F('a', it), F('b', 'std::marker::PhantomData<B>', s('skip'))], x('transparent'), meth=MET)
    add('C48', 'newtype', [F('', it)], s('transparent'), doc=' docs', meth=MET)
add('C48', 'struct', [F('a', 'A'), F('b', 'B')], s('remote', 'RemoteT'), meth=('name', 'id', 'inl'))
add('C48', 'struct', [F('a', 'A'), F('b', 'B')], s('remote', 'sup::RemoteT'), x('rename', 'RenamedR'), meth=('name', 'id', 'inl'))
add('C48', 'struct', [F('a', 'A'), F('b', 'B')], x('inline'), meth=('name', 'id', 'inl'))
add('C48', 'newtype', [F('', 'A')], meth=('name', 'id', 'inl', 'opt'))
add('C48', 'newtype', [F('', 'Option<A>')], meth=('name', 'id', 'inl', 'opt'))

# integers for enums
add('C34', 'enum', [Vr('Va'), Vr('Vb'), Vr('Vc')], name='Repr1', derive='schemars::JsonSchema_repr', pre='#[repr(u8)]')
add('C34', 'enum', [Vr('Va = -3'), Vr('Vb = 500')], name='Repr2', derive='schemars::JsonSchema_repr', pre='#[repr(i16)]', doc=' Docs.')

# ---------------------------------------------------------------- C38: doc comments
def L(t): return ('///' + t, t, True)                          # a /// line
def A_(v): return ('#[doc = %s]' % lit(v), v, True)              # a doc attribute with a string literal
def X_(src, v): return ('#[doc = %s]' % src, v, False)           # a doc attribute with another expression
def R_(src): return (src, None, False)                          # not documentation
def B_(t): return ('/**%s*/' % t, t, True)
DOCS38 = [
    [L(' one')], [L('no space')], [L('  two spaces')], [L('\ttab')], [L(' a'), L(' b')], [L(' a'), L(''), L(' b')], [L(' a'), L(''), L(''), L(' b'), L(''), L(' c')],
    [L(''), L(' a'), L('')], [L(' a   '), L(' b\t')], [L(' - x'), L('   - y'), L(' - z')], [L(' ```'), L('     code'), L(' ```')], [L(' a'), L('  b'), L('c')],
    [L(' # T')], [L(' # T'), L(' d')], [L(' # T'), L(''), L(' d'), L(''), L(' e')], [L(' #T'), L(' d')], [L(' ## T 2 '), L(' # d')], [L(' #')], [L(' #'), L(' d')], [L(' # #T# #'), L(' d')], [L(' ###### x'), L(''), L(' # y')],
    [L(' d'), L(' # T')], [L(''), L(' # T'), L(' d')], [L('# T'), L('d')], [L('   # T'), L(' d')], [L(' \\# T'), L(' d')], [L(' #\tT\t'), L(' d')], [L(' # T  with   spaces'), L('     d')],
    [A_('x')], [A_(' x')], [A_('  x  ')], [A_('a\nb')], [A_(' a\n b\n\n c')], [A_('# T\nd')], [A_(' # T\r\n d\r\n e')], [A_(''), A_('')], [A_('\n\n')], [A_(' '), L(' x'), A_('\t')],
    [X_('concat!(" a", " b")', ' a b')], [X_('concat!("# T", "\\n", "d")', '# T\nd')], [L(' a'), X_('concat!(" b")', ' b'), L(' c')], [X_('stringify!(q)', 'q')], [X_('r"raw \\n x"', 'raw \\n x')],
    [L(' a'), R_('#[doc(hidden)]'), L(' b')], [R_('#[doc(alias = "zz")]'), L(' b')], [L(' a'), R_('#[allow(dead_code)]'), L(' b'), R_('#[cfg(not(any()))]'), L(' c')],
    [L(' é ü — “q” \U0001f600'), L(' ＃ x')], [L(' \u00a0nbsp\u00a0')], [L(' "quotes" \\ back {braces} %s')], [A_('\x0bvt\x0b')], [A_('\x0cff\x0c')], [A_('\u2003em')], [L(' # \u00e9t\u00e9'), L(' \u00e0')],
    [L(' <b>x</b> [`link`](u) *e* _f_')], [L(' a  '), L(' b')], [L(' line%d' % i) for i in range(40)], [L(' # ' + 'x' * 300)] + [L(' ' + 'y' * i) for i in range(0, 200, 25)],
    [B_(' block ')], [B_(' # T\n d\n')], [B_('\n a\n b\n')], [L(' # T'), A_('d'), L(' e')], [L(' # T'), L('   '), L(' \t'), L(' d')], [L(' #1 not a space'), L(' d')], [L(' a'), L(' '), L('  '), L(' b')],
]
for i, d in enumerate(DOCS38):
    add('C38', 'struct', [F('a', 'A', doc=d), F('b', 'B')], doc=d)
    add('C38', 'enum', [Vr('Va', 'newtype', [F('', 'A')], doc=d), Vr('Vb')], doc=d)
    if i % 4 == 0:
        add('C38', 'tuple', [F('', 'A', doc=d), F('', 'B')], doc=d)
        add('C38', 'unit', (), doc=d)
        for tg, ta in TAGS.items():
            add('C38', 'enum', [Vr('Va', 'unit', (), doc=d), Vr('Vb', 'struct', [F('a', 'A', doc=d)], doc=d)], *ta)

# ---------------------------------------------------------------- C40: literal text in patterns
T40 = [chr(i) for i in range(1, 128)] + ['', '\x00', 'é', 'ß', '\u00a0', '\u2028', '\u2029', '\ufeff', '\uffff', '\ud7ff', '\ue000', '\U0001f600', '\U0010ffff', 'a.b', '..', '\\', '\\\\', '\\d', '^$', '^a$', '(?i)x', '[a-z]', 'a{2,3}', 'x*y+z?', '$1', '(a|b)',
       'a\nb', '\t.\t', '  ', '/*', '//', '#{}', 'x-y_z', '~!@#%&=;:,<>\'"`', '\\Q.*\\E', '.' * 70, 'ab.' * 50, 'é.é', '.é', 'é.', '\U0001f600+\U0001f600', '\x7f.', 'A.Z']
T40 = [t.replace('\x00', chr(0)) for t in T40]
for ns, wrap in ((x, lambda t: [('pattern', t)]), (val, lambda t: [('pattern', t)]), (gar, lambda t: (t,)), (x, lambda t: (t,))):
    for i in range(0, len(T40), 15):
        add('C40', 'struct', [F('f%d' % k, 'String', ns('contains', wrap(t))) for k, t in enumerate(T40[i:i + 15])])
add('C40', 'struct', [F('a', 'String', x('contains', (Raw('concat!("a.", "b*")'),))), F('b', 'String', x('contains', (Raw('TXT_C'),))), F('c', 'Option<String>', x('contains', ('q|r',))), F('d', 'Vec<String>', x('inner', [('contains', ('s.t',))]))])
add('C40', 'newtype', [F('', 'String', x('contains', ('u.v',)))])
add('C40', 'enum', [Vr('N', 'newtype', [F('', 'String', x('contains', ('w.x',)))]), Vr('S', 'struct', [F('f', 'String', x('contains', ('y.z',)))])])
add('C40', 'newtype', [F('', 'String', x('contains', ('t.t',)))], s('transparent'))

# ---------------------------------------------------------------- C45: merging (the documents of the M types vary per scenario)
for n_ in (2, 3):
    add('C45', 'struct', [F('m%d' % i, 'M%d' % i, s('flatten')) for i in range(n_)], name='W45_%d' % n_)
add('C45', 'struct', [F('a', 'A'), F('m0', 'M0', s('flatten')), F('b', 'Option<B>'), F('m1', 'M1', s('flatten'))], name='W45_p')
add('C45', 'struct', [F('a', 'A'), F('m0', 'M0', s('flatten'))], x('deny_unknown_fields'), name='W45_d')
add('C45', 'enum', [Vr('V', 'struct', [F('m0', 'M0', s('flatten')), F('m1', 'M1', s('flatten'))])], name='W45_e')
add('C45', 'enum', [Vr('V', 'struct', [F('m0', 'M0', s('flatten')), F('m1', 'M1', s('flatten'))])], s('tag', 'tg'), name='W45_i')
