"""More derive witnesses: coinciding and odd names, attributes in combination (see dspec)."""
import random, itertools
from .dspec import *
from .dspec import W

# ---------------------------------------------------------------- names that coincide or look special
ODD = ['', 'tg', 'ct', 'type', 'required', 'properties', '$ref', 'const', 'additionalProperties', 'Va', 'null', '#', '/', '~', 'oneOf', 'enum']
DENY = ((), (s('deny_unknown_fields'),))
for o in ODD:
    for tg, ta in TAGS.items():
        for d in DENY:
            P = ('C31', 'C32', 'C33', 'C34', 'C35')
            n2 = o + '2'
            f = lambda ty, *a: F('fa', ty, *a, *([rn(o)] if not (tg == 'int' and o == 'tg') else []))
            add(P, 'enum', [Vr('Va', 'struct', [f('A')]), Vr('Vb', 'struct', [f('Option<A>')]), Vr('Vc', 'struct', [f('A', s('default')), F('fb', 'B')])], *ta, *d)
            add(P, 'enum', [Vr('Va', 'unit', (), rn(o)), Vr('Vb', 'newtype', [F('', 'Inner1')], rn(n2))], *ta, *d)
            add(P, 'enum', [Vr('Va', 'struct', [], rn(o)), Vr('Vb', 'newtype', [F('', '()')], rn(n2)), Vr('Vc', 'unit', (), doc=' d')], *ta, *d)
            add(P, 'enum', [Vr('Va', 'newtype', [F('', 'Deny1')], rn(o)), Vr('Vb', 'struct', [F('fa', 'A')], rn(n2)), Vr('Vc', 'unit', (), rn(o + '3'), s('skip_serializing'))], *ta, *d)
    for d in DENY:
        add(('C31', 'C32', 'C33', 'C35'), 'struct', [F('fa', 'A', rn(o)), F('fb', 'Option<B>'), F('fc', 'A', rn(o + 'x'), s('skip_deserializing'))], *d)
    for dr in ('serialize', 'deserialize'):
        add(('C31', 'C32', 'C33'), 'struct', [F('fa', 'A', rn({dr: o}), s('skip_serializing_if', 'sif')), F('fb', 'Option<B>', rn({dr: o + '1'}))])
    if o:
        for v, tp in ((o, 'unit'), (o + 'q', 'unit'), (o, 'struct')):
            add(('C33', 'C34', 'C35'), 'enum', [Vr('Vx', tp, [F('z', 'A')] if tp == 'struct' else (), rn(v)), Vr('Vy', 'newtype', [F('', 'Inner1')])], s('tag', o), s('deny_unknown_fields'))
            add(('C33', 'C34', 'C35'), 'enum', [Vr('Vx', tp, [F('z', 'A')] if tp == 'struct' else (), rn(v)), Vr('Vy', 'newtype', [F('', 'Inner1')])], s('tag', o + 'k'), s('content', o), s('deny_unknown_fields'))
            add(('C33', 'C34', 'C35'), 'enum', [Vr('Vx', tp, [F('z', 'A')] if tp == 'struct' else (), rn(v)), Vr('Vy', 'newtype', [F('', 'Inner1')])], s('tag', o), s('content', o + 'k'))
add(('C34', 'C36'), 'struct', [F('a', 'Inner1', rn('i1')), F('fl', 'Inner1', s('flatten'))])
for d in ((), (x('deny_unknown_fields'),)):
    add(('C34', 'C36', 'C33'), 'struct', [F('fl', 'Inner1', s('flatten')), F('q', 'B', rn('shared')), F('fm', 'Inner2', s('flatten'))], *d)

# ---------------------------------------------------------------- flattening with other attributes
FT = ['NoUnit', 'NoMix', 'SomeMix', 'Inner1', 'InnerO', 'Enum1', 'UnEnum', 'Deny1', 'MapS', 'OneUn', 'OneEx', 'OneTag', 'OneUnit', 'UnitEnum', 'NullUn', 'MixEnum', 'Opt2']
for t_ in FT:
    for o in ('%s', 'Option<%s>', 'Box<%s>', 'Option<Box<%s>>', 'Box<Option<%s>>', 'Option<Option<%s>>'):
        ty = o % t_
        add(('C36', 'C32'), 'struct', [F('a', 'A'), F('fl', ty, s('flatten'))])
        if o in ('%s', 'Option<%s>'):
            for sk in SKIPS[1:12]:
                add(('C31', 'C36'), 'struct', [F('a', 'A'), F('fl', ty, s('flatten'), *sk), F('b', 'B')])
                if sk in SKIPS[2:4]:
                    add(('C31', 'C36'), 'struct', [F('a', 'A'), F('fl', 'A', s('flatten'), x('with', ty), *sk), F('b', 'B')])
                    add(('C31', 'C36'), 'struct', [F('a', 'A'), F('fl', ty, s('flatten'), s('default'), *sk)])
                    for tg, ta in TAGS.items():
                        add(('C31', 'C36'), 'enum', [Vr('S', 'struct', [F('a', 'A'), F('fl', ty, s('flatten'), *sk)]), Vr('S2', 'struct', [F('fl', 'A', s('flatten'), x('with', ty), *sk)], *sk)], *ta)
            for ex in ((s('default'),), (s('skip_serializing_if', 'sif'),), (s('default'), s('skip_serializing_if', 'sif')), (x('title', 'ft'),), (rn('zz'), s('default'))):
                add(('C32', 'C36'), 'struct', [F('a', 'Option<A>', *ex), F('fl', ty, s('flatten'), *ex), F('b', 'B')])
            add(('C32', 'C36'), 'struct', [F('a', 'A'), F('fl', ty, s('flatten'))], s('default'), derive='JsonSchema, Default')
            add(('C32', 'C36'), 'struct', [F('fl', ty, s('flatten')), F('fm', ty, s('flatten'))], s('rename_all', 'UPPERCASE'))
for sk in SKIPS[1:5]:
    add(('C31', 'C36'), 'struct', [F('a', 'A', s('flatten'), x('schema_with', 'sw_obj'), *sk), F('b', 'B')])
    add(('C31', 'C48'), 'struct', [F('a', 'NoSchema', x('schema_with', 'sw1'), *sk), F('b', 'NoSchema', x('with', 'B'), *sk), F('c', 'Option<A>', x('with', 'Option<B>'), *sk)])
    add(('C31', 'C48'), 'tuple', [F('', 'NoSchema', x('schema_with', 'sw1'), *sk), F('', 'NoSchema', x('with', 'B'), *sk), F('', 'A')])
    add(('C31', 'C48'), 'newtype', [F('', 'NoSchema', x('with', 'B'), *sk)])
    for tg, ta in TAGS.items():
        add(('C31', 'C48'), 'enum', [Vr('Va', 'newtype', [F('', 'NoSchema')], x('with', 'B'), *sk), Vr('Vb', 'newtype', [F('', 'NoSchema')], x('schema_with', 'sw1'), *sk), Vr('Vc', 'struct', [F('a', 'NoSchema', x('with', 'B'), *sk), F('b', 'B')]), Vr('Vd')], *ta)

# ---------------------------------------------------------------- proxies in transparent types, and with other attributes
for ex in ((), (x('title', 'T1'),), (x('length', [('min', Raw('1'))]),), (x('extend', [('x-a', '1')]),)):
    for k, v in (('with', 'B'), ('with', 'Option<A>'), ('with', 'Refd'), ('schema_with', 'sw1'), ('schema_with', 'sw_true')):
        add('C48', 'struct', [F('a', 'NoSchema', x(k, v), *ex)], s('transparent'))
        add('C48', 'newtype', [F('', 'NoSchema', x(k, v), *ex)], x('transparent'))
        add('C48', 'newtype', [F('', 'NoSchema', x(k, v))], x('transparent'), *ex[:1] if not ex or ex[0][1] != 'length' else ())
        add('C48', 'newtype', [F('', 'NoSchema', x(k, v), *ex, doc=' # Tt\n d')], doc=' od')
        add('C48', 'struct', [F('a', 'NoSchema', x(k, v), *ex, s('default'), doc=' fd'), F('b', 'NoSchema', x(k, v), *ex, s('skip_serializing_if', 'sif')), F('c', 'NoSchema', x(k, v), rn('cc'))], derive='JsonSchema, Default')
        for tg, ta in TAGS.items():
            e2 = ex if not ex or ex[0][1] != 'length' else ()
            add('C48', 'enum', [Vr('Va', 'newtype', [F('', 'NoSchema')], x(k, v), *e2, doc=' vd'), Vr('Vb', 'newtype', [F('', 'NoSchema', x(k, v), *ex, doc=' fd')], *e2), Vr('Vc', 'struct', [F('a', 'NoSchema', x(k, v), *ex)]), Vr('Vd', 'unit', (), x(k, v))], *ta)

# ---------------------------------------------------------------- random combinations
R = random.Random(20261119)
def pick(xs): return R.choice(xs)
def may(p): return R.random() < p
TYS = ['A', 'B', 'C', 'D', 'Option<A>', 'Option<B>', 'Box<A>', 'Box<Option<B>>', 'TT', 'Refd', 'Option<Refd>', 'String', 'u32', 'Option<String>', 'Option<u32>', 'Vec<String>', 'Inner1', 'MultiT', 'InlineS', 'bool', 'Vec<A>']
VALS_ = [x('length', [('min', Raw('1'))]), val('length', [('max', Raw('8'))]), gar('length', [('equal', Raw('3'))]), x('range', [('min', Raw('2'))]), val('range', [('min', Raw('1')), ('max', Raw('9'))]), x('email'), val('url'), gar('ipv4'),
         x('regex', [('pattern', '^r')]), x('contains', ('c.c',)), x('inner', [('length', [('min', Raw('1'))])]), gar('inner', [('range', [('max', Raw('5'))])])]
META_ = [x('title', 'Rt'), x('description', 'Rd'), x('example', Raw('8')), x('extend', [('x-r', '[1]')]), x('extend', [('title', '"Xt"')]), x('transform', Raw('tr1')), x('title', ''), x('extend', [('type', '"null"')]), x('extend', [('readOnly', 'false')])]
DOCR = [None, None, None, ' Doc r.', ' # Rt\n\n body', ' # Only']
TGS = list(TAGS.values())
def names(n): return R.sample(IDS[:10] + ['zz', 'q', 'w2'], n)
def vnames(n): return R.sample(VIDS[:7] + ['Zz', 'Q', 'W2'], n)

class G:
    """a random witness; `props` are the properties that the attributes it uses bear on"""
    def __init__(self): self.props = {'C34', 'C32'}; self.dflt = False
    def field(self, name, cont, tuple_=False):
        a, ty = [], pick(TYS)
        if cont != 'newtype' and may(.22):
            a += pick(SKIPS[1:]); self.props.add('C31')
        if not tuple_ and may(.25):
            a.append(pick([s, x])('rename', pick(['rn', 'R n', {'serialize': 'rs', 'deserialize': 'rd'}, {'serialize': 'rs2'}, 'type', '$x']) if name != 'zz' else 'zz9')); self.props.add('C33')
            self.uniq = getattr(self, 'uniq', 0) + 1
            k, n, v = a[-1]
            a[-1] = (k, n, {q: w + str(self.uniq) for q, w in v.items()} if isinstance(v, dict) else v + str(self.uniq))
        fl = not tuple_ and may(.2)
        if fl:
            ty = pick(FT + FLAT + ['Option<Inner1>', 'Option<Enum1>', 'Option<UnEnum>', 'Box<Inner2>'])
            a.append(pick([s, s, x])('flatten')); self.props.add('C36'); self.fl = True
        r = R.random()
        if r < .1:
            a.append(x('with', pick(['B', 'Option<A>', 'String', 'Refd', 'Inner1']))); self.props.add('C48')
        elif r < .17:
            a.append(x('schema_with', pick(['sw1', 'sup::sw2', 'sw_obj']))); self.props.add('C48')
        if not tuple_ and may(.2):
            a.append(pick([s, x])('default'))
        if not tuple_ and may(.2):
            a.append(pick([s, x])('skip_serializing_if', 'sif'))
        if may(.1) and ty.startswith('Option') and not any(k == 'with' for _, k, _ in a):
            a.append(pick([x, val, gar])('required'))
        if not fl:
            for _ in range(2):
                if may(.2):
                    v = pick(VALS_)
                    fm = ('email', 'url', 'ipv4')
                    if not any(k == v[1] or k in fm and v[1] in fm or {k, v[1]} == {'regex', 'contains'} for _, k, _ in a): a.append(v); self.props.add('C39')
            if may(.25):
                m = pick(META_); a.append(m); self.props.add('C37')
        d = pick(DOCR) if may(.5) else None
        if d and not fl: self.props |= {'C37', 'C38'}
        dep = not fl and may(.08)
        R.shuffle(a)
        return F(name, ty, *a, doc=d if not fl else None, dep=dep)
    def fields(self, cont, lo=1, hi=5): return [self.field(n, cont) for n in names(R.randint(lo, hi))]
    def meta(self):
        a = []
        if may(.3):
            a.append(pick(META_[:7])); self.props.add('C37')
        d = pick(DOCR)
        if d: self.props |= {'C37', 'C38'}
        return a, d
    def rules(self, k):
        if not may(.35): return []
        self.props.add('C33')
        r = pick([q for q in RULES])
        return [pick([s, x])(k, pick([r, r, {'serialize': r}, {'serialize': r, 'deserialize': pick(RULES)}]))]
    def deny(self):
        if not may(.3): return []
        self.props.add('C35')
        return [pick([s, s, x])('deny_unknown_fields')]
    def struct(self):
        fs = self.fields('struct'); a, d = self.meta()
        a += self.rules('rename_all')
        if not getattr(self, 'fl', False): a += self.deny()
        elif may(.2): a.append(x('deny_unknown_fields')); self.props.add('C35')
        kw = {}
        if may(.2):
            a.append(s('default')); kw['derive'] = 'JsonSchema, Default'
        add(tuple(sorted(self.props)), 'struct', fs, *a, doc=d, **kw)
    def tuple(self):
        fs = [self.field('', 'tuple', True) for _ in range(R.randint(2, 4))]; a, d = self.meta()
        add(tuple(sorted(self.props)), 'tuple', fs, *a, doc=d)
    def newtype(self):
        f = self.field('', 'newtype', True); a, d = self.meta()
        if may(.4): a.append(pick([s, x])('transparent')); self.props.add('C48')
        add(tuple(sorted(self.props)), 'newtype', [f], *a, doc=d)
    def variant(self, n, ta):
        kind = pick(['unit', 'newtype', 'struct', 'struct'] + ([] if ta is TAGS['int'] else ['tuple']))
        fs = []
        if kind == 'newtype': fs = [self.field('', 'newtype', True)]
        elif kind == 'tuple': fs = [self.field('', 'tuple', True) for _ in range(R.randint(0, 3) if False else R.randint(2, 3))]
        elif kind == 'struct': fs = self.fields('struct', 0, 3)
        if ta is TAGS['int']:
            for f in fs:
                if f.ty in ('String', 'u32', 'bool') or f.ty.startswith('Vec'): f.ty = 'Refd'
        a = []
        if may(.15): a += pick(SKIPS[1:]); self.props.add('C31')
        if may(.25):
            self.uniq = getattr(self, 'uniq', 0) + 1
            v = pick(['vn', {'serialize': 'vs', 'deserialize': 'vd'}, 'type'])
            a.append(pick([s, x])('rename', {q: w + str(self.uniq) for q, w in v.items()} if isinstance(v, dict) else v + str(self.uniq))); self.props.add('C33')
        if kind == 'struct': a += self.rules('rename_all')
        if may(.1) and kind != 'unit': a.append(pick([x('with', 'B'), x('with', 'Inner1'), x('schema_with', 'sw1'), x('schema_with', 'sw_obj')])); self.props.add('C48')
        m, d = self.meta()
        un = ta is not TAGS['un'] and may(.12)
        if un: a.append(s('untagged'))
        return Vr(n, kind, fs, *a, *m, doc=d, dep=may(.06)), un
    def enum(self):
        ta = pick(TGS)
        vs = [self.variant(n, ta) for n in vnames(R.randint(1, 5))]
        vs = [v for v, u in sorted(vs, key=lambda z: z[1])]          # untagged variants come last
        a, d = self.meta()
        a += self.rules('rename_all') + self.rules('rename_all_fields')
        if not getattr(self, 'fl', False): a += self.deny()
        elif may(.2): a.append(x('deny_unknown_fields')); self.props.add('C35')
        ta = [(pick(['serde', 'serde', 'schemars']), k, v) for _, k, v in ta]
        if len(ta) > 1: ta = [(ta[0][0], k, v) for _, k, v in ta]
        add(tuple(sorted(self.props)), 'enum', vs, *ta, *a, doc=d)

for i in range(700):
    g = G()
    try:
        pick([g.struct, g.struct, g.struct, g.tuple, g.newtype, g.enum, g.enum, g.enum, g.enum, g.enum])()
    except AssertionError:
        pass
REJECT = set()
for t in [t for t in W if t.name in REJECT]:
    W.remove(t)

# ---------------------------------------------------------------- C30: derived code around a schema of any shape
FL = s('flatten')
M = lambda *a, ty='Mal', n='m': F(n, ty, *a)
for fs in ([M(FL)], [M(FL), F('i', 'Inner1', FL)], [F('i', 'Inner1', FL), M(FL)], [F('a', 'A'), M(FL)], [M(FL, ty='Option<Mal>'), F('a', 'A')], [M(FL), M(FL, n='m2')], [F('e', 'Enum1', FL), M(FL)], [M(FL), F('e', 'UnEnum', FL)],
           [M(FL, s('default')), F('a', 'A')], [M(FL, s('skip_serializing')), F('a', 'A')]):
    add('C30', 'struct', fs)
    add('C30', 'struct', fs, x('deny_unknown_fields'))
add('C30', 'struct', [M(), M(n='o', ty='Option<Mal>'), M(n='v', ty='Vec<Mal>'), M(s('default'), n='d'), M(x('required'), n='r', ty='Option<Mal>')])
add('C30', 'struct', [M(x('title', 't'), x('description', 'd'), n='md'), M(x('extend', [('x-k', '1')]), n='ex', ty='Mal')])
for i, va in enumerate(VALS_ + [x('email'), x('url')]):
    add('C30', 'struct', [M(va), M(va, n='o', ty='Option<Mal>')])
add('C30', 'struct', [M(x('length', [('min', Raw('1')), ('max', Raw('2'))]), x('range', [('min', Raw('1'))]), x('inner', [('inner', [('length', [('min', Raw('1'))]), ('regex', [('pattern', '^r')])])]), ty='Mal')])
for tg, ta in TAGS.items():
    add('C30', 'enum', [Vr('Va', 'newtype', [F('', 'Mal')]), Vr('Vb', 'struct', [M(FL), F('a', 'A')])], *ta)
    add('C30', 'enum', [Vr('Va', 'newtype', [F('', 'Mal')], doc=' d'), Vr('Vb', 'newtype', [F('', 'Option<Mal>')])], *ta, x('title', 'T'), doc=' e')
    add('C30', 'enum', [Vr('Va', 'newtype', [F('', 'Mal')], x('title', 'v')), Vr('Vu', 'unit')], *ta, x('deny_unknown_fields'))
    add('C30', 'struct', [F('f', 'Mal', FL), F('a', 'A')], x('title', 't'), doc=' d')
add('C30', 'newtype', [F('', 'Mal')], doc=' d')
add('C30', 'newtype', [F('', 'Mal')], s('transparent'), x('title', 't'))
add('C30', 'tuple', [F('', 'Mal'), F('', 'Option<Mal>')])
