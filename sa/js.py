"""JSON documents with opaque leaves: the abstract inputs and expected outputs of the transforms."""
from .domain import *
from .models import jv, jstr, num
from . import models

class Lv:
    """leaf nobody has looked into: any JSON value of the given kind"""
    KINDS = {'any': None, 'sch': ('Bool', 'Object'), 'obj': ('Object',), 'str': ('String',), 'num': ('Number',),
             'bool': ('Bool',), 'arr': ('Array',), 'nonarr': ('Null', 'Bool', 'Number', 'String', 'Object'),
             'nonbool': ('Null', 'Array', 'Number', 'String', 'Object'), 'scalar': ('Null', 'Bool', 'Number', 'String'),
             'nonobj': ('Null', 'Bool', 'Number', 'String', 'Array'), 'nonsch': ('Null', 'Number', 'String', 'Array'),
             'nonstr': ('Null', 'Bool', 'Number', 'Array', 'Object'), 'nonnull': ('Bool', 'Number', 'String', 'Array', 'Object'),
             'junk': ('Null', 'Number', 'String'), 'null': ('Null',)}
    def __init__(self, kind, id):
        self.kind = kind; self.id = id
    def __repr__(self): return '%s:%s' % (self.kind, self.id)
    def __eq__(self, o): return isinstance(o, Lv) and (o.kind, o.id) == (self.kind, self.id)
    def __hash__(self): return hash((self.kind, self.id))

class Ky:
    """object key that is an arbitrary string, different from the listed ones"""
    def __init__(self, id, ne=()):
        self.id = id; self.ne = frozenset(ne)
    def __repr__(self): return 'key:' + self.id
    def __eq__(self, o): return isinstance(o, Ky) and o.id == self.id
    def __hash__(self): return hash(('Ky', self.id))

def build(E, st, x):
    """abstract serde_json::Value for a Python document"""
    if x is None:
        return jv(E, 'Null')
    if isinstance(x, bool):
        return jv(E, 'Bool', int(x))
    if isinstance(x, int):
        return jv(E, 'Number', num(x))
    if isinstance(x, float):
        return jv(E, 'Number', num(('flt', repr(x))))
    if isinstance(x, str):
        return jstr(E, S(x))
    if isinstance(x, Ky):
        return jstr(E, key(E, st, x))
    if isinstance(x, Lv):
        v = Lv.KINDS[x.kind]
        if v is not None:
            st.facts.setdefault(('vars', x.id), frozenset(E.F.VAR[n] for n in v))
        return ('L', E.F.value_ty, x.id)
    if isinstance(x, (list, tuple)):
        return jv(E, 'Array', ('V', tuple(build(E, st, y) for y in x), None))
    if isinstance(x, dict):
        return jv(E, 'Object', ('M', None, tuple((key(E, st, k), build(E, st, v)) for k, v in x.items()), frozenset()))
    raise TypeError(x)

def key(E, st, k):
    if isinstance(k, Ky):
        st.facts.setdefault(('ne', k.id), k.ne)
        return ('S', (('y', k.id),))
    return S(k)

def expect(E, st, x):
    """view of a Python document under what the path found out about its leaves"""
    return view(E, st, build(E, st, x))

TR = 'schemars::transform::Transform'

def hook_leaf_visits(E, types=None):
    """transforming an opaque leaf yields the opaque leaf `T(leaf)`; everything else is interpreted"""
    def pred(inst):
        return inst.get('trait') == TR and inst.get('meth') == 'transform' and (types is None or any(t in inst['name'] for t in types))
    def fn(E, st, inst, args):
        r = args[1]
        v = E.load(st, r[1], r[2])
        if isinstance(v, tuple) and v and v[0] == 'L':
            st.event('visit', v[2], E.span(st))
            E.store(st, r[1], r[2], opaque_schema(E, st, 'T(%s)' % v[2]))
            return UNIT
        if inst['kind'] == 'virtual' or 'body' not in inst:
            return None
        return ('!body',)
    E.prefix_hooks.append((pred, fn))

def hook_visit(E, edit=None):
    """the probe's opaque transform: wraps whatever it is given; the document it saw is logged"""
    def fn(E, st, inst, args):
        r = args[1]
        v = E.load(st, r[1], r[2])
        st.event('visit', r, view(E, st, v), E.span(st))
        if isinstance(v, tuple) and v and v[0] == 'L':
            E.store(st, r[1], r[2], opaque_schema(E, st, 'T(%s)' % v[2]))
        return UNIT
    E.hooks['<probe::markers::Visit as %s>::transform' % TR] = fn

def run_doc(E, root, doc, pre=None, extra=()):
    """interpret root(&mut transform-or-nothing, &mut doc): paths with .doc set"""
    st = State()
    ix = E.F.roots[root]
    b = E.I[ix]['body']
    a = []
    n = b['argc']
    for i in range(n - 1):
        a.append(E.lazy(st, b['locals'][i + 1], 'arg%d' % (i + 1)))
    st.mem[('o', 'doc')] = build(E, st, doc)
    a.append(('R', ('o', 'doc'), ()))
    if pre:
        pre(E, st, a)
    E.start(ix, a, st)
    ps = [Path(E, s) for s in E.explore(st)]
    for p in ps:
        p.doc = p.cell(('o', 'doc'))
    return ps

def judge(ps, exp):
    """compare every path with the expected document; returns (ok, undecided, [(path, expected, actual)])"""
    ok = und = 0
    bad = []
    for p in ps:
        e = exp(p) if callable(exp) else exp
        if not p.precise:
            und += 1
            continue
        if p.end != ('ret',):
            bad.append((p, '<returns>', p.end))
            continue
        ev = expect(p.E, p.st, e)
        if tops(p.doc):
            und += 1
        elif p.doc == ev:
            ok += 1
        else:
            bad.append((p, ev, p.doc))
    return ok, und, bad
