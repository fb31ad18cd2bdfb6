"""JSON-shape view of abstract values, opaque element types, and entry-point runner."""
from .engine import *
from . import models
import re

MARK = re.compile(r'^<(probe::markers::([A-Z]\w*)) as schemars::JsonSchema>::(\w+)$')

class Op:
    """opaque (never inspected) JSON value"""
    __slots__ = ('id',)
    def __init__(self, i): self.id = i
    def __repr__(self): return '<' + self.id + '>'
    def __eq__(self, o): return isinstance(o, Op) and o.id == self.id
    def __hash__(self): return hash(('Op', self.id))

class Top:
    def __init__(self, why): self.why = why
    def __repr__(self): return 'TOP(%s)' % self.why
    def __eq__(self, o): return False
    def __hash__(self): return id(self)

class Num:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'n%r' % (self.v,)
    def __eq__(self, o): return isinstance(o, Num) and o.v == self.v
    def __hash__(self): return hash(('Num', self.v))

def sview(E, st, s):
    s = E.norm_s(st, s)
    if s[0] != 'S':
        return Top(str(s[1:2]))
    out = ''
    for p in s[1]:
        if isinstance(p, str):
            out += p
        elif p[0] == 'y':
            out += '<%s>' % (p[1],)
        else:
            out += '<%s:%s>' % (p[0], p[1:])
    return out

def intview(E, st, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, tuple) and v and v[0] == 'sym':
        r = E.rng(st, v)
        if r and len(r) == 1 and r[0][0] == r[0][1]:
            return r[0][0]
        return Op('int:%s%s' % (v[1], '%+d' % v[2] if v[2] else ''))
    return Top(repr(v)[:60])

def view(E, st, v, depth=0):
    """Python view of an abstract value; never forks"""
    if depth > 60:
        return Top('deep')
    if v is None:
        return Top('uninit')
    if isinstance(v, (bool, int)):
        return int(v)
    if not isinstance(v, tuple) or not v:
        return Top(repr(v))
    k = v[0]
    if k == 'R':
        return view(E, st, E.load(st, v[1], v[2]), depth + 1)
    if k == 'L':
        b = st.facts.get(('bind', v[2]))
        if b is not None:
            return view(E, st, b, depth + 1)
        return Op(v[2])
    if k == 'S':
        return sview(E, st, v)
    if k == 'sym':
        return intview(E, st, v)
    if k == 'flt':
        return Num(v[1])
    if k == 'N':
        return view(E, st, v[1], depth + 1) if isinstance(v[1], tuple) else v[1]
    if k == 'T':
        return Top(v[1])
    if k == 'V':
        l = [view(E, st, x, depth + 1) for x in v[1]]
        if v[2] is not None:
            ident, et, n = v[2]
            while True:
                f = st.facts.get(('vlen', ident))
                m = n < f if f is not None else st.facts.get(('dec', ('more', ident, n)))
                if not m:
                    break
                l.append(view(E, st, E.lazy(st, et, '%s[%d]' % (ident, n)), depth + 1))
                n += 1
            if m is None:
                l.append(Op('rest:%s@%d' % (ident, n)))
        return l
    if k == 'SL':
        x = E.load(st, v[1][1], v[1][2])
        if x[0] != 'V':
            return view(E, st, x, depth + 1)
        l = [view(E, st, y, depth + 1) for y in x[1][v[2]:v[3]]]
        if x[2] is not None and v[3] is None:
            l.append(Op('rest:%s@%d' % (x[2][0], x[2][2])))
        return l
    if k == 'M':
        d = {}
        for kk, x in v[2]:
            key = view(E, st, kk, depth + 1)
            try:
                hash(key)
            except TypeError:
                key = repr(key)
            d[key] = view(E, st, x, depth + 1)
        if v[1] is not None:
            # entries decided present but not materialised stay in the base
            have = set(d)
            gone = set(view(E, st, y) for y in v[3])
            for f, val in list(st.facts.items()):
                if f[0] == 'has' and f[1] == v[1][0] and val:
                    n = view(E, st, f[2])
                    if n not in have and n not in gone:
                        d[n] = 1 if v[1][2] is None else view(E, st, E.lazy(st, v[1][2], '%s.%s' % (v[1][0], kname(f[2]))), depth + 1)
            if not st.facts.get(('closed', v[1][0])) and not closed(st, v[1][0]):
                d['*'] = Op('base:' + v[1][0])
        return d
    if k == 'A':
        t = v[1]
        if t is None:
            return tuple(view(E, st, x, depth + 1) for x in v[3])
        if t == E.F.value_ty:
            n = E.T[t]['v'][v[2]]['n']
            if n == 'Null':
                return None
            if n == 'Bool':
                x = view(E, st, v[3][0], depth + 1)
                return bool(x) if isinstance(x, int) else x
            return view(E, st, v[3][0], depth + 1)
        T = E.T[t]
        nm = T.get('name', '')
        if nm == 'alloc::borrow::Cow':
            return view(E, st, v[3][0], depth + 1)
        var = T['v'][v[2]]['n'] if v[2] < len(T['v']) else str(v[2])
        if T['k'] == 'struct':
            return (nm.rsplit('::', 1)[-1], {fn: view(E, st, x, depth + 1) for (fn, _), x in zip(T['v'][0]['f'], v[3])})
        return (var,) + tuple(view(E, st, x, depth + 1) for x in v[3])
    if k == 'fn':
        return ('fn', E.I[v[1]]['name'])
    if k == 'D':
        return ('dyn', view(E, st, v[1], depth + 1))
    return Top(k)

def closed(st, ident):
    """an unknown collection whose end was observed"""
    n = 0
    while True:
        x = st.facts.get(('dec', ('more', ident, n)))
        if x is None:
            return False
        if x is False:
            return not any(s.startswith('bounded:' + ident.split('#')[0]) for s in st.notes)
        n += 1

IMPRECISE = ('imprecise:', 'unknown:')

class Path:
    """one finished abstract path"""
    def __init__(self, E, st):
        self.E = E; self.st = st
        self.end = st.end
        self.log = st.log
        self.ret = view(E, st, st.ret) if st.end == ('ret',) else None
        self.why = sorted(n for n in st.notes if n.startswith(IMPRECISE))
        self.bounded = sorted(n for n in st.notes if n.startswith('bounded:'))
        if st.end[0] == 'stuck':
            self.why.append('stuck:' + str(st.end[1]))
    @property
    def precise(self):
        return not self.why
    def dec(self, key, default=None):
        return self.st.facts.get(('dec', key), default)
    def has(self, base, key):
        return self.st.facts.get(('has', base, ('S', (key,) if key else ())))
    def cell(self, c, path=()):
        return view(self.E, self.st, self.E.load(self.st, c, path))
    def arg(self, n):
        """final view of what reference argument n pointed to (lazy arguments)"""
        return self.cell(('o', 'arg%d' % n))

def tops(v):
    """Top reasons inside a view"""
    if isinstance(v, Top):
        return [v.why]
    if isinstance(v, dict):
        return [y for k, x in v.items() for y in tops(x) + tops(k)]
    if isinstance(v, (list, tuple)):
        return [y for x in v for y in tops(x)]
    return []

def opaque_schema(E, st, ident):
    """a schema value nobody has looked into: bool or object"""
    st.facts.setdefault(('vars', ident), frozenset((E.F.VAR['Bool'], E.F.VAR['Object'])))
    return ('L', E.F.value_ty, ident)

def cow(E, inst, s):
    t = models.find_ty(E, 'alloc::borrow::Cow')
    return ('A', t, 1, (s,))

def hook_markers(E):
    """intercept every method of the opaque element types"""
    def pred(inst):
        return inst['name'].startswith('<probe::markers::') and MARK.match(inst['name'])
    def fn(E, st, inst, args):
        m = MARK.match(inst['name'])
        who, meth = m.group(2), m.group(3)
        if meth == 'inline_schema':
            return int(E.decide(st, ('inl', who)))
        if meth == '_schemars_private_is_option':
            return int(E.decide(st, ('isopt', who)))
        if meth == 'schema_name':
            return cow(E, inst, ('S', (('y', 'name:' + who),)))
        if meth == 'schema_id':
            return cow(E, inst, ('S', (('y', 'id:' + who),)))
        st.event('js' if meth == 'json_schema' else 'np', who, E.span(st))
        return opaque_schema(E, st, ('js:' if meth == 'json_schema' else 'np:') + who)
    E.prefix_hooks.append((pred, fn))

SUB = 'schemars::generate::SchemaGenerator::subschema_for'

def hook_sub(E, skip=()):
    """subschemas are opaque, identified by their type"""
    def fn(E, st, inst, args):
        t = E.T[inst['targs'][0]]['s']
        if t in skip:
            return ('!body',)
        t = short(t)
        st.event('sub', t, E.span(st))
        return opaque_schema(E, st, 'sub:' + t)
    E.hooks[SUB] = fn

def short(t):
    t = re.sub(r'\b(?:\w+::)+(\w+)', r'\1', t)
    return re.sub(r"'\w+ ", '', t)

def contract(E, st, arg='arg1'):
    """the contract decided on this path: 'de' 'ser' or None"""
    T = E.T
    for k, v in st.facts.items():
        if k[0] == 'bind' and isinstance(k[1], str) and k[1].endswith('.contract'):
            return 'de' if E.T[v[1]]['v'][v[2]]['n'] == 'Deserialize' else 'ser'
    return None

def new_engine(F, sub=True, markers=True, **kw):
    E = Engine(F, **kw)
    if markers:
        hook_markers(E)
    if sub:
        hook_sub(E)
    return E

def run(E, root, args=None, pre=None, st=None):
    st = st or State()
    ix = E.F.roots[root] if isinstance(root, str) else root
    b = E.I[ix]['body']
    a = list(args) if args is not None else []
    while len(a) < b['argc']:
        i = len(a)
        a.append(E.lazy(st, b['locals'][i + 1], 'arg%d' % (i + 1)))
    if pre:
        pre(E, st, a)
    E.start(ix, a, st)
    return [Path(E, s) for s in E.explore(st)]
