"""Generator scenarios: type graphs (edges, inline flags, names, ids, base documents) and
histories of generator operations, interpreted over the real generator code."""
from .js import *
from . import models
import re

class Sc:
    def __init__(self, edges=(), inline=(), names=None, ids=None, base=None, ops=(), preset=0, path=None, meta='keep', inl=None, ser=False, trs=0, vals=None, nest=()):
        self.edges = frozenset(edges); self.inline = frozenset(inline)
        self.names = names or {}; self.ids = ids or {}; self.base = base or {}
        self.ops = list(ops); self.preset = preset; self.path = path; self.meta = meta; self.inl = inl; self.ser = ser; self.trs = trs
        self.vals = vals or {}; self.nest = frozenset(nest)
    def name(self, n): return self.names.get(n, 'N%d' % n)
    def id(self, n): return self.ids.get(n, 'id%d' % n)
    def doc(self, n): return self.base.get(n, {'x': 'n%d' % n})
    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if v not in ((), None, False, 0, {}, [], frozenset(), 'keep')}
        if 'edges' in d: d['edges'] = ' '.join('%d>%d' % e for e in sorted(self.edges))
        if 'nest' in d: d['nest'] = ' '.join('%d>%d' % e for e in sorted(self.nest))
        if 'inline' in d: d['inline'] = sorted(self.inline)
        return ' '.join('%s=%s' % kv for kv in sorted(d.items()))

def opt_arg(E, ty, v):
    return ('A', ty, 0, ()) if v is None else ('A', ty, 1, (v,))

def install(E, box):
    """hooks reading the scenario in box[0]"""
    G = 'probe::graph::'
    def h(name):
        def d(fn): E.hooks[G + name] = fn
        return d
    def i(E, st, v):
        v = E.res(st, v)
        assert isinstance(v, int), v
        return v
    @h('h_edge')
    def _(E, st, inst, a): return int((i(E, st, a[0]), i(E, st, a[1])) in box[0].edges)
    @h('h_nest')
    def _(E, st, inst, a): return int((i(E, st, a[0]), i(E, st, a[1])) in box[0].nest)
    @h('h_inline')
    def _(E, st, inst, a): return int(i(E, st, a[0]) in box[0].inline)
    @h('h_name')
    def _(E, st, inst, a): return key(E, st, box[0].name(i(E, st, a[0])))
    @h('h_id')
    def _(E, st, inst, a): return key(E, st, box[0].id(i(E, st, a[0])))
    @h('h_base')
    def _(E, st, inst, a):
        st.event('js', i(E, st, a[0]))
        return build(E, st, box[0].doc(i(E, st, a[0])))
    @h('h_op')
    def _(E, st, inst, a):
        n = i(E, st, a[0])
        return ('A', None, 0, tuple(box[0].ops[n]) if n < len(box[0].ops) else (0, 0))
    def sink(E, st, inst, a):
        st.event('out', i(E, st, a[0]), view(E, st, a[1]))
        return UNIT
    E.hooks[G + 'h_sink'] = sink; E.hooks[G + 'h_sink_map'] = sink
    @h('h_transform')
    def _(E, st, inst, a):
        n = i(E, st, a[0]); r = E.res(st, a[1])
        v = E.load(st, r[1], r[2])
        k = len([e for e in st.log if e[0] == 'tr'])
        st.event('tr', n, view(E, st, v))
        v = E.res(st, v)
        if isinstance(v, tuple) and v and v[0] == 'A' and v[2] == E.F.VAR['Object']:
            m = E.res(st, v[3][0])
            m2 = ('M', m[1], m[2] + ((S('!%d.%d' % (k, n)), jv(E, 'Null')),), m[3])
            E.store(st, r[1], r[2], ('A', v[1], v[2], (m2,)))
        return UNIT
    def ser(E, st, inst, a):
        n = i(E, st, a[0])
        s = E.res(st, a[1])
        t = E.T[inst['targs'][0]]['s']
        if 'schemars' in t:
            sv = view(E, st, s)
            st.event('ser', n, sv[1].get('include_title') if isinstance(sv, tuple) and len(sv) == 2 and isinstance(sv[1], dict) else None)
            d = box[0].vals.get(n, {'x': 'v%d' % n})
            if d == 'fail':
                return models.result(E, err=('I', 'serfail'))
            return models.result(E, ok=build(E, st, d))
        st.event('val', n)
        d = box[0].vals.get(('json', n), 'json%d' % n)
        if d == 'fail':
            return models.result(E, err=('I', 'serfail'))
        return models.result(E, ok=build(E, st, d))
    E.hooks['probe::values::h_ser'] = ser

def run_hist(E, sc):
    st = State()
    ix = E.F.roots['probe::graph::hist']
    b = E.I[ix]['body']
    L = b['locals']
    os, oos, ob = L[2], L[3], L[4]
    def s(x): return None if x is None else key(E, st, x)
    meta = None if sc.meta == 'keep' else opt_arg(E, L[2], s(sc.meta))
    a = [sc.preset, opt_arg(E, os, s(sc.path)), opt_arg(E, oos, meta), opt_arg(E, ob, None if sc.inl is None else int(sc.inl)), int(sc.ser), sc.trs]
    E.start(ix, a, st)
    return [Path(E, x) for x in E.explore(st)]

def outs(p):
    return {e[1]: e[2] for e in p.log if e[0] == 'out'}

# ------------------------------------------------------------------ reading the produced documents
def pct(s):
    """percent-decoding of a URI fragment; None if malformed"""
    out = bytearray()
    k = 0
    b = s.encode()
    while k < len(b):
        if b[k:k + 1] == b'%':
            if not re.fullmatch(rb'[0-9A-Fa-f]{2}', b[k + 1:k + 3]):
                return None
            out.append(int(b[k + 1:k + 3], 16)); k += 3
        else:
            out.append(b[k]); k += 1
    try:
        return out.decode()
    except UnicodeDecodeError:
        return None

FRAG = re.compile(r"^#(?:[A-Za-z0-9\-._~!$&'()*+,;=:@/?]|%[0-9A-Fa-f]{2})*$")

def resolve(doc, ref):
    """the value a local reference points at, or None"""
    if not ref.startswith('#'):
        return None
    p = pct(ref[1:])
    if p is None:
        return None
    if p == '':
        return doc
    if not p.startswith('/'):
        return None
    cur = doc
    for seg in p[1:].split('/'):
        seg = seg.replace('~1', '/').replace('~0', '~')
        if isinstance(cur, dict) and seg in cur:
            cur = cur[seg]
        elif isinstance(cur, list) and seg.isdigit() and int(seg) < len(cur):
            cur = cur[int(seg)]
        else:
            return None
    return cur

def refs(x):
    if isinstance(x, dict):
        if isinstance(x.get('$ref'), str):
            yield x['$ref']
        for v in x.values():
            yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v)
