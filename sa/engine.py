"""Abstract interpreter for the MIR facts.

Domain: a trace-partitioned product of constants, integer intervals, string shapes,
algebraic values, vectors/maps with an optional unknown remainder, and *lazy* unknown
inputs that are split only where the program inspects them.  Nothing is executed and no
solver is involved: every branch whose condition is not determined by the abstract
state is explored in both directions, loops over unknown collections are explored with
arbitrary (symbolic) elements up to a stated bound, and anything the domain cannot
represent becomes Top and is recorded as such.
"""
import json, os, sys, time

class Fork(Exception):
    """Undetermined decision: alternatives are lists of fact updates."""
    def __init__(self, alts):
        self.alts = alts

class Stuck(Exception):
    pass

class Infeasible(Exception):
    pass

UNIT = ('A', None, 0, ())
NONE_RANGE = ((-(1 << 127), (1 << 128) - 1),)

def S(s):
    return ('S', (s,)) if s else ('S', ())

def top(why=''):
    return ('T', why)

def is_top(v):
    return isinstance(v, tuple) and v and v[0] == 'T'

class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.I = d['insts']
        self.T = d['types']
        self.vt = d['vtables']
        self.roots = dict((n, i) for n, i in d['roots'])
        self.statics = {s['name']: s['v'] for s in d['statics']}
        self.byname = {}
        for k, i in enumerate(self.I):
            self.byname.setdefault(i['name'], []).append(k)
        self.tyname = {}
        for k, t in enumerate(self.T):
            self.tyname.setdefault(t['s'], k)
        self.value_ty = next((k for k, t in enumerate(self.T) if t.get('name') == 'serde_json::value::Value'), None)
        self.VAR = {}
        if self.value_ty is not None:
            for n, v in enumerate(self.T[self.value_ty]['v']):
                self.VAR[v['n']] = n
    def tn(self, t):
        return self.T[t].get('name', '')

class Frame:
    __slots__ = ('inst', 'body', 'bb', 'si', 'dest', 'target', 'fid', 'native', 'loc')
    def copy(self):
        f = Frame.__new__(Frame)
        f.inst = self.inst; f.body = self.body; f.bb = self.bb; f.si = self.si
        f.dest = self.dest; f.target = self.target; f.fid = self.fid; f.native = self.native; f.loc = self.loc
        return f

class State:
    __slots__ = ('frames', 'mem', 'facts', 'log', 'notes', 'nid', 'visits', 'steps', 'ret', 'end')
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = {}; self.log = (); self.notes = frozenset()
        self.nid = 0; self.visits = {}; self.steps = 0; self.ret = None; self.end = None
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.log = self.log; s.notes = self.notes
        s.nid = self.nid; s.visits = dict(self.visits); s.steps = self.steps; s.ret = self.ret; s.end = self.end
        return s
    def fresh(self):
        self.nid += 1
        return self.nid
    def alloc(self, v, tag='h'):
        c = (tag, self.fresh())
        self.mem[c] = v
        return ('R', c, ())
    def note(self, n):
        self.notes = self.notes | {n}
    def event(self, *e):
        self.log = self.log + (e,)

class Engine:
    def __init__(self, facts, max_elems=2, max_states=4000, max_steps=60000, max_visits=400, max_depth=120, max_weight=20_000_000, max_seconds=60):
        self.max_weight = max_weight; self.max_seconds = max_seconds
        self.F = facts; self.T = facts.T; self.I = facts.I
        self.hooks = {}          # exact name -> fn(E, st, inst, args)
        self.dyn_clone = None    # what `clone` of a value behind `dyn` does to the value
        self.prefix_hooks = []   # (predicate(inst), fn)
        from . import models
        self.models = models.MODELS
        self.prefix_models = models.PREFIX
        self.max_elems = max_elems; self.max_states = max_states; self.max_steps = max_steps
        self.max_visits = max_visits; self.max_depth = max_depth
        self.called = set()      # instances interpreted
        self.unknown = {}        # callee name -> count (treated as Top)
        self.stats = {'paths': 0, 'states': 0, 'steps': 0, 'forks': 0, 'bounded': 0, 'stuck': 0}
        self.tyk = {}
        self.argtys = []
        self.mcache = {}
        self.traced = set()

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.T[t]
    def kind(self, t):
        return self.T[t]['k']
    def is_fat(self, t):
        """pointee is unsized: references to it are values by themselves"""
        return self.T[t]['k'] in ('str', 'slice', 'dyn')
    def int_range(self, t):
        T = self.T[t]
        if T['k'] == 'char':
            return (0, 0x10FFFF)
        if T['k'] == 'bool':
            return (0, 1)
        b = T['bits']
        if T['signed']:
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        return (0, (1 << b) - 1)
    def native_kind(self, t):
        T = self.T[t]
        n = T.get('name')
        if n in ('alloc::string::String',):
            return 'S'
        if n in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'smallvec::SmallVec'):
            return 'V'
        if n in ('serde_json::map::Map', 'alloc::collections::btree::map::BTreeMap', 'alloc::collections::btree::set::BTreeSet',
                 'std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet', 'indexmap::map::IndexMap', 'indexmap::set::IndexSet'):
            return 'M'
        return None
    def map_types(self, t):
        a = self.T[t]['args']
        n = self.T[t]['name']
        if n.endswith('Set'):
            return (a[0], None)
        return (a[0], a[1])

    # ------------------------------------------------------------ lazies
    def lazy(self, st, t, ident):
        """unknown value of type t named by ident"""
        T = self.T[t]
        k = T['k']
        if T.get('transp') is not None and k == 'struct':
            v = T['v'][0]['f'][T['transp']]
            return self.lazy(st, v[1], ident)
        if k in ('ref', 'ptr') or T.get('box'):
            to = T['args'][0] if T.get('box') else T['to']
            tk = self.T[to]['k']
            if tk == 'str':
                return ('S', (('y', ident),))
            if tk == 'slice':
                c = ('o', ident)
                if c not in st.mem:
                    st.mem[c] = ('V', (), (ident, self.T[to]['to'], 0))
                return ('SL', ('R', c, ()), 0, None)
            if tk == 'dyn':
                c = ('o', ident)
                if c not in st.mem:
                    st.mem[c] = top('dyn ' + ident)
                return ('D', ('R', c, ()), None)
            c = ('o', ident)
            if c not in st.mem:
                st.mem[c] = self.lazy(st, to, ident)
            return ('R', c, ())
        if k in ('int', 'char'):
            return ('sym', ident, 0, t)
        if k == 'str':
            return ('S', (('y', ident),))
        if k == 'tuple':
            return ('A', None, 0, tuple(self.lazy(st, x, '%s.%d' % (ident, i)) for i, x in enumerate(T['to'])))
        nk = self.native_kind(t)
        if nk == 'S':
            return ('S', (('y', ident),))
        if nk == 'V':
            return ('V', (), (ident, T['args'][0], 0))
        if nk == 'M':
            kt, vt = self.map_types(t)
            return ('M', (ident, kt, vt), (), frozenset())
        if k == 'array':
            n = T.get('len')
            if n is None or n > 64:
                return top('array')
            return ('V', tuple(self.lazy(st, T['to'], '%s[%d]' % (ident, i)) for i in range(n)), None)
        if k in ('enum', 'struct', 'bool'):
            return ('L', t, ident)
        if k in ('fndef',):
            return UNIT
        return ('T', 'lazy ' + T['s'])

    def res(self, st, v):
        """resolve one level of a lazy value; may Fork"""
        if not (isinstance(v, tuple) and v and v[0] == 'L'):
            return v
        t, ident = v[1], v[2]
        b = st.facts.get(('bind', ident))
        if b is not None:
            return b
        T = self.T[t]
        if T['k'] == 'bool':
            raise Fork([[(('bind', ident), 0)], [(('bind', ident), 1)]])
        if T['k'] == 'struct':
            fs = tuple(self.lazy(st, ft, ident + '.' + fn) for fn, ft in T['v'][0]['f'])
            return ('A', t, 0, fs)
        allowed = st.facts.get(('vars', ident))
        alts = []
        for n, var in enumerate(T['v']):
            if allowed is not None and n not in allowed:
                continue
            fs = tuple(self.lazy(st, ft, '%s.%s' % (ident, var['n'] if len(var['f']) == 1 else var['n'] + '.' + fn)) for fn, ft in var['f'])
            alts.append([(('bind', ident), ('A', t, n, fs))])
        if not alts:
            raise Infeasible()
        if len(alts) == 1:
            for k, x in alts[0]:
                st.facts[k] = x
            return alts[0][0][1]
        raise Fork(alts)

    def decide(self, st, key, options=(True, False)):
        k = ('dec', key)
        if k in st.facts:
            return st.facts[k]
        raise Fork([[(k, o)] for o in options])

    # ------------------------------------------------------------ integers
    def rng(self, st, v):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return ((v, v),)
        if v[0] == 'sym':
            r = st.facts.get(('rng', v[1]))
            if r is None:
                r = (self.int_range(v[3]),) if v[3] is not None else NONE_RANGE
            o = v[2]
            return tuple((a + o, b + o) for a, b in r)
        return None

    def cmp(self, st, op, a, b):
        """Eq Ne Lt Le Gt Ge on ints; returns 0/1, may Fork; None if unknown"""
        neg = {'Eq': 'Ne', 'Ne': 'Eq', 'Lt': 'Ge', 'Ge': 'Lt', 'Gt': 'Le', 'Le': 'Gt'}
        if isinstance(a, int) and isinstance(b, int):
            return int({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
        if isinstance(a, int) and isinstance(b, tuple) and b and b[0] == 'sym':
            return self.cmp(st, {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}[op], b, a)
        if isinstance(a, tuple) and a and a[0] == 'sym' and isinstance(b, int):
            k = b - a[2]
            r = st.facts.get(('rng', a[1]))
            if r is None:
                r = (self.int_range(a[3]),) if a[3] is not None else NONE_RANGE
            def split(op):
                lo, hi = {'Eq': (k, k), 'Lt': (None, k - 1), 'Le': (None, k), 'Gt': (k + 1, None), 'Ge': (k, None)}[op]
                yes, no = [], []
                for x, y in r:
                    l = x if lo is None else max(x, lo)
                    h = y if hi is None else min(y, hi)
                    if l <= h:
                        yes.append((l, h))
                        if x < l:
                            no.append((x, l - 1))
                        if h < y:
                            no.append((h + 1, y))
                    else:
                        no.append((x, y))
                return tuple(yes), tuple(no)
            if op == 'Ne':
                no, yes = split('Eq')
            else:
                yes, no = split(op)
            if not no:
                return 1
            if not yes:
                return 0
            raise Fork([[(('rng', a[1]), yes)], [(('rng', a[1]), no)]])
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == 'sym' and b[0] == 'sym':
            if a[1] == b[1]:
                return self.cmp(st, op, a[2], b[2])
            ra, rb = self.rng(st, a), self.rng(st, b)
            amin, amax = ra[0][0], ra[-1][1]
            bmin, bmax = rb[0][0], rb[-1][1]
            if amax < bmin:
                return self.cmp(st, op, 0, 1)
            if amin > bmax:
                return self.cmp(st, op, 1, 0)
            return int(self.decide(st, ('cmp', op, a, b)))
        return None

    # ------------------------------------------------------------ strings
    def norm_s(self, st, s):
        """substitute known equalities and merge literals"""
        if s[0] != 'S':
            return s
        out = []
        for p in s[1]:
            if isinstance(p, tuple) and p[0] == 'y':
                e = st.facts.get(('eq', p[1]))
                if e is not None:
                    p = e
            elif isinstance(p, tuple) and p[0] == 'c' and isinstance(p[1], int):
                p = chr(p[1])
            elif isinstance(p, tuple) and p[0] == 'c':
                r = self.rng(st, p[1])
                if r and len(r) == 1 and r[0][0] == r[0][1]:
                    p = chr(r[0][0])
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        return ('S', tuple(out))
    def lit(self, st, s):
        """python str if the string is fully known"""
        if s is None or s[0] != 'S':
            return None
        s = self.norm_s(st, s)
        if not s[1]:
            return ''
        if len(s[1]) == 1 and isinstance(s[1][0], str):
            return s[1][0]
        return None
    def concat(self, st, *ss):
        parts = []
        for s in ss:
            if s[0] != 'S':
                return top('concat')
            parts.extend(s[1])
        return self.norm_s(st, ('S', tuple(parts)))
    def str_eq(self, st, a, b):
        a = self.norm_s(st, a); b = self.norm_s(st, b)
        if a[0] != 'S' or b[0] != 'S':
            return self.decide(st, ('streq', a, b))
        pa, pb = list(a[1]), list(b[1])
        while pa and pb:
            x, y = pa[0], pb[0]
            if x == y:
                pa.pop(0); pb.pop(0); continue
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                pa[0] = x[n:]; pb[0] = y[n:]
                if not pa[0]: pa.pop(0)
                if not pb[0]: pb.pop(0)
                continue
            break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if x == y:
                pa.pop(); pb.pop(); continue
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[-n:] != y[-n:]:
                    return False
                pa[-1] = x[:-n]; pb[-1] = y[:-n]
                if not pa[-1]: pa.pop()
                if not pb[-1]: pb.pop()
                continue
            break
        if not pa and not pb:
            return True
        if not pa or not pb:
            rest = pa or pb
            if any(isinstance(p, str) or p[0] == 'c' for p in rest):
                return False
            if len(rest) == 1 and rest[0][0] == 'y':
                return self._sym_eq(st, rest[0][1], '')
            return self.decide(st, ('strempty', tuple(rest)))
        if len(pa) == 1 and len(pb) == 1:
            x, y = pa[0], pb[0]
            if isinstance(y, tuple) and isinstance(x, str):
                x, y = y, x
            if isinstance(x, tuple) and isinstance(y, str):
                if x[0] == 'y':
                    return self._sym_eq(st, x[1], y)
                if x[0] == 'c' and len(y) == 1:
                    return bool(self.cmp(st, 'Eq', x[1], ord(y)))
                if x[0] == 'c':
                    return False
        return self.decide(st, ('streq',) + tuple(sorted((tuple(pa), tuple(pb)), key=repr)))
    def _sym_eq(self, st, ident, lit):
        ne = st.facts.get(('ne', ident), frozenset())
        if lit in ne:
            return False
        c = self.str_constraint(st, ident, lit)
        if c is not None:
            return c
        cand = st.facts.get(('oneof', ident))
        if cand is not None and lit not in cand:
            return False
        raise Fork([[(('eq', ident), lit)], [(('ne', ident), ne | {lit})]])
    def str_constraint(self, st, ident, lit):
        """other recorded predicates on a symbolic string that settle equality with a literal"""
        for k, v in list(st.facts.items()):
            if k[0] == 'dec' and isinstance(k[1], tuple) and len(k[1]) == 3 and k[1][1] == ident:
                if k[1][0] == 'starts' and lit.startswith(k[1][2]) != v:
                    return False
                if k[1][0] == 'contains' and (k[1][2] in lit) != v:
                    return False
                if k[1][0] == 'ends' and lit.endswith(k[1][2]) != v:
                    return False
        return None

    # ------------------------------------------------------------ structural equality
    def eqv(self, st, a, b):
        """structural equality of abstract values (may Fork)"""
        if a == b and not has_top(a):
            return True
        if isinstance(a, tuple) and a and a[0] == 'R':
            a = self.load(st, a[1], a[2])
            return self.eqv(st, a, b)
        if isinstance(b, tuple) and b and b[0] == 'R':
            b = self.load(st, b[1], b[2])
            return self.eqv(st, a, b)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return int(a) == int(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'L' and b[0] == 'L':
            if ('bind', a[2]) not in st.facts and ('bind', b[2]) not in st.facts:
                return self.decide(st, ('same',) + tuple(sorted((a[2], b[2]))))
        a = self.res(st, a); b = self.res(st, b)
        ta = a[0] if isinstance(a, tuple) and a else 'i'
        tb = b[0] if isinstance(b, tuple) and b else 'i'
        # Cow<str>/newtype payloads compare by content
        if ta == 'A' and self.is_cow(a):
            return self.eqv(st, a[3][0], b)
        if tb == 'A' and self.is_cow(b):
            return self.eqv(st, a, b[3][0])
        if ta == 'T' or tb == 'T':
            return self.decide(st, ('eqtop', a, b))
        if ta in ('i', 'sym') and tb in ('i', 'sym'):
            r = self.cmp(st, 'Eq', a, b)
            return bool(r)
        if ta == 'S' and tb == 'S':
            return self.str_eq(st, a, b)
        if ta == 'A' and tb == 'A':
            if a[2] != b[2]:
                return False
            if len(a[3]) != len(b[3]):
                return False
            return all(self.eqv(st, x, y) for x, y in zip(a[3], b[3]))
        if ta == 'N' and tb == 'N':
            return self.eqv(st, a[1], b[1]) if type(a[1]) == type(b[1]) else False
        if ta == 'SL' or tb == 'SL':
            if ta == 'SL':
                a = self.slice_vec(st, a)
            if tb == 'SL':
                b = self.slice_vec(st, b)
            return self.eqv(st, a, b)
        if ta == 'V' and tb == 'V' and a[2] is None and b[2] is None:
            if len(a[1]) != len(b[1]):
                return False
            return all(self.eqv(st, x, y) for x, y in zip(a[1], b[1]))
        if ta == 'M' and tb == 'M' and a[1] is None and b[1] is None:
            if len(a[2]) != len(b[2]):
                return False
            for k, v in a[2]:
                w = [y for x, y in b[2] if self.eqv(st, x, k)]
                if not w or not self.eqv(st, v, w[0]):
                    return False
            return True
        if ta == 'M' and tb == 'M':
            # an unknown map equals the empty map only when it has no entries
            for x, y in ((a, b), (b, a)):
                if y[1] is None and not y[2]:
                    return self.map_is_empty(st, x)
        if ta == 'flt' and tb == 'flt':
            return a[1] == b[1]
        if ta != tb and 'T' not in (ta, tb):
            return False
        return self.decide(st, ('eq', a, b))

    def is_cow(self, v):
        return v[1] is not None and self.T[v[1]].get('name') == 'alloc::borrow::Cow'

    # ------------------------------------------------------------ maps
    def map_find(self, st, m, key):
        """index of the entry or None; materialises base entries: returns (m', idx|None)"""
        key = self.mkey(st, key)
        for i, (k, v) in enumerate(m[2]):
            if self.eqv(st, k, key):
                return m, i
        for k in m[3]:
            if self.eqv(st, k, key):
                return m, None
        if m[1] is None:
            return m, None
        base = m[1]
        # alias with keys already decided on this base
        kk = ('has', base[0], key)
        h = st.facts.get(kk)
        if h is None:
            for f in list(st.facts):
                if f[0] == 'has' and f[1] == base[0] and f[2] != key:
                    if any(f[2] == k for k, _ in m[2]) or f[2] in m[3]:
                        continue
                    if self.eqv(st, f[2], key):
                        h = st.facts[f]
                        key = f[2]
                        break
            else:
                if st.facts.get(('closed', base[0])):
                    return m, None
                raise Fork([[(kk, True)], [(kk, False)]])
        if not h:
            return m, None
        val = UNIT if base[2] is None else self.lazy(st, base[2], '%s.%s' % (base[0], kname(key)))
        m = ('M', base, m[2] + ((key, val),), m[3])
        return m, len(m[2]) - 1
    def mkey(self, st, key):
        if isinstance(key, tuple) and key and key[0] == 'R':
            key = self.load(st, key[1], key[2])
        key = self.res(st, key) if not (isinstance(key, tuple) and key and key[0] == 'A') else key
        if isinstance(key, tuple) and key and key[0] == 'A' and self.is_cow(key):
            key = key[3][0]
            if isinstance(key, tuple) and key and key[0] == 'R':
                key = self.load(st, key[1], key[2])
        if isinstance(key, tuple) and key and key[0] == 'S':
            key = self.norm_s(st, key)
        return key
    def map_next_base(self, st, m):
        """materialise one more entry of the unknown remainder; returns (m', found)"""
        base = m[1]
        if base is None:
            return m, False
        have = set(k for k, _ in m[2]) | set(m[3])
        def same(a, b):
            return a == b or (a[0] == 'S' and b[0] == 'S' and self.norm_s(st, a) == self.norm_s(st, b))
        n = 0
        for f, v in list(st.facts.items()):
            if f[0] == 'has' and f[1] == base[0]:
                if v and not any(same(f[2], h) for h in have):
                    val = UNIT if base[2] is None else self.lazy(st, base[2], '%s.%s' % (base[0], kname(f[2])))
                    return ('M', base, m[2] + ((f[2], val),), m[3]), True
        for f in list(st.facts):
            if f[0] == 'rep' and f[1] == base[0]:
                n += 1
        if st.facts.get(('closed', base[0])):
            return m, False
        if self.more(st, base[0], n):
            key = self.lazy(st, base[1], '%s#k%d' % (base[0], n))
            key = self.mkey(st, key) if key[0] == 'A' else key
            # distinct from every key already decided
            lits = set()
            for f, v in list(st.facts.items()):
                if f[0] == 'has' and f[1] == base[0]:
                    l = self.lit(st, f[2]) if f[2][0] == 'S' else None
                    if l is not None:
                        lits.add(l)
                    elif f[2][0] == 'S' and len(f[2][1]) == 1 and f[2][1][0][0] == 'y' and key[0] == 'S':
                        st.facts[('dec', ('streq',) + tuple(sorted(((f[2][1][0],), (key[1][0],)), key=repr)))] = False
            if key[0] == 'S' and key[1] and key[1][0][0] == 'y':
                i = key[1][0][1]
                st.facts[('ne', i)] = st.facts.get(('ne', i), frozenset()) | lits
            st.facts[('rep', base[0], n)] = True
            st.facts[('has', base[0], key)] = True
            val = UNIT if base[2] is None else self.lazy(st, base[2], '%s.%s' % (base[0], kname(key)))
            return ('M', base, m[2] + ((key, val),), m[3]), True
        return m, False
    def more(self, st, ident, n):
        k = ('dec', ('more', ident, n))
        if k in st.facts:
            return st.facts[k]
        if n >= self.max_elems:
            self.stats['bounded'] += 1
            st.facts[k] = False
            st.note('bounded:' + ident.split('#')[0])
            return False
        raise Fork([[(k, False)], [(k, True)]])
    def map_is_empty(self, st, m):
        if m[2]:
            return False
        if m[1] is None:
            return True
        m2, f = self.map_next_base(st, m)
        return not f
    def map_len(self, st, m):
        while True:
            m2, f = self.map_next_base(st, m)
            if not f:
                return m2, len(m2[2])
            m = m2

    # ------------------------------------------------------------ vectors
    def vec_more(self, st, v):
        """materialise one more tail element: returns (v', found)"""
        if v[2] is None:
            return v, False
        ident, et, k = v[2]
        f = st.facts.get(('vlen', ident))
        if f is not None:
            if k >= f:
                return ('V', v[1], None), False
            return ('V', v[1] + (self.lazy(st, et, '%s[%d]' % (ident, k)),), (ident, et, k + 1)), True
        if self.more(st, ident, k):
            return ('V', v[1] + (self.lazy(st, et, '%s[%d]' % (ident, k)),), (ident, et, k + 1)), True
        return ('V', v[1], None), False
    def vec_close(self, st, v):
        while v[2] is not None:
            v, f = self.vec_more(st, v)
        return v
    def vec_at(self, st, ref, i):
        """make sure element i is materialised in the cell; returns whether it exists"""
        v = self.load(st, ref[1], ref[2])
        if is_top(v):
            return None
        while True:
            if i < len(v[1]):
                return True
            v2, f = self.vec_more(st, v)
            self.store(st, ref[1], ref[2], v2)
            if not f:
                return False
            v = v2
    def vec_len(self, st, ref):
        v = self.load(st, ref[1], ref[2])
        if is_top(v):
            return top('len')
        v = self.vec_close(st, v)
        self.store(st, ref[1], ref[2], v)
        return len(v[1])
    def slice_vec(self, st, s):
        """value of a slice as a closed V"""
        if s[0] == 'BY':
            return s
        v = self.load(st, s[1][1], s[1][2])
        if is_top(v):
            return v
        v = self.vec_close(st, v)
        self.store(st, s[1][1], s[1][2], v)
        hi = len(v[1]) if s[3] is None else s[3]
        return ('V', v[1][s[2]:hi], None)

    # ------------------------------------------------------------ memory
    def load(self, st, cell, path=()):
        try:
            v = st.mem[cell]
        except KeyError:
            return top('uninit')
        for i, p in enumerate(path):
            v = self.proj(st, v, p)
        return v
    def proj(self, st, v, p):
        v = self.res(st, v)
        if not isinstance(v, tuple):
            if v is None:
                raise Stuck('moved value')
            raise Stuck('projection of scalar %r %r' % (v, p))
        t = v[0]
        if t == 'T':
            return v
        if t == 'A':
            if p[0] == 'f':
                if p[1] < len(v[3]):
                    return v[3][p[1]]
                raise Stuck('field')
            raise Stuck('bad proj A %r' % (p,))
        if t == 'V':
            i = p[1]
            if i == -1:
                raise Stuck('sym index')
            while i >= len(v[1]):
                v, f = self.vec_more(st, v)
                if not f:
                    raise Stuck('index out of range')
            return v[1][i]
        if t == 'M':
            if p[0] == 'm':
                m, i = self.map_find(st, v, p[1])
                if i is None:
                    raise Stuck('missing key')
                return m[2][i][1]
            if p[0] == 'k':
                m, i = self.map_find(st, v, p[1])
                if i is None:
                    raise Stuck('missing key')
                return m[2][i][0]
        if t in ('R', 'S', 'SL', 'D', 'fn', 'I', 'N') and p == ('f', 0):
            return v
        raise Stuck('projection %s %r' % (t, p))
    def store(self, st, cell, path, nv):
        if not path:
            st.mem[cell] = nv
            return
        st.mem[cell] = self.upd(st, st.mem.get(cell), path, 0, nv)
    def upd(self, st, v, path, i, nv):
        if i == len(path):
            return nv
        p = path[i]
        if v is None:
            v = ('A', None, 0, ())
        v = self.res(st, v)
        if isinstance(v, tuple) and v:
            t = v[0]
            if t == 'T':
                return v
            if t == 'A' and p[0] == 'f':
                fs = list(v[3])
                while len(fs) <= p[1]:
                    fs.append(None)
                fs[p[1]] = self.upd(st, fs[p[1]], path, i + 1, nv)
                return ('A', v[1], v[2], tuple(fs))
            if t == 'V':
                k = p[1]
                while k >= len(v[1]):
                    v, f = self.vec_more(st, v)
                    if not f:
                        raise Stuck('store index')
                es = list(v[1])
                es[k] = self.upd(st, es[k], path, i + 1, nv)
                return ('V', tuple(es), v[2])
            if t == 'M' and p[0] == 'm':
                m, ix = self.map_find(st, v, p[1])
                if ix is None:
                    raise Stuck('store key')
                es = list(m[2])
                es[ix] = (es[ix][0], self.upd(st, es[ix][1], path, i + 1, nv))
                return ('M', m[1], tuple(es), m[3])
            if t in ('R', 'S', 'SL', 'D', 'I') and p == ('f', 0):
                return self.upd(st, v, path, i + 1, nv)
        raise Stuck('store through %r' % (v[0] if isinstance(v, tuple) and v else v,))

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        """-> ('loc', cell, path, ty) or ('val', v, ty)"""
        loc = pl[0]
        ty = fr.body['locals'][loc]
        cur = ('loc', (fr.fid, loc), ())
        for e in pl[1]:
            if e == '*':
                T = self.T[ty]
                nty = T['args'][0] if T.get('box') else T.get('to', ty)
                v = self.load(st, cur[1], cur[2]) if cur[0] == 'loc' else cur[1]
                v = self.res(st, v)
                if not isinstance(v, tuple):
                    if v is None:
                        raise Stuck('deref of moved/uninit')
                    raise Stuck('deref of scalar')
                if v[0] == 'R':
                    cur = ('loc', v[1], v[2])
                elif v[0] == 'T':
                    r = st.alloc(top('deref ' + str(v[1])), 't')
                    cur = ('loc', r[1], ())
                else:
                    cur = ('val', v)
                ty = nty
            elif e[0] == 'f':
                T = self.T[ty]
                fty = e[2]
                if T.get('box'):
                    pass                      # Box field 0: pointer itself
                elif T['k'] == 'union':
                    pass
                elif len(e) > 3:
                    if e[3] == 2:
                        cur = ('val', UNIT)
                elif cur[0] == 'loc':
                    cur = ('loc', cur[1], cur[2] + (('f', e[1]),))
                else:
                    cur = ('val', self.proj(st, cur[1], ('f', e[1])))
                ty = fty
            elif e[0] == 'd':
                pass
            elif e[0] in ('i', 'ci'):
                T = self.T[ty]
                ety = T.get('to', ty)
                if e[0] == 'i':
                    ix = self.load(st, (fr.fid, e[1]))
                else:
                    ix = e[1] if not e[3] else ('end', e[1])
                cur = self.index(st, cur, ix)
                ty = ety
            elif e[0] == 'ss':
                v = cur
                if cur[0] == 'val' and cur[1][0] == 'SL':
                    s = cur[1]
                    n = self.slice_len(st, s)
                    hi = s[2] + n - e[2] if e[3] else s[2] + e[2]
                    cur = ('val', ('SL', s[1], s[2] + e[1], hi))
                else:
                    raise Stuck('subslice')
            else:
                raise Stuck('proj ' + str(e))
        return cur + (ty,)
    def slice_len(self, st, s):
        if s[0] == 'S':
            l = self.lit(st, s)
            if l is not None:
                return len(l.encode())
            return ('sym', 'len(%r)' % (s[1],), 0, self.usize())
        if s[0] == 'T':
            return top('len')
        if s[3] is not None:
            return s[3] - s[2]
        n = self.vec_len(st, s[1])
        if not isinstance(n, int):
            return n
        return n - s[2]
    def usize(self):
        return self.F.tyname.get('usize')
    def index(self, st, cur, ix):
        if cur[0] == 'val':
            s = cur[1]
            if s[0] == 'T':
                return ('val', s)
            if s[0] == 'S':
                l = self.lit(st, s)
                if l is not None and isinstance(ix, int):
                    b = l.encode()
                    if ix < len(b):
                        return ('val', b[ix])
                raise Stuck('byte index of symbolic string')
            if s[0] != 'SL':
                raise Stuck('index of ' + s[0])
            if isinstance(ix, tuple) and ix[0] == 'end':
                n = self.slice_len(st, s)
                ix = n - ix[1]
            if not isinstance(ix, int):
                raise Stuck('symbolic index')
            ok = self.vec_at(st, s[1], s[2] + ix)
            if ok is None:
                return ('val', top('index'))
            return ('loc', s[1][1], s[1][2] + (('e', s[2] + ix),))
        if isinstance(ix, tuple) and ix[0] == 'end':
            n = self.vec_len(st, ('R', cur[1], cur[2]))
            ix = n - ix[1]
        if not isinstance(ix, int):
            r = self.rng(st, ix) if isinstance(ix, tuple) else None
            raise Stuck('symbolic index')
        return ('loc', cur[1], cur[2] + (('e', ix),))
    def read(self, st, fr, pl):
        p = self.place(st, fr, pl)
        if p[0] == 'val':
            return p[1]
        return self.load(st, p[1], p[2])

    # ------------------------------------------------------------ constants
    def const(self, st, t, c):
        if isinstance(c, bool):
            return int(c)
        if isinstance(c, (int, float)):
            return c
        if c == 'zst':
            return UNIT
        if isinstance(c, str):
            return top('const ' + c)
        if 'item' in c:
            return self.const(st, t, c['v'])
        if 'char' in c:
            return c['char']
        if 'float' in c:
            return ('flt', c['float'])
        if 'str' in c:
            return S(c['str'])
        if 'bytes' in c:
            return ('SL', self.ro(st, ('V', tuple(c['bytes']), None)), 0, len(c['bytes']))
        if 'adt' in c:
            ty = c['adt']
            var = c['var']
            nk = self.native_kind(ty)
            if nk == 'S':
                return ('S', ())
            if nk == 'V':
                return ('V', (), None)
            if nk == 'M':
                return ('M', None, (), frozenset())
            if self.T[ty]['k'] == 'struct' and self.T[ty].get('transp') is not None and len(c['f']) > self.T[ty]['transp']:
                return self.const(st, None, c['f'][self.T[ty]['transp']])
            fs = tuple(self.const(st, ft, x) for x, (fn, ft) in zip(c['f'], self.T[ty]['v'][var]['f']))
            return ('A', ty, var, fs)
        if 'tup' in c:
            return ('A', None, 0, tuple(self.const(st, None, x) for x in c['tup']))
        if 'arr' in c:
            return ('V', tuple(self.const(st, None, x) for x in c['arr']), None)
        if 'ptr' in c:
            to = self.T[c['t']]
            v = self.const(st, c['t'], c['ptr'])
            if to['k'] == 'slice':
                return ('SL', self.ro(st, v), 0, len(v[1]))
            return self.ro(st, v)
        if 'static' in c:
            cell = ('static', c['static'])
            if cell not in st.mem:
                sv = self.F.statics.get(c['static'])
                st.mem[cell] = top('static') if sv is None else self.const(st, c['t'], sv)
            return ('R', cell, ())
        if 'fn' in c:
            return ('fn', c['fn'])
        if 'bits' in c:
            return c['bits']
        return top('const')
    def ro(self, st, v):
        cell = ('ro', v)
        st.mem[cell] = v
        return ('R', cell, ())
    def operand(self, st, fr, o):
        if o[0] == 'k':
            v = self.const(st, o[1], o[2])
            if v is UNIT and self.T[o[1]]['k'] == 'struct' and self.native_kind(o[1]) is None:
                return ('A', o[1], 0, ())
            return v
        if o[0] == 'rt':
            return 0            # runtime checks (debug assertions) are off
        v = self.read(st, fr, o[1])
        return v
    def optype(self, fr, o):
        if o[0] == 'k':
            return o[1]
        return self.pltype(fr, o[1])
    def pltype(self, fr, pl):
        key = (id(fr.body), id(pl))
        t = self.tyk.get(key)
        if t is not None:
            return t
        ty = fr.body['locals'][pl[0]]
        for e in pl[1]:
            if e == '*':
                T = self.T[ty]
                ty = T['args'][0] if T.get('box') else T.get('to', ty)
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.T[ty].get('to', ty)
        self.tyk[key] = ty
        return ty

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'rawptr'):
            p = self.place(st, fr, r[2] if k == 'ref' else r[1])
            if p[0] == 'loc':
                if self.is_fat(p[3]):
                    v = self.load(st, p[1], p[2])
                    return v
                return ('R', p[1], p[2])
            v = p[1]
            if isinstance(v, tuple) and v and v[0] in ('S', 'SL', 'D', 'T', 'R', 'BY'):
                if v[0] in ('S',) and not self.is_fat(p[2]):
                    return st.alloc(v, 'tmp')
                return v
            return st.alloc(v, 'tmp')
        if k == 'tup':
            return ('A', None, 0, tuple(self.operand(st, fr, o) for o in r[1]))
        if k == 'arr':
            return ('V', tuple(self.operand(st, fr, o) for o in r[2]), None)
        if k == 'adt':
            ops = tuple(self.operand(st, fr, o) for o in r[3])
            if r[4] is not None:
                return ops[r[4]]
            if self.T[r[1]]['k'] == 'union':
                return ops[0] if ops else top('union')
            return ('A', r[1], r[2], ops)
        if k == 'closure':
            return ('A', r[1], 0, tuple(self.operand(st, fr, o) for o in r[2]))
        if k == 'disc':
            v = self.res(st, self.read(st, fr, r[1]))
            t = self.pltype(fr, r[1])
            if isinstance(v, tuple) and v and v[0] == 'A' and v[1] is not None and self.T[v[1]]['k'] == 'enum':
                return self.T[v[1]]['v'][v[2]]['d']
            if is_top(v):
                return ('topdisc', t)
            if self.T[t]['k'] != 'enum':
                return 0
            if v == UNIT:            # zero-sized enum: its only inhabited variant
                vs = [x for x in self.T[t]['v'] if not x['f']] or self.T[t]['v']
                if len(vs) == 1 or len([x for x in self.T[t]['v'] if not x['f']]) == 1:
                    return vs[0]['d']
            raise Stuck('discriminant of %r' % (v[0] if isinstance(v, tuple) and v else v,))
        if k == 'bin':
            a = self.operand(st, fr, r[2]); b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.optype(fr, r[2]))
        if k == 'un':
            a = self.operand(st, fr, r[2])
            t = self.optype(fr, r[2])
            if r[1] == 'Not':
                a = self.res(st, a)
                if isinstance(a, int):
                    if self.kind(t) == 'bool':
                        return 1 - a
                    lo, hi = self.int_range(t)
                    return hi - a if lo == 0 else ~a
                return top('not')
            if r[1] == 'Neg':
                if isinstance(a, int):
                    return -a
                return top('neg')
            if r[1] == 'PtrMetadata':
                if isinstance(a, tuple) and a[0] in ('SL', 'S'):
                    return self.slice_len(st, a)
                return UNIT
            return top('un')
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4], r[5])
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if r[2] is None or r[2] > 4096:
                return top('repeat')
            return ('V', (v,) * r[2], None)
        if k == 'mkptr':
            return self.operand(st, fr, r[1][0])
        return top('rvalue ' + k)

    def cast(self, st, kind, v, ft, tt, extra):
        if kind.startswith('Unsize'):
            F = self.T[ft]; T = self.T[tt]
            fto = F['args'][0] if F.get('box') else F.get('to', F.get('args', [None])[0])
            tto = T['args'][0] if T.get('box') else T.get('to', T.get('args', [None])[0])
            if tto is not None and self.T[tto]['k'] == 'dyn':
                if isinstance(extra, int):
                    return ('D', v, extra)
                return v
            if tto is not None and self.T[tto]['k'] == 'slice':
                if isinstance(v, tuple) and v[0] == 'R':
                    return ('SL', v, 0, self.T[fto].get('len'))
                return v
            return v
        if kind.startswith('ReifyFnPointer') or kind.startswith('ClosureFnPointer'):
            return ('fn', extra) if isinstance(extra, int) else top('fnptr')
        if kind in ('IntToInt', 'FloatToInt', 'IntToFloat'):
            if isinstance(v, tuple) and v and v[0] == 'L':
                v = self.res(st, v)
            if isinstance(v, tuple) and v and v[0] == 'A' and self.T[ft]['k'] == 'enum':
                v = self.T[v[1]]['v'][v[2]]['d']
            if kind == 'IntToFloat':
                return ('flt', repr(float(v))) if isinstance(v, int) else v
            if isinstance(v, int):
                lo, hi = self.int_range(tt)
                m = hi - lo + 1
                v = v % m
                if v > hi:
                    v -= m
                return v
            if isinstance(v, tuple) and v and v[0] == 'sym':
                r = self.rng(st, v)
                lo, hi = self.int_range(tt)
                if r and r[0][0] >= lo and r[-1][1] <= hi:
                    return ('sym', v[1], v[2], v[3])
            return top('cast')
        if kind == 'Transmute':
            T = self.T[tt]
            if T['k'] in ('int', 'char', 'bool') and isinstance(v, int):
                return v
            if T.get('name') == 'core::option::Option' and (isinstance(v, int) or isinstance(v, tuple) and v and v[0] == 'sym'):
                z = self.cmp(st, 'Eq', v, 0)        # Option<NonZero>
                if z is None:
                    return top('cast')
                return ('A', tt, 0, ()) if z else ('A', tt, 1, (v,))
            if T['k'] == 'int' and isinstance(v, tuple) and v and v[0] == 'A' and v[1] is not None and self.T[v[1]].get('name') == 'core::option::Option':
                return v[3][0] if v[2] == 1 else 0
            return v
        return v

    def binop(self, st, op, a, b, t):
        a = self.res(st, a); b = self.res(st, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if is_top(a) or is_top(b):
                return ('T', 'cmp')
            if isinstance(a, tuple) and a and a[0] in ('R', 'D', 'fn', 'SL', 'S') or isinstance(b, tuple) and b and b[0] in ('R', 'D', 'fn', 'SL', 'S'):
                if op in ('Eq', 'Ne') and a == b:
                    return int(op == 'Eq')
                return ('T', 'ptrcmp')
            if isinstance(a, tuple) and a and a[0] == 'A' or isinstance(b, tuple) and b and b[0] == 'A':
                if a == UNIT and b == UNIT:
                    return int(op in ('Eq', 'Le', 'Ge'))
                return ('T', 'cmp')
            if isinstance(a, tuple) and a[0] == 'flt' or isinstance(b, tuple) and b[0] == 'flt':
                return ('T', 'fcmp')
            r = self.cmp(st, op, a, b)
            return ('T', 'cmp') if r is None else r
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            if isinstance(a, int) and isinstance(b, int):
                x = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[base]
                lo, hi = self.int_range(t)
                return ('A', None, 0, (self.wrap(x, t), int(not (lo <= x <= hi))))
            x = self.arith(st, base, a, b, t)
            r = self.rng(st, x) if isinstance(x, (int, tuple)) and not is_top(x) else None
            if r:
                lo, hi = self.int_range(t)
                if r[0][0] >= lo and r[-1][1] <= hi:
                    return ('A', None, 0, (x, 0))
            return ('A', None, 0, (x, ('T', 'overflow?')))
        if op in ('Cmp',):
            if isinstance(a, int) and isinstance(b, int):
                o = -1 if a < b else (0 if a == b else 1)
            else:
                lt = self.cmp(st, 'Lt', a, b) if not (is_top(a) or is_top(b)) else None
                if lt is None:
                    return top('cmp')
                o = -1 if lt else (1 if self.cmp(st, 'Gt', a, b) else 0)
            t = self.F.__dict__.setdefault('_ord', next(k for k, x in enumerate(self.T) if x.get('name') == 'core::cmp::Ordering'))
            return ('A', t, o + 1, ())
        return self.arith(st, op, a, b, t)
    def wrap(self, x, t):
        lo, hi = self.int_range(t)
        m = hi - lo + 1
        x = (x - lo) % m + lo
        return x
    def arith(self, st, op, a, b, t):
        op = op.replace('Unchecked', '')
        if isinstance(a, int) and isinstance(b, int):
            try:
                if op == 'Add': x = a + b
                elif op == 'Sub': x = a - b
                elif op == 'Mul': x = a * b
                elif op == 'Div': x = int(abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1)
                elif op == 'Rem': x = abs(a) % abs(b) * (1 if a >= 0 else -1)
                elif op == 'BitAnd': x = a & b
                elif op == 'BitOr': x = a | b
                elif op == 'BitXor': x = a ^ b
                elif op == 'Shl': x = a << b
                elif op == 'Shr': x = a >> b
                else: return top('arith')
            except ZeroDivisionError:
                return top('div0')
            return self.wrap(x, t)
        if op in ('Add', 'Sub') and isinstance(a, tuple) and a and a[0] == 'sym' and isinstance(b, int):
            return ('sym', a[1], a[2] + (b if op == 'Add' else -b), a[3])
        if op == 'Add' and isinstance(b, tuple) and b and b[0] == 'sym' and isinstance(a, int):
            return ('sym', b[1], b[2] + a, b[3])
        if self.kind(t) == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int):
                    if op == 'BitAnd':
                        return y if x else 0
                    if op == 'BitOr':
                        return 1 if x else y
        return top('arith')

    # ------------------------------------------------------------ execution
    def push(self, st, ix, args, dest, target):
        inst = self.I[ix]
        body = inst['body']
        if len(st.frames) >= self.max_depth:
            raise Stuck('depth')
        f = Frame()
        f.inst = ix; f.body = body; f.bb = 0; f.si = 0; f.dest = dest; f.target = target
        f.fid = st.fresh(); f.native = None; f.loc = None
        argc = body['argc']
        if len(args) != argc and args and isinstance(args[-1], tuple) and args[-1][0] == 'A' and args[-1][1] is None and body['spread'] is None:
            args = list(args[:-1]) + list(args[-1][3])
        if body['spread'] is not None:
            sp = body['spread']
            if len(args) != argc:
                args = list(args[:sp - 1]) + [('A', None, 0, tuple(args[sp - 1:]))]
        if len(args) != argc:
            raise Stuck('arity %s %d/%d' % (inst['name'], len(args), argc))
        for i, a in enumerate(args):
            st.mem[(f.fid, i + 1)] = a
        st.frames.append(f)
        self.called.add(ix)

    def start(self, root, args, st=None):
        """state about to interpret root(args)"""
        st = st or State()
        ix = self.F.roots[root] if isinstance(root, str) else root
        self.push(st, ix, args, (('ret',), ()), None)
        return st

    def explore(self, st0):
        """all abstract paths; yields finished states with .end set"""
        work = [st0]
        out = []
        n = 0
        t0 = time.time()
        while work:
            st = work.pop()
            n += 1
            self.stats['states'] += 1
            if n > self.max_states or len(work) * (len(st.facts) + len(st.mem)) > self.max_weight or n % 64 == 0 and time.time() - t0 > self.max_seconds:
                st.end = ('stuck', 'state budget')
                out.append(st)
                self.stats['stuck'] += 1 + len(work)
                for s in work:
                    s.end = ('stuck', 'state budget')
                    out.append(s)
                break
            try:
                while st.end is None:
                    self.step(st)
            except Fork as f:
                self.stats['forks'] += 1
                alts = f.alts
                for i, alt in enumerate(alts):
                    s = st.copy() if i + 1 < len(alts) else st
                    for k, v in alt:
                        s.facts[k] = v
                    work.append(s)
                continue
            except Infeasible:
                continue
            except Stuck as e:
                st.end = ('stuck', str(e))
                self.stats['stuck'] += 1
                if os.environ.get('SA_TRACE'):
                    self.where(st, str(e))
            except (Infeasible, Fork):
                raise
            except Exception as e:
                if os.environ.get('SA_TRACE'):
                    import traceback
                    traceback.print_exc(limit=-3)
                    self.where(st, repr(e))
                st.end = ('stuck', 'internal:' + repr(e)[:200])
                self.stats['stuck'] += 1
            self.stats['paths'] += 1
            self.stats['steps'] += st.steps
            out.append(st)
        return out

    def where(self, st, msg=''):
        key = (msg, tuple((f.inst, f.bb) for f in st.frames[-3:]))
        if key in self.traced:
            return
        self.traced.add(key)
        print('STUCK', msg, file=sys.stderr)
        for f in st.frames[-6:]:
            if f.native:
                print('   native', f.native[0], file=sys.stderr)
            else:
                i = self.I[f.inst]
                sp = i['span']
                if f.bb < len(f.body['blocks']):
                    b = f.body['blocks'][f.bb]
                    sp = b[2]
                print('   ', i['name'], '<' + i['astr'] + '>', 'bb', f.bb, 'st', f.si, sp, file=sys.stderr)

    def span(self, st):
        """source position inside /repo of the innermost frame that belongs to it"""
        for f in reversed(st.frames):
            if f.native:
                continue
            b = f.body['blocks'][f.bb]
            if b[2][0].startswith('/repo'):
                return '%s:%s' % (b[2][0][6:], b[2][1])
        return '?'

    def step(self, st):
        fr = st.frames[-1]
        if fr.native is not None:
            return self.native_step(st, fr)
        blk = fr.body['blocks'][fr.bb]
        stmts = blk[0]
        while fr.si < len(stmts):
            s = stmts[fr.si]
            k = s[0]
            if k == '=':
                p = self.place(st, fr, s[1]) if s[1][1] else None
                v = self.rvalue(st, fr, s[2], s[1])
                if p is None:
                    st.mem[(fr.fid, s[1][0])] = v
                elif p[0] == 'loc':
                    self.store(st, p[1], p[2], v)
                elif p[0] == 'val' and is_top(p[1]):
                    pass
                else:
                    raise Stuck('assign to value')
            elif k == 'setd':
                p = self.place(st, fr, s[1])
                v = self.load(st, p[1], p[2])
                fs = v[3] if isinstance(v, tuple) and v and v[0] == 'A' else ()
                self.store(st, p[1], p[2], ('A', p[3], s[2], fs))
            elif k == 'dead':
                pass
            fr.si += 1
            st.steps += 1
        st.steps += 1
        if st.steps > self.max_steps:
            raise Stuck('step budget')
        self.term(st, fr, blk[1])

    def goto(self, st, fr, bb):
        if bb <= fr.bb:
            key = (fr.fid, bb)
            c = st.visits.get(key, 0) + 1
            st.visits[key] = c
            if c > self.max_visits:
                raise Stuck('loop bound')
        fr.bb = bb
        fr.si = 0

    def term(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            self.goto(st, fr, t[1])
        elif k == 'switch':
            v = self.res(st, self.operand(st, fr, t[1]))
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                for x, bb in t[2]:
                    if int(x) == v:
                        return self.goto(st, fr, bb)
                return self.goto(st, fr, t[3])
            if isinstance(v, tuple) and v and v[0] == 'sym':
                for x, bb in t[2]:
                    r = self.cmp(st, 'Eq', v, int(x))
                    if r:
                        return self.goto(st, fr, bb)
                return self.goto(st, fr, t[3])
            # undetermined
            st_key = ('sw', fr.fid, fr.bb, st.visits.get((fr.fid, fr.bb), 0), st.steps)
            kk = ('dec', st_key)
            opts = [bb for x, bb in t[2]] + [t[3]]
            opts = [o for o in dict.fromkeys(opts) if not self.dead_block(fr, o)]
            if kk in st.facts:
                bb = st.facts.pop(kk)
                st.note('imprecise:' + (v[1] if is_top(v) else str(v[0])))
                return self.goto(st, fr, bb)
            st.steps -= 1
            st_key = ('sw', fr.fid, fr.bb, st.visits.get((fr.fid, fr.bb), 0), st.steps + 1)
            raise Fork([[(('dec', st_key), o)] for o in opts])
        elif k == 'ret':
            self.do_return(st, fr)
        elif k == 'call':
            self.call(st, fr, t)
        elif k == 'drop':
            self.goto_next(st, fr, t[2])
        elif k == 'assert':
            v = self.res(st, self.operand(st, fr, t[1]))
            if isinstance(v, int):
                if bool(v) == t[2]:
                    return self.goto_next(st, fr, t[3])
                st.end = ('panic', 'assert:' + t[4], self.span(st))
                return
            st.note('imprecise:assert:' + t[4])
            st.event('maybe_panic', t[4], self.span(st))
            return self.goto_next(st, fr, t[3])
        elif k == 'unreach':
            raise Infeasible()
        elif k == 'resume':
            raise Infeasible()
        else:
            raise Stuck('terminator ' + k)
    def goto_next(self, st, fr, bb):
        self.goto(st, fr, bb)
    def dead_block(self, fr, bb):
        b = fr.body['blocks'][bb]
        return not b[0] and b[1][0] == 'unreach'

    def do_return(self, st, fr):
        v = st.mem.get((fr.fid, 0), UNIT)
        if v is None:
            v = UNIT
        st.frames.pop()
        fid = fr.fid
        for i in range(len(fr.body['locals'])):
            st.mem.pop((fid, i), None)
        self.deliver(st, fr, v)
    def deliver(self, st, fr, v):
        """hand the result of a finished frame to its caller"""
        if not st.frames:
            st.ret = v
            st.end = ('ret',)
            return
        caller = st.frames[-1]
        if caller.native is not None:
            caller.native = caller.native[:2] + (caller.native[2], v)
            return
        cell, path = fr.dest
        self.store(st, cell, path, v)
        if fr.target is None:
            raise Infeasible()
        caller.bb = fr.target if fr.target > caller.bb else caller.bb
        if fr.target <= caller.bb:
            self.goto(st, caller, fr.target)
        else:
            caller.bb = fr.target
        caller.si = 0

    # native frames: native = (fn, state, None, lastresult); fn(E, st, frame) -> None
    def push_native(self, st, fn, state, dest, target):
        f = Frame()
        f.inst = None; f.body = None; f.bb = 0; f.si = 0; f.dest = dest; f.target = target
        f.fid = st.fresh(); f.native = (fn, state, None, None); f.loc = None
        st.frames.append(f)
    def native_step(self, st, fr):
        st.steps += 1
        if st.steps > self.max_steps:
            raise Stuck('step budget')
        fn, state, _, last = fr.native
        r = fn(self, st, state, last)
        if r[0] == 'ret':
            st.frames.pop()
            self.deliver(st, fr, r[1])
        elif r[0] == 'call':
            fr.native = (fn, r[3], None, None)
            self.invoke(st, r[1], r[2], None, None)

    def call(self, st, fr, t):
        callee, dest, target = t[1], t[3], t[4]
        args = [self.operand(st, fr, a) for a in t[2]]
        self.argtys = [self.optype(fr, a) if a[0] != 'rt' else None for a in t[2]]
        d = self.place(st, fr, dest) if dest[1] else ('loc', (fr.fid, dest[0]), ())
        if d[0] != 'loc':
            raise Stuck('call dest')
        if 'i' in callee:
            return self.invoke(st, callee['i'], args, (d[1], d[2]), target, callee.get('via'))
        if 'dyn' in callee:
            f = self.operand(st, fr, callee['dyn'])
            f = self.res(st, f)
            if isinstance(f, tuple) and f and f[0] == 'fn':
                if self.I[f[1]]['kind'] == 'closureonce':
                    args = [UNIT] + list(args)      # a closure without captures, coerced to a function pointer
                return self.invoke(st, f[1], args, (d[1], d[2]), target)
            if isinstance(f, tuple) and f and f[0] == 'hookfn':
                v = f[1](self, st, f, args)
                return self.finish(st, v, (d[1], d[2]), target)
            return self.unknown_call(st, 'fnptr', args, (d[1], d[2]), target, None)
        return self.unknown_call(st, callee.get('trait', '?'), args, (d[1], d[2]), target, None)

    def finish(self, st, v, dest, target):
        if dest is None:
            fr = st.frames[-1]
            fr.native = fr.native[:2] + (None, v)
            return
        if target is None:
            raise Infeasible()
        self.store(st, dest[0], dest[1], v)
        fr = st.frames[-1]
        self.goto(st, fr, target)

    def lookup(self, ix):
        r = self.mcache.get(ix)
        if r is not None:
            return r
        inst = self.I[ix]
        name = inst['name']
        h = self.hooks.get(name)
        if h is None:
            for pred, fn in self.prefix_hooks:
                if pred(inst):
                    h = fn
                    break
        m = None
        if h is None:
            m = self.models.get(name)
            if m is None:
                for p, fn in self.prefix_models:
                    if name.startswith(p):
                        m = fn
                        break
        self.mcache[ix] = (h, m)
        return (h, m)

    def invoke(self, st, ix, args, dest, target, via=None):
        """dest None: the result goes to the native frame on top"""
        inst = self.I[ix]
        h, m = self.lookup(ix)
        f = h or m
        if f is not None:
            r = f(self, st, inst, args)
            if isinstance(r, tuple) and r and r[0] == '!call':
                return self.invoke(st, r[1], r[2], dest, target)
            if isinstance(r, tuple) and r and r[0] == '!native':
                return self.push_native(st, r[1], r[2], dest, target)
            if isinstance(r, tuple) and r and r[0] == '!panic':
                st.end = ('panic', r[1], self.span(st))
                return
            if isinstance(r, tuple) and r and r[0] == '!body':
                pass
            elif r is not None:
                return self.finish(st, r, dest, target)
            else:
                return self.unknown_call(st, inst['name'], args, dest, target, inst)
        k = inst['kind']
        if k == 'virtual':
            d = self.res(st, args[0])
            if isinstance(d, tuple) and d and d[0] == 'D' and d[2] is not None:
                e = self.F.vt[d[2]]['e'][inst['vidx']]
                if e is not None:
                    return self.invoke(st, e, [d[1]] + args[1:], dest, target)
            return self.unknown_call(st, inst['name'], args, dest, target, inst)
        if k == 'vtableshim' and 'body' in inst:
            pass
        if 'body' in inst:
            # rust-call: the caller passes the arguments as one tuple
            if via and via.startswith('core::ops::function::') and inst['body']['spread'] is None and len(args) == 2:
                tup = self.res(st, args[1])
                if isinstance(tup, tuple) and tup and tup[0] == 'A' and tup[1] is None:
                    a2 = [args[0]] + list(tup[3])
                    if k == 'item' and '{closure#' not in inst['name'].rsplit('::', 1)[-1]:
                        a2 = list(tup[3])
                    args = a2
            return self.push(st, ix, args, dest, target)
        return self.unknown_call(st, inst['name'], args, dest, target, inst)

    def unknown_call(self, st, name, args, dest, target, inst):
        self.unknown[name] = self.unknown.get(name, 0) + 1
        if target is None and dest is not None:
            st.end = ('panic', name, self.span(st))
            return
        st.note('unknown:' + name)
        # anything reachable through mutable references may have changed
        tys = self.argtys if len(self.argtys) == len(args) else [None] * len(args)
        for a, t in zip(args, tys):
            if t is not None and self.T[t]['k'] == 'ref' and not self.T[t]['mut']:
                continue
            self.havoc(st, a, name)
        self.finish(st, top(name), dest, target)
    def havoc(self, st, a, name):
        if isinstance(a, tuple) and a and a[0] == 'R' and a[1][0] not in ('ro', 'static'):
            try:
                v = self.load(st, a[1], a[2])
                if isinstance(v, tuple) and v and v[0] not in ('fn',):
                    self.store(st, a[1], a[2], top('havoc ' + name))
            except (Stuck, Fork):
                pass
        elif isinstance(a, tuple) and a and a[0] == 'A':
            for x in a[3]:
                self.havoc(st, x, name)

def has_top(v):
    if isinstance(v, tuple):
        if v and v[0] == 'T':
            return True
        return any(has_top(x) for x in v)
    return False

def kname(k):
    if isinstance(k, tuple) and k and k[0] == 'S':
        return ''.join(p if isinstance(p, str) else '<%s>' % abbrev(p[1]) if p[0] == 'y' else '<?>' for p in k[1])
    return repr(k)

def abbrev(s):
    """bounded-length stand-in for the name of an unknown"""
    if not isinstance(s, str) or len(s) <= 60:
        return s
    import hashlib
    return s[:20] + '~' + hashlib.md5(s.encode()).hexdigest()[:10]
