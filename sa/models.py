"""Models of std / alloc / serde_json leaf operations over the abstract domain.

Each model is fn(E, st, inst, args) -> abstract result.  It may raise Fork before it
changes anything; it must not Fork after a store."""
import json, math
from .engine import *

MODELS = {}
PREFIX = []

def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d

def prefix(*names):
    def d(f):
        for n in names:
            PREFIX.append((n, f))
        return f
    return d

# ------------------------------------------------------------------ helpers
def tyix(E, inst, n=0):
    return inst['targs'][n]

def find_ty(E, name, *args):
    """type index of an ADT instance by name and argument types"""
    key = (name,) + args
    c = getattr(E.F, '_ft', None)
    if c is None:
        c = E.F._ft = {}
        for k, t in enumerate(E.T):
            if t.get('name') and 'args' in t:
                c.setdefault((t['name'],) + tuple(t['args']), k)
            if t.get('name'):
                c.setdefault((t['name'],), k)
    return c.get(key, c.get((name,)))

def opt(E, v, elem=None):
    """Option value; type index is only needed for variant numbering (None=0, Some=1)"""
    t = E.F.__dict__.setdefault('_opt', next(k for k, x in enumerate(E.T) if x.get('name') == 'core::option::Option'))
    return ('A', t, 0, ()) if v is None else ('A', t, 1, (v,))

def result(E, ok=None, err=None):
    t = E.F.__dict__.setdefault('_res', next(k for k, x in enumerate(E.T) if x.get('name') == 'core::result::Result'))
    return ('A', t, 0, (ok,)) if err is None else ('A', t, 1, (err,))

def deref(E, st, v):
    """content of a reference (strings stay strings)"""
    v = E.res(st, v)
    while isinstance(v, tuple) and v and v[0] == 'R':
        v = E.res(st, E.load(st, v[1], v[2]))
    if isinstance(v, tuple) and v and v[0] == 'A' and v[1] is not None and E.is_cow(v):
        return deref(E, st, v[3][0])
    return v

def deref1(E, st, v):
    v = E.res(st, v)
    if isinstance(v, tuple) and v and v[0] == 'R':
        return E.res(st, E.load(st, v[1], v[2]))
    return v

def put(E, st, ref, v):
    ref = E.res(st, ref)
    if is_top(ref):
        return
    if ref[0] != 'R':
        raise Stuck('put through ' + ref[0])
    E.store(st, ref[1], ref[2], v)

def ty_name(E, v):
    return E.T[v[1]].get('name') if isinstance(v, tuple) and v and v[0] == 'A' and v[1] is not None else None

def bool_(x):
    return int(bool(x))

def jv(E, variant, *fields):
    return ('A', E.F.value_ty, E.F.VAR[variant], tuple(fields))

def jstr(E, s):
    return jv(E, 'String', s)

def num(x):
    return ('N', x)

EMPTY_MAP = ('M', None, (), frozenset())
EMPTY_VEC = ('V', (), None)

def to_json(E, st, v, t):
    """abstract serde_json::to_value of v : type t; None when the type is not handled"""
    T = E.T[t]
    if T.get('transp') is not None and T['k'] == 'struct' and not T.get('box'):
        n = T.get('name', '')
        if n == 'schemars::schema::Schema':
            return v
        if n.startswith('core::num'):
            return to_json(E, st, v, T['v'][0]['f'][T['transp']][1])
        return None
    k = T['k']
    if k in ('ref', 'ptr') or T.get('box'):
        to = T['args'][0] if T.get('box') else T['to']
        if E.T[to]['k'] in ('str', 'slice'):
            return to_json(E, st, v, to)
        v = E.res(st, v)
        if isinstance(v, tuple) and v and v[0] == 'R':
            return to_json(E, st, E.load(st, v[1], v[2]), to)
        return to_json(E, st, v, to)
    if k == 'str' or E.native_kind(t) == 'S':
        v = E.res(st, v)
        return jstr(E, v) if v[0] == 'S' else v
    if k == 'bool':
        return jv(E, 'Bool', v)
    if k == 'int':
        return jv(E, 'Number', num(v))
    if k == 'char':
        return jstr(E, char_str(E, st, v))
    if k == 'float':
        if not (isinstance(v, tuple) and v and v[0] == 'flt'):
            return top('float json')
        return jv(E, 'Number', num(v)) if math.isfinite(float(v[1])) else jv(E, 'Null')
    n = T.get('name')
    if n == 'serde_json::value::Value':
        return v
    if n == 'serde_json::map::Map':
        return jv(E, 'Object', v)
    if n == 'serde_json::number::Number':
        return jv(E, 'Number', v)
    if n == 'alloc::borrow::Cow':
        v = E.res(st, v)
        if is_top(v):
            return v
        x = v[3][0]
        if isinstance(x, tuple) and x and x[0] == 'S':
            return jstr(E, x)
        return None
    if n == 'core::option::Option':
        v = E.res(st, v)
        if is_top(v):
            return v
        return jv(E, 'Null') if v[2] == 0 else to_json(E, st, v[3][0], T['args'][0])
    if n == 'alloc::vec::Vec':
        v = E.res(st, v)
        if is_top(v):
            return v
        if v[2] is not None:
            v = E.vec_close(st, v)
        out = []
        for x in v[1]:
            j = to_json(E, st, x, T['args'][0])
            if j is None:
                return None
            out.append(j)
        return jv(E, 'Array', ('V', tuple(out), None))
    if k in ('slice', 'array'):
        if isinstance(v, tuple) and v and v[0] == 'SL':
            v = E.slice_vec(st, v)
        if is_top(v):
            return v
        out = []
        for x in v[1]:
            j = to_json(E, st, x, T['to'])
            if j is None:
                return None
            out.append(j)
        return jv(E, 'Array', ('V', tuple(out), None))
    if k == 'tuple':
        if not T['to']:
            return jv(E, 'Null')
        out = []
        for x, tt in zip(v[3], T['to']):
            j = to_json(E, st, x, tt)
            if j is None:
                return None
            out.append(j)
        return jv(E, 'Array', ('V', tuple(out), None))
    return None

def char_str(E, st, c):
    if isinstance(c, int):
        return S(chr(c))
    if isinstance(c, tuple) and c[0] == 'sym':
        return ('S', (('c', c),))
    return top('char')

# ------------------------------------------------------------------ serde_json conversions
@m('serde_json::value::to_value')
def _(E, st, inst, a):
    t = tyix(E, inst)
    r = to_json(E, st, a[0], t)
    if r is None:
        return ('!body',)
    if is_top(r):
        return r
    return result(E, ok=r)

def v_from(f):
    return lambda E, st, inst, a: f(E, st, a[0])
V = 'serde_json::value::Value'
for n in ('bool',):
    MODELS['<%s as core::convert::From<bool>>::from' % V] = lambda E, st, i, a: jv(E, 'Bool', a[0])
MODELS['<%s as core::convert::From<&str>>::from' % V] = lambda E, st, i, a: jstr(E, a[0]) if a[0][0] == 'S' else a[0]
MODELS['<%s as core::convert::From<alloc::string::String>>::from' % V] = MODELS['<%s as core::convert::From<&str>>::from' % V]
MODELS['<%s as core::convert::From<alloc::borrow::Cow>>::from' % V] = lambda E, st, i, a: jstr(E, deref(E, st, a[0])) if not is_top(deref(E, st, a[0])) else top('cow')
MODELS['<%s as core::convert::From<serde_json::map::Map>>::from' % V] = lambda E, st, i, a: jv(E, 'Object', a[0])
for n in 'i8 i16 i32 i64 isize u8 u16 u32 u64 usize'.split():
    MODELS['<%s as core::convert::From<%s>>::from' % (V, n)] = lambda E, st, i, a: jv(E, 'Number', num(a[0]))
    MODELS['<serde_json::number::Number as core::convert::From<%s>>::from' % n] = lambda E, st, i, a: num(a[0])
for n in 'f32 f64'.split():
    MODELS['<%s as core::convert::From<%s>>::from' % (V, n)] = lambda E, st, i, a: jv(E, 'Number', num(a[0]))
MODELS['<%s as core::convert::From<serde_json::number::Number>>::from' % V] = lambda E, st, i, a: jv(E, 'Number', a[0])

def val_eq(E, st, inst, a):
    x, y = deref1(E, st, a[0]), deref1(E, st, a[1])
    return bool_(E.eqv(st, x, y))
MODELS['<%s as core::cmp::PartialEq<%s>>::eq' % (V, V)] = val_eq
MODELS['<serde_json::map::Map as core::cmp::PartialEq<serde_json::map::Map>>::eq'] = val_eq
MODELS['<serde_json::number::Number as core::cmp::PartialEq<serde_json::number::Number>>::eq'] = val_eq

def val_eq_str(E, st, inst, a):
    x = deref(E, st, a[0]); y = deref(E, st, a[1])
    if y[0] == 'A' and y[1] == E.F.value_ty:
        x, y = y, x
    if is_top(x):
        return top('eq')
    if x[0] == 'A' and x[1] == E.F.value_ty:
        if x[2] != E.F.VAR['String']:
            return 0
        x = x[3][0]
    return bool_(E.str_eq(st, x, y))
for n in ('str', '&str', 'alloc::string::String'):
    MODELS['<%s as core::cmp::PartialEq<%s>>::eq' % (V, n)] = val_eq_str
    MODELS['<%s as core::cmp::PartialEq<%s>>::eq' % (n, V)] = val_eq_str

def val_eq_prim(E, st, inst, a):
    x = deref(E, st, a[0]); y = deref(E, st, a[1])
    if isinstance(y, tuple) and y[0] == 'A' and y[1] == E.F.value_ty:
        x, y = y, x
    if is_top(x):
        return top('eq')
    if x[2] == E.F.VAR['Bool']:
        return bool_(E.eqv(st, x[3][0], y)) if 'bool' in inst['name'] else 0
    if x[2] == E.F.VAR['Number']:
        if 'bool' in inst['name']:
            return 0
        return bool_(E.eqv(st, x[3][0], ('N', y)))
    return 0
for n in 'bool i8 i16 i32 i64 u8 u16 u32 u64 usize isize'.split():
    MODELS['<%s as core::cmp::PartialEq<%s>>::eq' % (V, n)] = val_eq_prim

# Number accessors
@m('serde_json::number::Number::as_u64', 'serde_json::number::Number::as_i64', 'serde_json::number::Number::as_f64',
   'serde_json::number::Number::is_u64', 'serde_json::number::Number::is_i64', 'serde_json::number::Number::is_f64')
def _(E, st, inst, a):
    n = deref(E, st, a[0])
    meth = inst['name'].rsplit('::', 1)[1]
    if n[0] == 'N' and isinstance(n[1], int):
        x = n[1]
        u = 0 <= x < 1 << 64
        i = -(1 << 63) <= x < 1 << 63
        if meth == 'as_u64': return opt(E, x if u else None)
        if meth == 'as_i64': return opt(E, x if i else None)
        if meth == 'as_f64': return opt(E, ('flt', repr(float(x))))
        return int({'is_u64': u, 'is_i64': i, 'is_f64': False}[meth])
    if n[0] == 'N' and n[1][0] == 'sym':
        r = E.rng(st, n[1])
        lo, hi = r[0][0], r[-1][1]
        if meth == 'as_u64':
            ok = E.cmp(st, 'Ge', n[1], 0) and E.cmp(st, 'Lt', n[1], 1 << 64)
            return opt(E, n[1] if ok else None)
        if meth == 'as_i64':
            ok = E.cmp(st, 'Ge', n[1], -(1 << 63)) and E.cmp(st, 'Lt', n[1], 1 << 63)
            return opt(E, n[1] if ok else None)
    ident = repr(n)
    if n[0] == 'N' and n[1][0] == 'flt':
        if meth == 'as_f64':
            return opt(E, n[1])
        return opt(E, None) if meth.startswith('as_') else int(meth == 'is_f64')
    k = E.decide(st, ('numkind', ident), ('neg', 'small', 'big', 'float'))
    if meth.startswith('is_'):
        return int({'is_u64': k in ('small', 'big'), 'is_i64': k in ('neg', 'small'), 'is_f64': k == 'float'}[meth])
    sy = ('sym', 'num:' + ident, 0, None)
    if ('rng', sy[1]) not in st.facts and k != 'float':
        st.facts[('rng', sy[1])] = {'neg': ((-(1 << 63), -1),), 'small': ((0, (1 << 63) - 1),), 'big': ((1 << 63, (1 << 64) - 1),)}[k]
    if meth == 'as_u64':
        return opt(E, sy if k in ('small', 'big') else None)
    if meth == 'as_i64':
        return opt(E, sy if k in ('small', 'neg') else None)
    return opt(E, top('f64'))

@m('serde_json::error::Error::custom', '<serde_json::error::Error as serde_core::de::Error>::custom', '<serde_json::error::Error as serde_core::ser::Error>::custom',
   '<serde_json::error::Error as serde_core::de::Error>::invalid_type', '<serde_json::error::Error as serde_core::de::Error>::invalid_value')
def _(E, st, inst, a):
    return ('A', None, 0, (('I', 'json_error'),))

# ------------------------------------------------------------------ clone / default / mem
def dyn_copy(E, st, d):
    v = E.load(st, d[1][1], d[1][2])
    if E.dyn_clone: v = E.dyn_clone(st, v, d[2])
    return ('D', st.alloc(v, 'box'), d[2])

def deep_clone(E, st, v, t):
    """value-preserving copy; boxes get fresh cells"""
    T = E.T[t]
    if T.get('box'):
        v = E.res(st, v)
        if isinstance(v, tuple) and v and v[0] == 'R':
            return st.alloc(deep_clone(E, st, E.res(st, E.load(st, v[1], v[2])), T['args'][0]), 'box')
        if isinstance(v, tuple) and v and v[0] == 'D':
            return dyn_copy(E, st, v)
        return v
    nk = E.native_kind(t)
    if nk == 'V' and isinstance(v, tuple) and v and v[0] == 'V':
        et = T['args'][0]
        if E.T[et].get('box'):
            return ('V', tuple(deep_clone(E, st, x, et) for x in v[1]), v[2])
    if T['k'] == 'struct' and isinstance(v, tuple) and v and v[0] == 'A' and nk is None:
        return ('A', v[1], v[2], tuple(deep_clone(E, st, x, ft) for x, (fn, ft) in zip(v[3], T['v'][0]['f'])))
    return v

CLONES = ['alloc::string::String', 'alloc::vec::Vec', 'serde_json::map::Map', V, 'serde_json::number::Number', 'alloc::boxed::Box',
          'alloc::collections::btree::map::BTreeMap', 'alloc::collections::btree::set::BTreeSet', 'std::collections::hash::map::HashMap',
          'std::collections::hash::set::HashSet', 'indexmap::map::IndexMap', 'alloc::borrow::Cow']
for n in CLONES:
    def cl(E, st, inst, a):
        v = deref1(E, st, a[0])
        # the type is the Self type of the impl: recover it from the value shape
        if isinstance(v, tuple) and v and v[0] == 'V' and inst['targs'] and E.T[inst['targs'][0]].get('box'):
            vals = []
            et = inst['targs'][0]
            return ('V', tuple(deep_clone(E, st, x, et) for x in v[1]), v[2])
        if 'Box' in inst['name']:
            v0 = E.res(st, a[0])
            b = E.load(st, v0[1], v0[2]) if v0[0] == 'R' else v0
            b = E.res(st, b)
            if isinstance(b, tuple) and b and b[0] == 'R':
                return st.alloc(E.load(st, b[1], b[2]), 'box')
            if isinstance(b, tuple) and b and b[0] == 'D':
                return dyn_copy(E, st, b)
            return b
        return v
    MODELS['<%s as core::clone::Clone>::clone' % n] = cl

@m('dyn_clone::clone_box', 'dyn_clone::clone')
def _(E, st, inst, a):
    d = E.res(st, a[0])
    if isinstance(d, tuple) and d[0] == 'D':
        return dyn_copy(E, st, d)
    return None

@m('core::mem::take')
def _(E, st, inst, a):
    old = E.load(st, *loc(E, st, a[0]))
    t = tyix(E, inst)
    d = default_of(E, t)
    if d is None:
        return ('!body',)
    put(E, st, a[0], d)
    return old

def loc(E, st, r):
    r = E.res(st, r)
    if isinstance(r, tuple) and r and r[0] == 'R':
        return r[1], r[2]
    raise Stuck('not a plain reference: %r' % (r[0] if isinstance(r, tuple) and r else r,))

def default_of(E, t):
    T = E.T[t]
    nk = E.native_kind(t)
    if nk == 'S': return ('S', ())
    if nk == 'V': return EMPTY_VEC
    if nk == 'M': return EMPTY_MAP
    if T['k'] in ('int', 'bool', 'char'): return 0
    n = T.get('name')
    if n == 'core::option::Option': return ('A', t, 0, ())
    if n == V: return ('A', t, E.F.VAR['Null'], ())
    if T['k'] == 'tuple' and not T['to']: return UNIT
    return None

@m('core::mem::replace')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0])
    old = E.load(st, c, p)
    E.store(st, c, p, a[1])
    return old
@m('core::mem::swap')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0]); c2, p2 = loc(E, st, a[1])
    x, y = E.load(st, c, p), E.load(st, c2, p2)
    E.store(st, c, p, y); E.store(st, c2, p2, x)
    return UNIT
@m('core::mem::drop', 'core::mem::forget')
def _(E, st, inst, a): return UNIT
@m('core::ptr::write', 'core::intrinsics::write_via_move')
def _(E, st, inst, a):
    put(E, st, a[0], a[1]); return UNIT
@m('core::ptr::read', 'core::intrinsics::read_via_copy')
def _(E, st, inst, a):
    return E.load(st, *loc(E, st, a[0]))
@m('core::hint::must_use', 'core::convert::identity', 'core::hint::black_box')
def _(E, st, inst, a): return a[0]
@m('core::hint::assert_unchecked', 'core::intrinsics::assume', 'core::intrinsics::cold_path', 'core::intrinsics::assert_inhabited', 'core::intrinsics::assert_zero_valid')
def _(E, st, inst, a): return UNIT
@m('core::intrinsics::likely', 'core::intrinsics::unlikely')
def _(E, st, inst, a): return a[0]
@m('core::intrinsics::transmute')
def _(E, st, inst, a): return a[0]
@m('core::intrinsics::discriminant_value')
def _(E, st, inst, a):
    v = deref1(E, st, a[0])
    if isinstance(v, tuple) and v and v[0] == 'A' and v[1] is not None and E.T[v[1]]['k'] == 'enum':
        return E.T[v[1]]['v'][v[2]]['d']
    if isinstance(v, tuple) and v and v[0] == 'A':
        return 0
    return top('disc')
def dyn_src(E, d):
    """concrete type behind a trait object"""
    if isinstance(d, tuple) and d and d[0] == 'D' and d[2] is not None:
        return E.F.vt[d[2]]['src']
    return None
def any_target(E, inst):
    return inst['targs'][-1]
def an_option(E, v=None):
    t = E.F.__dict__.setdefault('_opt', next(k for k, x in enumerate(E.T) if x.get('name') == 'core::option::Option'))
    return ('A', t, 0, ()) if v is None else ('A', t, 1, (v,))
@m('dyn core::any::Any::is', 'dyn core::any::Any + core::marker::Send::is')
def _(E, st, inst, a):
    s = dyn_src(E, E.res(st, a[0]))
    return None if s is None else int(s == any_target(E, inst))
@m('dyn core::any::Any::downcast_ref', 'dyn core::any::Any::downcast_mut')
def _(E, st, inst, a):
    d = E.res(st, a[0])
    s = dyn_src(E, d)
    if s is None:
        return None
    return an_option(E, d[1]) if s == any_target(E, inst) else an_option(E)
@m('alloc::boxed::Box::downcast')
def _(E, st, inst, a):
    d = E.res(st, a[0])
    s = dyn_src(E, d)
    if s is None:
        return ('!body',)
    return result(E, ok=d[1]) if s == any_target(E, inst) else result(E, err=d)
@m('core::any::type_name', 'core::intrinsics::type_name')
def _(E, st, inst, a): return S(E.T[tyix(E, inst)]['s'])
@m('core::any::TypeId::of')
def _(E, st, inst, a): return ('I', 'typeid', E.T[tyix(E, inst)]['s'])
@m('<core::any::TypeId as core::cmp::PartialEq>::eq', '<core::any::TypeId as core::cmp::PartialEq<core::any::TypeId>>::eq')
def _(E, st, inst, a):
    x, y = deref1(E, st, a[0]), deref1(E, st, a[1])
    return top('typeid') if is_top(x) or is_top(y) else int(x == y)
@m('core::intrinsics::size_of', 'core::mem::size_of')
def _(E, st, inst, a): return 8
@m('core::intrinsics::is_val_statically_known')
def _(E, st, inst, a): return 0
@m('core::intrinsics::compare_bytes')
def _(E, st, inst, a): return top('compare_bytes')
@m('core::intrinsics::needs_drop', 'core::mem::needs_drop')
def _(E, st, inst, a): return 1
@m('core::intrinsics::ub_checks', 'core::ub_checks::check_language_ub')
def _(E, st, inst, a): return 0

# saturating / wrapping intrinsics
def intr_bin(f):
    def g(E, st, inst, a):
        x, y = a[0], a[1]
        t = tyix(E, inst)
        if isinstance(x, int) and isinstance(y, int):
            return f(E, x, y, t)
        return top('intr')
    return g
MODELS['core::intrinsics::wrapping_add'] = intr_bin(lambda E, x, y, t: E.wrap(x + y, t))
MODELS['core::intrinsics::wrapping_sub'] = intr_bin(lambda E, x, y, t: E.wrap(x - y, t))
MODELS['core::intrinsics::wrapping_mul'] = intr_bin(lambda E, x, y, t: E.wrap(x * y, t))
MODELS['core::intrinsics::saturating_add'] = intr_bin(lambda E, x, y, t: min(max(x + y, E.int_range(t)[0]), E.int_range(t)[1]))
MODELS['core::intrinsics::saturating_sub'] = intr_bin(lambda E, x, y, t: min(max(x - y, E.int_range(t)[0]), E.int_range(t)[1]))
MODELS['core::intrinsics::unchecked_add'] = MODELS['core::intrinsics::wrapping_add']
MODELS['core::intrinsics::unchecked_sub'] = MODELS['core::intrinsics::wrapping_sub']

# ------------------------------------------------------------------ Box
@m('alloc::boxed::Box::new', 'alloc::boxed::box_new', 'alloc::boxed::box_new_uninit')
def _(E, st, inst, a):
    return st.alloc(a[0] if a else None, 'box')
@m('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(E, st, inst, a):
    return E.load(st, *loc(E, st, a[0]))
@m('<alloc::boxed::Box as core::convert::AsMut<T>>::as_mut', '<alloc::boxed::Box as core::convert::AsRef<T>>::as_ref',
   '<alloc::boxed::Box as core::ops::deref::Deref>::deref', '<alloc::boxed::Box as core::ops::deref::DerefMut>::deref_mut',
   '<alloc::boxed::Box as core::borrow::Borrow<T>>::borrow', '<alloc::boxed::Box as core::borrow::BorrowMut<T>>::borrow_mut')
def _(E, st, inst, a):
    return E.res(st, E.load(st, *loc(E, st, a[0])))
@m('alloc::boxed::Box::into_raw', 'alloc::boxed::Box::from_raw', 'alloc::boxed::Box::leak', 'alloc::boxed::Box::into_inner_unused')
def _(E, st, inst, a): return a[0]
@m('alloc::slice::into_vec', 'alloc::slice::{impl#0}::into_vec')
def _(E, st, inst, a):
    v = E.res(st, a[0])
    if v[0] == 'SL':
        return E.slice_vec(st, v)
    if v[0] == 'R':
        return E.load(st, v[1], v[2])
    return None
@m('alloc::vec::Vec::into_boxed_slice')
def _(E, st, inst, a):
    r = st.alloc(a[0], 'box')
    return ('SL', r, 0, None)

# ------------------------------------------------------------------ Vec / slices
@m('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', '<alloc::vec::Vec as core::default::Default>::default', 'alloc::vec::Vec::new_in', 'alloc::vec::Vec::with_capacity_in',
   'alloc::vec::from_elem_unused')
def _(E, st, inst, a): return EMPTY_VEC
@m('alloc::vec::from_elem')
def _(E, st, inst, a):
    if isinstance(a[1], int) and a[1] < 4096:
        return ('V', (a[0],) * a[1], None)
    return top('from_elem')

def vget(E, st, r):
    c, p = loc(E, st, r)
    v = E.res(st, E.load(st, c, p))
    return c, p, v

@m('alloc::vec::Vec::push')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return UNIT
    v = E.vec_close(st, v)
    E.store(st, c, p, ('V', v[1] + (a[1],), None))
    return UNIT
@m('alloc::vec::Vec::pop')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return v
    v = E.vec_close(st, v)
    if not v[1]:
        E.store(st, c, p, v)
        return opt(E, None)
    E.store(st, c, p, ('V', v[1][:-1], None))
    return opt(E, v[1][-1])
@m('alloc::vec::Vec::len')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0])
    return E.vec_len(st, ('R', c, p))
@m('alloc::vec::Vec::is_empty')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return v
    if v[1]:
        return 0
    v2, f = E.vec_more(st, v)
    E.store(st, c, p, v2)
    return int(not f)
@m('alloc::vec::Vec::insert')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return UNIT
    if not isinstance(a[1], int):
        raise Stuck('insert at symbolic index')
    while a[1] > len(v[1]):
        v, f = E.vec_more(st, v)
        if not f:
            return ('!panic', 'Vec::insert out of range')
    E.store(st, c, p, ('V', v[1][:a[1]] + (a[2],) + v[1][a[1]:], v[2]))
    return UNIT
@m('alloc::vec::Vec::remove')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return v
    if not isinstance(a[1], int):
        raise Stuck('remove at symbolic index')
    while a[1] >= len(v[1]):
        v, f = E.vec_more(st, v)
        if not f:
            return ('!panic', 'Vec::remove out of range')
    E.store(st, c, p, ('V', v[1][:a[1]] + v[1][a[1] + 1:], v[2]))
    return v[1][a[1]]
@m('alloc::vec::Vec::swap_remove')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return v
    v = E.vec_close(st, v)
    if not isinstance(a[1], int) or a[1] >= len(v[1]):
        return ('!panic', 'Vec::swap_remove out of range')
    x = list(v[1]); r = x[a[1]]; last = x.pop()
    if a[1] < len(x):
        x[a[1]] = last
    E.store(st, c, p, ('V', tuple(x), None))
    return r
@m('alloc::vec::Vec::clear')
def _(E, st, inst, a):
    put(E, st, a[0], EMPTY_VEC); return UNIT
@m('alloc::vec::Vec::truncate')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return UNIT
    if not isinstance(a[1], int):
        raise Stuck('truncate')
    while len(v[1]) < a[1] and v[2] is not None:
        v, f = E.vec_more(st, v)
    E.store(st, c, p, ('V', v[1][:a[1]], None))
    return UNIT
@m('alloc::vec::Vec::append')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0]); c2, p2, w = vget(E, st, a[1])
    if is_top(v) or is_top(w):
        E.store(st, c, p, top('append')); return UNIT
    v = E.vec_close(st, v)
    E.store(st, c, p, ('V', v[1] + w[1], w[2]))
    E.store(st, c2, p2, EMPTY_VEC)
    return UNIT
@m('alloc::vec::Vec::extend_from_slice')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    w = as_vec(E, st, a[1])
    if is_top(v) or is_top(w):
        E.store(st, c, p, top('extend')); return UNIT
    v = E.vec_close(st, v)
    E.store(st, c, p, ('V', v[1] + w[1], None))
    return UNIT
@m('alloc::vec::Vec::reserve', 'alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::reserve_exact', 'alloc::string::String::reserve', 'serde_json::map::Map::reserve')
def _(E, st, inst, a): return UNIT
@m('<alloc::vec::Vec as core::ops::deref::Deref>::deref', '<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut', 'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice',
   '<alloc::vec::Vec as core::convert::AsRef<[T]>>::as_ref', '<alloc::vec::Vec as core::borrow::Borrow<[T]>>::borrow')
def _(E, st, inst, a):
    r = E.res(st, a[0])
    if is_top(r):
        return r
    if r[0] == 'R':
        v = E.load(st, r[1], r[2])
        if isinstance(v, tuple) and v and v[0] == 'BY':
            return v
        return ('SL', r, 0, None)
    return None
@m('alloc::vec::Vec::as_ptr', 'alloc::vec::Vec::as_mut_ptr')
def _(E, st, inst, a): return ('SL', E.res(st, a[0]), 0, None)

def as_vec(E, st, s):
    s = E.res(st, s)
    if is_top(s):
        return s
    if s[0] == 'SL':
        return E.slice_vec(st, s)
    if s[0] == 'R':
        return as_vec(E, st, E.load(st, s[1], s[2]))
    if s[0] == 'V':
        return E.vec_close(st, s)
    if s[0] == 'BY':
        l = E.lit(st, s[1])
        if l is not None:
            return ('V', tuple(l.encode()), None)
        return top('bytes')
    raise Stuck('as_vec ' + s[0])

@m('core::slice::len')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    if s[0] == 'BY':
        return E.slice_len(st, s[1])
    return E.slice_len(st, s)
@m('core::slice::is_empty')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    if is_top(s):
        return s
    if s[0] == 'BY':
        return bool_(E.str_eq(st, s[1], S('')))
    if s[3] is not None:
        return int(s[3] <= s[2])
    ok = E.vec_at(st, s[1], s[2])
    return top('empty') if ok is None else int(not ok)
@m('core::slice::iter', 'core::slice::iter_mut', 'core::slice::iter::Iter::new', 'core::slice::iter::IterMut::new', '<&[T] as core::iter::traits::collect::IntoIterator>::into_iter', '<&mut [T] as core::iter::traits::collect::IntoIterator>::into_iter',
   '<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter', '<&mut alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter',
   '<&[T; N] as core::iter::traits::collect::IntoIterator>::into_iter', '<&mut [T; N] as core::iter::traits::collect::IntoIterator>::into_iter')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    if is_top(s):
        return s
    if s[0] == 'R':
        v = E.res(st, E.load(st, s[1], s[2]))
        if is_top(v):
            return v
        if v[0] == 'SL':
            s = v
        else:
            s = ('SL', s, 0, None)
    if s[0] == 'BY':
        l = E.lit(st, s[1])
        if l is None:
            return ('I', 'bytes', s[1], 0)
        s = ('SL', E.ro(st, ('V', tuple(l.encode()), None)), 0, None)
    return ('A', None, 0, (('I', 'sliceiter'), s[1], s[2], s[3]))
def iter_state(E, st, r):
    c, p = loc(E, st, r)
    it = E.res(st, E.load(st, c, p))
    if isinstance(it, tuple) and it and it[0] == 'A' and it[1] is not None and len(it[3]) == 3 and E.T[it[1]].get('name') in ('core::slice::iter::Iter', 'core::slice::iter::IterMut'):
        s = E.res(st, it[3][0])      # built in place by an inlined constructor: pointer + end
        if isinstance(s, tuple) and s and s[0] == 'SL' and is_top(it[3][1]):
            it = ('A', None, 0, (('I', 'sliceiter'), s[1], s[2], s[3]))
            E.store(st, c, p, it)
        else:
            return c, p, top('raw slice iterator')
    return c, p, it
@m('<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::next', '<core::slice::iter::IterMut as core::iter::traits::iterator::Iterator>::next')
def _(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    if it[0] == 'I' and it[1] == 'bytes':
        return bytes_next(E, st, c, p, it, ref=True)
    tag, ref, lo, hi = it[3]
    if hi is not None and lo >= hi:
        return opt(E, None)
    ok = E.vec_at(st, ref, lo)
    if ok is None:
        return top('iter')
    if not ok:
        return opt(E, None)
    E.store(st, c, p, ('A', None, 0, (tag, ref, lo + 1, hi)))
    return opt(E, ('R', ref[1], ref[2] + (('e', lo),)))
@m('<core::slice::iter::Iter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back', '<core::slice::iter::IterMut as core::iter::traits::double_ended::DoubleEndedIterator>::next_back')
def _(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    tag, ref, lo, hi = it[3]
    if hi is None:
        hi = E.vec_len(st, ref)
        if not isinstance(hi, int):
            return top('iter')
    if lo >= hi:
        return opt(E, None)
    E.store(st, c, p, ('A', None, 0, (tag, ref, lo, hi - 1)))
    return opt(E, ('R', ref[1], ref[2] + (('e', hi - 1),)))
def remaining(E, st, it):
    """number of items a modelled iterator has left, None if unknown"""
    if not (isinstance(it, tuple) and it and it[0] == 'A' and it[1] is None and it[3] and isinstance(it[3][0], tuple)):
        return None
    tag = it[3][0]
    if tag in (('I', 'sliceiter'), ('I', 'vecinto')):
        _, ref, lo, hi = it[3]
        if hi is None:
            hi = E.vec_len(st, ref)
        return hi - lo if isinstance(hi, int) and isinstance(lo, int) else None
    if tag in (('I', 'mapiter'), ('I', 'mapinto')):
        ref = it[3][1]
        v = E.res(st, E.load(st, ref[1], ref[2]))
        if is_top(v) or v[1] is not None:
            return None
        return len(v[2]) - it[3][2]
    return None
def iter_hint(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    n = remaining(E, st, it)
    if n is None:
        return ('A', None, 0, (top('size_hint'), opt(E, top('size_hint'))))
    return ('A', None, 0, (n, opt(E, n)))
def iter_len(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    n = remaining(E, st, it)
    return n if n is not None else top('len')
for n in ('core::slice::iter::Iter', 'core::slice::iter::IterMut', 'alloc::vec::into_iter::IntoIter'):
    MODELS['<%s as core::iter::traits::iterator::Iterator>::size_hint' % n] = iter_hint
    MODELS['<%s as core::iter::traits::exact_size::ExactSizeIterator>::len' % n] = iter_len
@m('core::num::nonzero::NonZero::new')
def _(E, st, inst, a):
    v = E.res(st, a[0])
    if is_top(v):
        return top('nonzero')
    z = E.cmp(st, 'Eq', v, 0)
    if z is None:
        return top('nonzero')
    return opt(E, None if z else v)
@m('core::num::nonzero::NonZero::get')
def _(E, st, inst, a):
    return E.res(st, a[0])
@m('<core::slice::iter::Iter as core::clone::Clone>::clone')
def _(E, st, inst, a): return deref1(E, st, a[0])
@m('<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter', '<[T; N] as core::iter::traits::collect::IntoIterator>::into_iter', '<core::array::iter::IntoIter as core::iter::traits::collect::IntoIterator>::into_iter',
   'core::array::iter::{impl#0}::into_iter')
def _(E, st, inst, a):
    v = E.res(st, a[0])
    if is_top(v):
        return v
    if v[0] == 'A' and v[1] is None and v[3] and v[3][0] == ('I', 'vecinto'):
        return v
    r = st.alloc(v, 'vi')
    return ('A', None, 0, (('I', 'vecinto'), r, 0, None))
@m('<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next', '<core::array::iter::IntoIter as core::iter::traits::iterator::Iterator>::next',
   '<alloc::vec::drain::Drain as core::iter::traits::iterator::Iterator>::next')
def _(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    tag, ref, lo, hi = it[3]
    if hi is not None and lo >= hi:
        return opt(E, None)
    ok = E.vec_at(st, ref, lo)
    if ok is None:
        return top('iter')
    if not ok:
        return opt(E, None)
    E.store(st, c, p, ('A', None, 0, (tag, ref, lo + 1, hi)))
    return opt(E, E.load(st, ref[1], ref[2] + (('e', lo),)))
@m('<alloc::vec::into_iter::IntoIter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back', '<core::array::iter::IntoIter as core::iter::traits::double_ended::DoubleEndedIterator>::next_back')
def _(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    tag, ref, lo, hi = it[3]
    if hi is None:
        hi = E.vec_len(st, ref)
        if not isinstance(hi, int):
            return top('iter')
    if lo >= hi:
        return opt(E, None)
    E.store(st, c, p, ('A', None, 0, (tag, ref, lo, hi - 1)))
    return opt(E, E.load(st, ref[1], ref[2] + (('e', hi - 1),)))
@m('alloc::vec::into_iter::IntoIter::as_slice')
def _(E, st, inst, a):
    it = deref1(E, st, a[0])
    if is_top(it):
        return it
    return ('SL', it[3][1], it[3][2], it[3][3])
def range_of(E, st, inst, r, n):
    """(lo, hi) of a range value"""
    r = E.res(st, r)
    nm = ty_name(E, r) or ''
    f = r[3] if isinstance(r, tuple) and r[0] == 'A' else ()
    if nm.endswith('RangeFull') or not f:
        return 0, n
    if nm.endswith('RangeFrom'):
        return f[0], n
    if nm.endswith('RangeTo'):
        return 0, f[0]
    if nm.endswith('RangeInclusive'):
        return f[0], (f[1] + 1 if isinstance(f[1], int) else f[1])
    if nm.endswith('RangeToInclusive'):
        return 0, (f[0] + 1 if isinstance(f[0], int) else f[0])
    return f[0], f[1]

@m('<alloc::vec::Vec as core::ops::index::Index<I>>::index', '<alloc::vec::Vec as core::ops::index::IndexMut<I>>::index_mut',
   '<[T] as core::ops::index::Index<I>>::index', '<[T] as core::ops::index::IndexMut<I>>::index_mut')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    if is_top(s):
        return s
    if s[0] == 'R':
        s = ('SL', s, 0, None)
    ix = E.res(st, a[1])
    if s[0] == 'BY':
        return bytes_index(E, st, s, ix)
    if isinstance(ix, int):
        ok = (s[3] is None or s[2] + ix < s[3]) and E.vec_at(st, s[1], s[2] + ix)
        if ok is None:
            return top('index')
        if not ok:
            return ('!panic', 'index out of bounds')
        return ('R', s[1][1], s[1][2] + (('e', s[2] + ix),))
    if isinstance(ix, tuple) and ix[0] == 'A':
        n = E.slice_len(st, s)
        if not isinstance(n, int):
            return top('slice range')
        lo, hi = range_of(E, st, inst, ix, n)
        if isinstance(lo, int) and isinstance(hi, int):
            if lo > hi or hi > n:
                return ('!panic', 'slice range out of bounds')
            return ('SL', s[1], s[2] + lo, s[2] + hi)
    return top('slice index')
@m('core::slice::get', 'core::slice::get_mut')
def _(E, st, inst, a):
    s = E.res(st, a[0]); ix = E.res(st, a[1])
    if is_top(s):
        return s
    if isinstance(ix, int) and s[0] == 'SL':
        ok = (s[3] is None or s[2] + ix < s[3]) and E.vec_at(st, s[1], s[2] + ix)
        if ok is None:
            return top('get')
        return opt(E, ('R', s[1][1], s[1][2] + (('e', s[2] + ix),)) if ok else None)
    if isinstance(ix, tuple) and ix[0] == 'A' and s[0] == 'SL':
        n = E.slice_len(st, s)
        if isinstance(n, int):
            lo, hi = range_of(E, st, inst, ix, n)
            if isinstance(lo, int) and isinstance(hi, int):
                return opt(E, None if lo > hi or hi > n else ('SL', s[1], s[2] + lo, s[2] + hi))
    return top('slice get')
@m('core::slice::to_vec', 'alloc::slice::to_vec', 'alloc::slice::{impl#0}::to_vec', '<[T] as alloc::borrow::ToOwned>::to_owned', '<alloc::vec::Vec as core::convert::From<&[T]>>::from')
def _(E, st, inst, a): return as_vec(E, st, a[0])
@m('core::slice::as_ptr', 'core::slice::as_mut_ptr')
def _(E, st, inst, a): return a[0]
@m('core::slice::swap')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    if s[0] == 'SL' and isinstance(a[1], int) and isinstance(a[2], int):
        x = E.load(st, s[1][1], s[1][2] + (('e', s[2] + a[1]),)); y = E.load(st, s[1][1], s[1][2] + (('e', s[2] + a[2]),))
        E.store(st, s[1][1], s[1][2] + (('e', s[2] + a[1]),), y); E.store(st, s[1][1], s[1][2] + (('e', s[2] + a[2]),), x)
        return UNIT
    return None
@m('core::slice::reverse')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    v = as_vec(E, st, s)
    if is_top(v):
        return UNIT
    if s[2] == 0 and s[3] is None:
        E.store(st, s[1][1], s[1][2], ('V', tuple(reversed(v[1])), None))
        return UNIT
    return None
@m('alloc::vec::Vec::drain')
def _(E, st, inst, a):
    c, p, v = vget(E, st, a[0])
    if is_top(v):
        return v
    v = E.vec_close(st, v)
    lo, hi = range_of(E, st, inst, a[1], len(v[1]))
    if not (isinstance(lo, int) and isinstance(hi, int)):
        return top('drain')
    if lo > hi or hi > len(v[1]):
        return ('!panic', 'drain range')
    E.store(st, c, p, ('V', v[1][:lo] + v[1][hi:], None))
    r = st.alloc(('V', v[1][lo:hi], None), 'vi')
    return ('A', None, 0, (('I', 'vecinto'), r, 0, None))
@m('<alloc::vec::Vec as core::cmp::PartialEq<alloc::vec::Vec>>::eq', '<alloc::vec::Vec as core::cmp::PartialEq<[U; N]>>::eq', '<alloc::vec::Vec as core::cmp::PartialEq<&[U]>>::eq')
def _(E, st, inst, a):
    x, y = as_vec(E, st, a[0]), as_vec(E, st, a[1])
    if is_top(x) or is_top(y):
        return top('veceq')
    if len(x[1]) != len(y[1]):
        return 0
    return int(all(E.eqv(st, p, q) for p, q in zip(x[1], y[1])))
@m('alloc::slice::{impl#0}::concat', 'alloc::slice::concat', '<[V] as alloc::slice::Concat<T>>::concat')
def _(E, st, inst, a):
    v = as_vec(E, st, a[0])
    if is_top(v):
        return v
    items = [deref(E, st, x) for x in v[1]]
    if all(isinstance(x, tuple) and x[0] == 'S' for x in items):
        return E.concat(st, *items)
    return None
@m('alloc::slice::{impl#0}::join', 'alloc::slice::join', '<[S] as alloc::slice::Join<&str>>::join')
def _(E, st, inst, a):
    v = as_vec(E, st, a[0])
    if is_top(v):
        return v
    items = [deref(E, st, x) for x in v[1]]
    sep = deref(E, st, a[1])
    if all(isinstance(x, tuple) and x[0] == 'S' for x in items) and sep[0] == 'S':
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(sep)
            out.append(x)
        return E.concat(st, *out) if out else S('')
    return None
@m('alloc::slice::{impl#0}::sort', 'alloc::slice::sort', 'core::slice::sort_unstable')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    v = as_vec(E, st, s)
    if is_top(v):
        return UNIT
    ls = [E.lit(st, deref(E, st, x)) if not isinstance(x, int) else x for x in v[1]]
    if any(l is None for l in ls) or len(set(map(type, ls))) > 1 or s[2] != 0 or s[3] is not None:
        E.store(st, s[1][1], s[1][2], top('sort'))
        return UNIT
    E.store(st, s[1][1], s[1][2], ('V', tuple(x for _, x in sorted(zip(ls, v[1]), key=lambda q: q[0].encode() if isinstance(q[0], str) else q[0])), None))
    return UNIT

# ------------------------------------------------------------------ maps (serde_json Map, BTreeMap, BTreeSet, HashMap, IndexMap)
JM = 'serde_json::map::Map'
BM = 'alloc::collections::btree::map::BTreeMap'
BS = 'alloc::collections::btree::set::BTreeSet'
HM = 'std::collections::hash::map::HashMap'
HS = 'std::collections::hash::set::HashSet'
IM = 'indexmap::map::IndexMap'
MAPS = (JM, BM, HM, IM)
SETS = (BS, HS)

def mm(suffixes, kinds=MAPS + SETS):
    def d(f):
        for k in kinds:
            for s in suffixes:
                MODELS[k + '::' + s] = f
        return f
    return d

def mget(E, st, r):
    c, p = loc(E, st, r)
    v = E.res(st, E.load(st, c, p))
    return c, p, v

for k in MAPS + SETS:
    for s in ('new', 'with_capacity', 'new_in'):
        MODELS['%s::%s' % (k, s)] = lambda E, st, i, a: EMPTY_MAP
    MODELS['<%s as core::default::Default>::default' % k] = lambda E, st, i, a: EMPTY_MAP

def is_sorted_map(inst):
    return 'btree' in inst['name']

@mm(['insert'], MAPS)
def map_insert(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('map')
    key = E.mkey(st, a[1])
    if is_top(key):
        E.store(st, c, p, top('map key'))
        return top('map')
    v, i = E.map_find(st, v, key)
    if i is None:
        E.store(st, c, p, ('M', v[1], v[2] + ((key, a[2]),), frozenset(k for k in v[3] if k != key)))
        return opt(E, None)
    es = list(v[2]); old = es[i][1]; es[i] = (es[i][0], a[2])
    E.store(st, c, p, ('M', v[1], tuple(es), v[3]))
    return opt(E, old)
@mm(['insert'], SETS)
def set_insert(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('set')
    key = E.mkey(st, a[1])
    if is_top(key):
        E.store(st, c, p, top('set key'))
        return top('set')
    v, i = E.map_find(st, v, key)
    if i is None:
        E.store(st, c, p, ('M', v[1], v[2] + ((key, UNIT),), frozenset(k for k in v[3] if k != key)))
        return 1
    E.store(st, c, p, v)
    return 0
@mm(['replace'], SETS)
def set_replace(E, st, inst, a):
    r = set_insert(E, st, inst, a)
    return opt(E, None) if r == 1 else (opt(E, a[1]) if r == 0 else r)
@mm(['get', 'get_mut', 'get_key_value'])
def map_get(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('map get')
    key = E.mkey(st, a[1])
    if is_top(key):
        return top('map key')
    v, i = E.map_find(st, v, key)
    E.store(st, c, p, v)
    if i is None:
        return opt(E, None)
    k = v[2][i][0]
    if any(inst['name'].startswith(s + '::') for s in SETS):
        return opt(E, key_ref(E, st, c, p, k))
    r = ('R', c, p + (('m', k),))
    if inst['name'].endswith('get_key_value'):
        return opt(E, ('A', None, 0, (key_ref(E, st, c, p, k), r)))
    return opt(E, r)
def key_ref(E, st, c, p, k):
    return ('R', c, p + (('k', k),))
@mm(['contains_key', 'contains'])
def map_contains(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('map contains')
    key = E.mkey(st, a[1])
    if is_top(key):
        return top('map key')
    v, i = E.map_find(st, v, key)
    E.store(st, c, p, v)
    return int(i is not None)
def removed(v, k):
    return v[3] | {k} if v[1] is not None else v[3]
@mm(['remove', 'swap_remove', 'shift_remove', 'remove_entry', 'swap_remove_entry', 'shift_remove_entry', 'take'])
def map_remove(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('map remove')
    key = E.mkey(st, a[1])
    if is_top(key):
        E.store(st, c, p, top('map key'))
        return top('map key')
    v, i = E.map_find(st, v, key)
    isset = any(inst['name'].startswith(s + '::') for s in SETS)
    if i is None:
        E.store(st, c, p, v)
        return 0 if isset and not inst['name'].endswith('take') else opt(E, None)
    k, x = v[2][i]
    es = v[2][:i] + v[2][i + 1:]
    E.store(st, c, p, ('M', v[1], es, removed(v, k)))
    if isset:
        return opt(E, k) if inst['name'].endswith('take') else 1
    if 'entry' in inst['name'].rsplit('::', 1)[1]:
        return opt(E, ('A', None, 0, (k, x)))
    return opt(E, x)
@mm(['len'])
def map_len(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('len')
    v, n = E.map_len(st, v)
    E.store(st, c, p, v)
    return n
@mm(['is_empty'])
def map_is_empty(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('empty')
    if v[2]:
        return 0
    v2, f = E.map_next_base(st, v)
    E.store(st, c, p, v2)
    return int(not f)
@mm(['clear'])
def map_clear(E, st, inst, a):
    put(E, st, a[0], EMPTY_MAP); return UNIT
@mm(['append'])
def map_append(E, st, inst, a):
    c, p, v = mget(E, st, a[0]); c2, p2, w = mget(E, st, a[1])
    if is_top(v) or is_top(w):
        E.store(st, c, p, top('append')); return UNIT
    w = map_close(E, st, w)
    for k, x in w[2]:
        v, i = E.map_find(st, v, k)
        if i is None:
            v = ('M', v[1], v[2] + ((k, x),), frozenset(q for q in v[3] if q != k))
        else:
            es = list(v[2]); es[i] = (es[i][0], x); v = ('M', v[1], tuple(es), v[3])
    E.store(st, c, p, v); E.store(st, c2, p2, EMPTY_MAP)
    return UNIT
def map_close(E, st, m):
    while True:
        m2, f = E.map_next_base(st, m)
        m = m2
        if not f:
            return ('M', None, m[2], frozenset()) if m[1] is not None else m

# iteration: iterators hold the cell of the map and a position
def miter(kind):
    def f(E, st, inst, a):
        r = E.res(st, a[0])
        if is_top(r):
            return r
        if r[0] != 'R':
            raise Stuck('map iter over ' + r[0])
        v = E.res(st, E.load(st, r[1], r[2]))
        if is_top(v):
            return v
        return ('A', None, 0, (('I', 'mapiter'), r, 0, kind, None))
    return f
for k in MAPS:
    mod = k.rsplit('::', 1)[0]
    MODELS[k + '::iter'] = miter('kv'); MODELS[k + '::iter_mut'] = miter('kv')
    MODELS[k + '::keys'] = miter('k'); MODELS[k + '::values'] = miter('v'); MODELS[k + '::values_mut'] = miter('v')
    MODELS['<&%s as core::iter::traits::collect::IntoIterator>::into_iter' % k] = miter('kv')
    MODELS['<&mut %s as core::iter::traits::collect::IntoIterator>::into_iter' % k] = miter('kv')
for k in SETS:
    MODELS[k + '::iter'] = miter('k')
    MODELS['<&%s as core::iter::traits::collect::IntoIterator>::into_iter' % k] = miter('k')
def minto(kind):
    def f(E, st, inst, a):
        v = E.res(st, a[0])
        if is_top(v):
            return v
        r = st.alloc(v, 'mi')
        return ('A', None, 0, (('I', 'mapinto'), r, 0, kind, None))
    return f
for k in MAPS:
    MODELS['<%s as core::iter::traits::collect::IntoIterator>::into_iter' % k] = minto('kv')
    MODELS[k + '::into_keys'] = minto('k'); MODELS[k + '::into_values'] = minto('v')
for k in SETS:
    MODELS['<%s as core::iter::traits::collect::IntoIterator>::into_iter' % k] = minto('k')

def sort_view(E, st, v, inst):
    """BTree collections iterate in key order; only decidable for literal keys"""
    return v

def map_next(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    if it[0] == 'A' and it[3] and it[3][0] == ('I', 'vecinto') or it[0] == 'A' and it[3] and it[3][0] == ('I', 'sliceiter'):
        return MODELS['<core::slice::iter::Iter as core::iter::traits::iterator::Iterator>::next'](E, st, inst, a)
    tag, ref, pos, kind, order = it[3]
    v = E.res(st, E.load(st, ref[1], ref[2]))
    if is_top(v):
        return v
    if 'btree' in inst['name'] and order is None and v[1] is None:
        ls = [E.lit(st, k) if k[0] == 'S' else None for k, _ in v[2]]
        if all(l is not None for l in ls):
            v = ('M', None, tuple(e for _, e in sorted(zip(ls, v[2]), key=lambda q: q[0].encode())), v[3])
            E.store(st, ref[1], ref[2], v)
    if pos >= len(v[2]):
        v, f = E.map_next_base(st, v)
        E.store(st, ref[1], ref[2], v)
        if not f:
            return opt(E, None)
    key, val = v[2][pos]
    E.store(st, c, p, ('A', None, 0, (tag, ref, pos + 1, kind, order or 1)))
    if tag[1] == 'mapinto':
        kk, vv = key, val
    else:
        kk = key_ref(E, st, ref[1], ref[2], key)
        vv = ('R', ref[1], ref[2] + (('m', key),))
    if kind == 'k':
        return opt(E, kk)
    if kind == 'v':
        return opt(E, vv)
    return opt(E, ('A', None, 0, (kk, vv)))
for pre in ('serde_json::map::', 'alloc::collections::btree::map::', 'alloc::collections::btree::set::', 'std::collections::hash::map::', 'std::collections::hash::set::', 'indexmap::map::iter::'):
    for n in ('Iter', 'IterMut', 'IntoIter', 'Keys', 'Values', 'ValuesMut', 'IntoKeys', 'IntoValues'):
        MODELS['<%s%s as core::iter::traits::iterator::Iterator>::next' % (pre, n)] = map_next
        MODELS['<%s%s as core::iter::traits::iterator::Iterator>::size_hint' % (pre, n)] = iter_hint
        MODELS['<%s%s as core::iter::traits::exact_size::ExactSizeIterator>::len' % (pre, n)] = iter_len

# entries
def find_entry_ty(E, inst):
    t = find_ty(E, inst['name'].rsplit('::', 2)[0] + '::Entry')
    return t
@mm(['entry'], MAPS)
def map_entry(E, st, inst, a):
    c, p, v = mget(E, st, a[0])
    if is_top(v):
        return top('entry')
    key = E.mkey(st, a[1])
    if is_top(key):
        E.store(st, c, p, top('map key'))
        return top('entry')
    v, i = E.map_find(st, v, key)
    E.store(st, c, p, v)
    nm = {JM: 'serde_json::map::Entry', BM: 'alloc::collections::btree::map::entry::Entry', HM: 'std::collections::hash::map::Entry', IM: 'indexmap::map::core::entry::Entry'}[inst['name'].rsplit('::', 1)[0]]
    cands = [k for k, t in enumerate(E.T) if t.get('name') == nm]
    t = cands[0]
    vn = [x['n'] for x in E.T[t]['v']].index('Vacant' if i is None else 'Occupied')
    k = key if i is None else v[2][i][0]
    return ('A', t, vn, (('A', None, 0, (('I', 'entry'), ('R', c, p), k)),))
ENT = ['serde_json::map::', 'alloc::collections::btree::map::entry::', 'std::collections::hash::map::', 'indexmap::map::core::entry::']
def em(names):
    def d(f):
        for e in ENT:
            for n in names:
                MODELS[e + n] = f
        return f
    return d
def ent(E, st, e):
    e = E.res(st, e)
    while isinstance(e, tuple) and e and e[0] == 'R':
        e = E.res(st, E.load(st, e[1], e[2]))
    if is_top(e):
        return None
    return e[3][1], e[3][2]
@em(['VacantEntry::insert', 'VacantEntry::insert_entry'])
def _(E, st, inst, a):
    x = ent(E, st, a[0])
    if x is None:
        return top('entry')
    ref, k = x
    v = E.res(st, E.load(st, ref[1], ref[2]))
    if is_top(v):
        return v
    E.store(st, ref[1], ref[2], ('M', v[1], v[2] + ((k, a[1]),), frozenset(q for q in v[3] if q != k)))
    return ('R', ref[1], ref[2] + (('m', k),))
@em(['OccupiedEntry::into_mut', 'OccupiedEntry::get', 'OccupiedEntry::get_mut'])
def _(E, st, inst, a):
    x = ent(E, st, a[0])
    if x is None:
        return top('entry')
    ref, k = x
    return ('R', ref[1], ref[2] + (('m', k),))
@em(['OccupiedEntry::key', 'VacantEntry::key'])
def _(E, st, inst, a):
    x = ent(E, st, a[0])
    if x is None:
        return top('entry')
    return E.ro(st, x[1])
@em(['VacantEntry::into_key'])
def _(E, st, inst, a):
    x = ent(E, st, a[0])
    return top('entry') if x is None else x[1]
@em(['OccupiedEntry::insert'])
def _(E, st, inst, a):
    x = ent(E, st, a[0])
    if x is None:
        return top('entry')
    ref, k = x
    old = E.load(st, ref[1], ref[2] + (('m', k),))
    E.store(st, ref[1], ref[2] + (('m', k),), a[1])
    return old
@em(['OccupiedEntry::remove', 'OccupiedEntry::swap_remove', 'OccupiedEntry::shift_remove', 'OccupiedEntry::remove_entry', 'OccupiedEntry::swap_remove_entry', 'OccupiedEntry::shift_remove_entry'])
def _(E, st, inst, a):
    x = ent(E, st, a[0])
    if x is None:
        return top('entry')
    ref, k = x
    v, i = E.map_find(st, E.load(st, ref[1], ref[2]), k)
    val = v[2][i][1]
    E.store(st, ref[1], ref[2], ('M', v[1], v[2][:i] + v[2][i + 1:], removed(v, k)))
    if 'entry' in inst['name'].rsplit('::', 1)[1]:
        return ('A', None, 0, (k, val))
    return val
@em(['Entry::or_insert'])
def _(E, st, inst, a):
    e = E.res(st, a[0])
    if is_top(e):
        return e
    occ = E.T[e[1]]['v'][e[2]]['n'] == 'Occupied'
    ref, k = ent(E, st, e[3][0])
    if not occ:
        v = E.res(st, E.load(st, ref[1], ref[2]))
        E.store(st, ref[1], ref[2], ('M', v[1], v[2] + ((k, a[1]),), frozenset(q for q in v[3] if q != k)))
    return ('R', ref[1], ref[2] + (('m', k),))
@em(['Entry::key'])
def _(E, st, inst, a):
    e = deref1(E, st, a[0])
    x = ent(E, st, e[3][0])
    return E.ro(st, x[1])
# or_insert_with / and_modify are interpreted from their bodies (match on self)

# ------------------------------------------------------------------ strings
STR = ['<alloc::string::String as core::ops::deref::Deref>::deref', 'alloc::string::String::as_str', 'alloc::string::String::as_mut_str', '<alloc::string::String as core::ops::deref::DerefMut>::deref_mut',
       '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<alloc::string::String as core::borrow::Borrow<str>>::borrow', '<str as core::convert::AsRef<str>>::as_ref',
       '<alloc::borrow::Cow as core::ops::deref::Deref>::deref', '<alloc::borrow::Cow as core::convert::AsRef<T>>::as_ref', '<alloc::borrow::Cow as core::borrow::Borrow<B>>::borrow',
       'alloc::string::String::clone_from_unused']
def str_deref(E, st, inst, a):
    v = deref(E, st, a[0])
    if is_top(v) or v[0] == 'S':
        return v
    if v[0] == 'V':
        r = E.res(st, a[0])
        x = E.res(st, E.load(st, r[1], r[2]))
        if ty_name(E, x) == 'alloc::borrow::Cow':
            return None
    return ('!body',)
for n in STR:
    MODELS[n] = str_deref
@m('<core::borrow::T as core::borrow::Borrow<T>>::borrow')
def _(E, st, inst, a): return a[0]
for n in ['<str as alloc::string::ToString>::to_string', '<T as alloc::string::SpecToString>::spec_to_string', '<T as alloc::string::ToString>::to_string', '<&str as alloc::string::SpecToString>::spec_to_string',
          '<str as alloc::borrow::ToOwned>::to_owned', '<alloc::string::String as core::convert::From<&str>>::from', '<alloc::string::String as core::convert::From<&alloc::string::String>>::from',
          '<alloc::string::String as core::convert::From<alloc::borrow::Cow>>::from', '<alloc::string::String as core::convert::From<&mut str>>::from', 'alloc::borrow::Cow::into_owned', 'alloc::str::into_string', '<str as alloc::string::SpecToString>::spec_to_string',
          '<alloc::string::String as alloc::string::SpecToString>::spec_to_string', 'alloc::string::String::into_boxed_str', 'alloc::str::{impl#4}::to_owned', 'alloc::str::to_owned', '<alloc::boxed::Box as core::convert::From<&str>>::from',
          '<alloc::boxed::Box as core::convert::From<alloc::string::String>>::from', '<alloc::string::String as core::convert::From<alloc::boxed::Box>>::from', 'alloc::str::into_boxed_str']:
    def to_s(E, st, inst, a):
        v = deref(E, st, a[0])
        if isinstance(v, tuple) and v and v[0] == 'S':
            return v
        if isinstance(v, int) and inst['targs'] and E.T[inst['targs'][0]]['k'] == 'char':
            return S(chr(v))
        if isinstance(v, int) and inst['targs'] and E.T[inst['targs'][0]]['k'] == 'int':
            return S(str(v))
        if is_top(v):
            return v
        if isinstance(v, tuple) and v and v[0] == 'sym' and inst['targs']:
            if E.T[inst['targs'][0]]['k'] == 'char':
                return ('S', (('c', v),))
            return ('S', (('n', v),))
        return ('!body',)
    MODELS[n] = to_s
@m('<alloc::string::String as core::convert::From<char>>::from')
def _(E, st, inst, a): return char_str(E, st, a[0])
@m('alloc::string::String::new', 'alloc::string::String::with_capacity', '<alloc::string::String as core::default::Default>::default', '<&str as core::default::Default>::default', '<str as core::default::Default>::default')
def _(E, st, inst, a): return ('S', ())
@m('alloc::string::String::push_str', 'alloc::string::String::insert_str_unused', '<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0])
    v = E.load(st, c, p); s = deref(E, st, a[1])
    E.store(st, c, p, E.concat(st, v, s) if v[0] == 'S' and s[0] == 'S' else top('push_str'))
    return UNIT
@m('<alloc::string::String as core::fmt::Write>::write_str')
def _(E, st, inst, a):
    MODELS['alloc::string::String::push_str'](E, st, inst, a)
    return result(E, ok=UNIT)
@m('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def _(E, st, inst, a): return E.concat(st, deref(E, st, a[0]), deref(E, st, a[1]))
@m('alloc::string::String::push')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0])
    v = E.load(st, c, p); s = char_str(E, st, a[1])
    E.store(st, c, p, E.concat(st, v, s) if v[0] == 'S' and s[0] == 'S' else top('push'))
    return UNIT
@m('alloc::string::String::insert', 'alloc::string::String::insert_str')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0])
    v = E.load(st, c, p)
    s = char_str(E, st, a[2]) if inst['name'].endswith('insert') else deref(E, st, a[2])
    if a[1] == 0 and v[0] == 'S' and s[0] == 'S':
        E.store(st, c, p, E.concat(st, s, v)); return UNIT
    l = E.lit(st, v)
    if l is not None and isinstance(a[1], int) and s[0] == 'S':
        b = l.encode()
        E.store(st, c, p, E.concat(st, S(b[:a[1]].decode()), s, S(b[a[1]:].decode()))); return UNIT
    E.store(st, c, p, top('insert')); return UNIT
@m('alloc::string::String::clear')
def _(E, st, inst, a):
    put(E, st, a[0], ('S', ())); return UNIT
@m('alloc::string::String::pop')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0])
    v = E.norm_s(st, E.load(st, c, p))
    if v[0] == 'S':
        if not v[1]:
            return opt(E, None)
        if isinstance(v[1][-1], str):
            E.store(st, c, p, E.norm_s(st, ('S', v[1][:-1] + (v[1][-1][:-1],))))
            return opt(E, ord(v[1][-1][-1]))
        if v[1][-1][0] == 'c':
            E.store(st, c, p, ('S', v[1][:-1]))
            return opt(E, v[1][-1][1])
    E.store(st, c, p, top('pop'))
    return top('pop')
@m('alloc::string::String::truncate')
def _(E, st, inst, a):
    c, p = loc(E, st, a[0])
    l = E.lit(st, E.load(st, c, p))
    E.store(st, c, p, S(l.encode()[:a[1]].decode(errors='replace')) if l is not None and isinstance(a[1], int) else top('truncate'))
    return UNIT
@m('alloc::string::String::len', 'core::str::len', '<str as core::str::len>::len')
def _(E, st, inst, a):
    v = deref(E, st, a[0])
    return E.slice_len(st, v)
@m('alloc::string::String::is_empty', 'core::str::is_empty')
def _(E, st, inst, a):
    v = deref(E, st, a[0])
    if is_top(v):
        return v
    return bool_(E.str_eq(st, v, S('')))
@m('<str as core::cmp::PartialEq>::eq', '<str as core::cmp::PartialEq<str>>::eq', '<alloc::string::String as core::cmp::PartialEq<alloc::string::String>>::eq', '<alloc::string::String as core::cmp::PartialEq<str>>::eq',
   '<alloc::string::String as core::cmp::PartialEq<&str>>::eq', '<&str as core::cmp::PartialEq<alloc::string::String>>::eq', '<str as core::cmp::PartialEq<alloc::string::String>>::eq',
   '<alloc::borrow::Cow as core::cmp::PartialEq<alloc::borrow::Cow>>::eq', '<alloc::borrow::Cow as core::cmp::PartialEq<str>>::eq', '<alloc::borrow::Cow as core::cmp::PartialEq<&str>>::eq',
   '<alloc::borrow::Cow as core::cmp::PartialEq<alloc::string::String>>::eq', '<alloc::string::String as core::cmp::PartialEq<alloc::borrow::Cow>>::eq',
   '<str as core::cmp::PartialEq<alloc::borrow::Cow>>::eq', '<&str as core::cmp::PartialEq<alloc::borrow::Cow>>::eq', 'core::str::traits::{impl#1}::eq')
def str_eq_m(E, st, inst, a):
    x, y = deref(E, st, a[0]), deref(E, st, a[1])
    if is_top(x) or is_top(y):
        return top('streq')
    return bool_(E.str_eq(st, x, y))
for k in list(MODELS):
    if MODELS[k] is str_eq_m and k.endswith('::eq'):
        MODELS[k[:-2] + 'ne'] = lambda E, st, inst, a: (lambda r: r if is_top(r) else 1 - r)(str_eq_m(E, st, inst, a))

def str_pred(kind, f):
    def g(E, st, inst, a):
        s = deref(E, st, a[0]); pat = E.res(st, a[1])
        if isinstance(pat, tuple) and pat and pat[0] == 'A' and pat[1] is not None and E.kind(pat[1]) == 'closure':
            return ('!body',)
        if isinstance(pat, int):
            pat = S(chr(pat))
        pat = deref(E, st, pat)
        if is_top(s) or is_top(pat) or s[0] != 'S' or pat[0] != 'S':
            return top(kind)
        s = E.norm_s(st, s)
        pl = E.lit(st, pat)
        sl = E.lit(st, s)
        if pl is not None and sl is not None:
            return int(f(sl, pl))
        if pl is not None:
            if not pl:
                return 1
            r = str_shape_pred(E, st, s, kind, pl)
            if r is not None:
                return int(r)
            if len(s[1]) == 1 and s[1][0][0] == 'y':
                ident = s[1][0][1]
                key = ('dec', (kind, ident, pl))
                if key in st.facts:
                    return int(st.facts[key])
                # settle against known inequalities is not needed; fork
                raise Fork([[(key, True)], [(key, False)]])
        return int(E.decide(st, (kind, s, pat)))
    return g
def str_shape_pred(E, st, s, kind, lit):
    parts = s[1]
    if kind == 'starts':
        if parts and isinstance(parts[0], str):
            h = parts[0]
            if len(h) >= len(lit):
                return h.startswith(lit)
            if not lit.startswith(h):
                return False
        if parts and isinstance(parts[0], tuple) and parts[0][0] == 'c':
            if not E.cmp(st, 'Eq', parts[0][1], ord(lit[0])):
                return False
            if len(lit) == 1:
                return True
    if kind == 'ends':
        if parts and isinstance(parts[-1], str):
            h = parts[-1]
            if len(h) >= len(lit):
                return h.endswith(lit)
            if not lit.endswith(h):
                return False
    if kind == 'contains':
        if any(isinstance(p, str) and lit in p for p in parts):
            return True
        if len(lit) == 1 and all(isinstance(p, str) or p[0] in ('c', 'n', 'hex') or p[0] == 'y' for p in parts):
            res = False
            for p in parts:
                if isinstance(p, tuple) and p[0] == 'c':
                    if E.cmp(st, 'Eq', p[1], ord(lit)):
                        return True
                elif isinstance(p, tuple) and p[0] == 'y':
                    if E.decide(st, ('contains', p[1], lit)):
                        return True
            return False
    return None
MODELS['core::str::starts_with'] = str_pred('starts', lambda s, p: s.startswith(p))
MODELS['core::str::ends_with'] = str_pred('ends', lambda s, p: s.endswith(p))
MODELS['core::str::contains'] = str_pred('contains', lambda s, p: p in s)

@m('core::str::strip_prefix', 'core::str::strip_suffix')
def _(E, st, inst, a):
    pre = inst['name'].endswith('prefix')
    r = MODELS['core::str::starts_with' if pre else 'core::str::ends_with'](E, st, inst, a)
    if not isinstance(r, int):
        return top('strip')
    if not r:
        return opt(E, None)
    s = E.norm_s(st, deref(E, st, a[0])); pat = E.res(st, a[1])
    if isinstance(pat, int):
        pat = S(chr(pat))
    pat = deref(E, st, pat)
    pl = E.lit(st, pat)
    if pl is None:
        pn = E.norm_s(st, pat)
        if pre and s[1][:len(pn[1])] == pn[1]:
            return opt(E, ('S', s[1][len(pn[1]):]))
        return top('strip')
    if not pl:
        return opt(E, s)
    n = len(pl)
    if pre and isinstance(s[1][0], str) and len(s[1][0]) >= n:
        return opt(E, E.norm_s(st, ('S', (s[1][0][n:],) + s[1][1:])))
    if not pre and isinstance(s[1][-1], str) and len(s[1][-1]) >= n:
        return opt(E, E.norm_s(st, ('S', s[1][:-1] + (s[1][-1][:-n],))))
    if pre and s[1][0][0] == 'c' and n == 1:
        return opt(E, ('S', s[1][1:]))
    if len(s[1]) == 1 and s[1][0][0] == 'y':
        return opt(E, ('S', (('y', '%s%s%r' % (s[1][0][1], '-' if pre else '~', pl)),)))
    return top('strip')

@m('core::str::find', 'core::str::rfind')
def _(E, st, inst, a):
    s = deref(E, st, a[0]); pat = E.res(st, a[1])
    if isinstance(pat, int): pat = S(chr(pat))
    l = E.lit(st, s)
    pl = E.lit(st, deref(E, st, pat)) if not (isinstance(pat, tuple) and pat[0] == 'A') else None
    if l is not None and pl is not None:
        i = l.find(pl) if inst['name'].endswith('::find') else l.rfind(pl)
        return opt(E, None if i < 0 else len(l[:i].encode()))
    return top('find')
@m('core::str::split_once', 'core::str::rsplit_once')
def _(E, st, inst, a):
    s = deref(E, st, a[0]); pat = E.res(st, a[1])
    if isinstance(pat, int): pat = S(chr(pat))
    l = E.lit(st, s); pl = E.lit(st, deref(E, st, pat)) if not (isinstance(pat, tuple) and pat[0] == 'A') else None
    if l is not None and pl is not None:
        if pl not in l:
            return opt(E, None)
        x, y = l.split(pl, 1) if not inst['name'].endswith('rsplit_once') else l.rsplit(pl, 1)
        return opt(E, ('A', None, 0, (S(x), S(y))))
    return top('split_once')
@m('alloc::str::replace')
def _(E, st, inst, a):
    s = E.norm_s(st, deref(E, st, a[0])); pat = E.res(st, a[1]); to = deref(E, st, a[2])
    if isinstance(pat, int): pat = S(chr(pat))
    pl = E.lit(st, deref(E, st, pat)) if not (isinstance(pat, tuple) and pat[0] == 'A') else None
    if pl is None or is_top(s) or to[0] != 'S':
        return top('replace')
    tl = E.lit(st, to)
    l = E.lit(st, s)
    if l is not None and tl is not None:
        return S(l.replace(pl, tl))
    if len(pl) == 1 and tl is not None:
        out = []
        for p in s[1]:
            if isinstance(p, str):
                out.append(p.replace(pl, tl))
            elif p[0] == 'c':
                out.append(tl if E.cmp(st, 'Eq', p[1], ord(pl)) else p)
            elif p[0] == 'y':
                out.append(('y', 'replace(%s,%r,%r)' % (p[1], pl, tl)))
            else:
                out.append(p)
        return E.norm_s(st, ('S', tuple(out)))
    if len(s[1]) == 1 and s[1][0][0] == 'y':
        return ('S', (('y', 'replace(%s,%r,%r)' % (s[1][0][1], pl, tl)),))
    return top('replace')
@m('core::str::trim', 'core::str::trim_start', 'core::str::trim_end')
def _(E, st, inst, a):
    l = E.lit(st, deref(E, st, a[0]))
    if l is None:
        s = deref(E, st, a[0])
        return ('S', (('y', 'trim(%s)' % (kname(s),)),)) if s[0] == 'S' else top('trim')
    return S({'trim': l.strip(), 'trim_start': l.lstrip(), 'trim_end': l.rstrip()}[inst['name'].rsplit('::', 1)[1]])
@m('core::str::trim_matches', 'core::str::trim_start_matches', 'core::str::trim_end_matches', 'core::str::trim_left_matches')
def _(E, st, inst, a):
    s = deref(E, st, a[0]); pat = E.res(st, a[1])
    l = E.lit(st, s)
    meth = inst['name'].rsplit('::', 1)[1]
    if isinstance(pat, int) and l is not None:
        c = chr(pat)
        return S({'trim_matches': l.strip(c), 'trim_start_matches': l.lstrip(c), 'trim_end_matches': l.rstrip(c)}[meth])
    return ('S', (('y', '%s(%s)' % (meth, kname(s))),)) if s[0] == 'S' else top('trim')
@m('alloc::str::to_lowercase', 'alloc::str::to_uppercase', 'core::str::to_ascii_lowercase', 'alloc::str::to_ascii_lowercase', 'alloc::str::to_ascii_uppercase')
def _(E, st, inst, a):
    l = E.lit(st, deref(E, st, a[0]))
    if l is None:
        return top('case')
    return S(l.lower() if 'lower' in inst['name'] else l.upper())
@m('core::str::split', 'core::str::rsplit', 'core::str::lines', 'core::str::split_terminator')
def _(E, st, inst, a):
    s = deref(E, st, a[0])
    pl = None
    if len(a) > 1:
        pat = E.res(st, a[1])
        if isinstance(pat, int): pat = S(chr(pat))
        pl = E.lit(st, deref(E, st, pat)) if not (isinstance(pat, tuple) and pat[0] == 'A') else None
    l = E.lit(st, s)
    if l is not None and (pl or inst['name'].endswith('lines')):
        parts = l.split(pl) if pl else l.splitlines()
        if inst['name'].endswith('rsplit'):
            parts.reverse()
        r = st.alloc(('V', tuple(S(x) for x in parts), None), 'split')
        return ('A', None, 0, (('I', 'vecinto'), r, 0, None))
    if is_top(s):
        return s
    return ('A', None, 0, (('I', 'split'), kname(s), pl or '?', 0))
def split_next(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    if it[3][0] == ('I', 'vecinto'):
        return MODELS['<alloc::vec::into_iter::IntoIter as core::iter::traits::iterator::Iterator>::next'](E, st, inst, a)
    tag, ident, pl, n = it[3]
    ident2 = 'split(%s,%r)' % (ident, pl)
    if n > 0 and not E.more(st, ident2, n):
        return opt(E, None)
    E.store(st, c, p, ('A', None, 0, (tag, ident, pl, n + 1)))
    sid = '%s.%d' % (ident2, n)
    if pl != '?':
        st.facts[('dec', ('contains', sid, pl))] = False
    return opt(E, ('S', (('y', sid),)))
for n in ('core::str::iter::Split', 'core::str::iter::RSplit', 'core::str::iter::Lines', 'core::str::iter::SplitTerminator'):
    MODELS['<%s as core::iter::traits::iterator::Iterator>::next' % n] = split_next
@m('core::str::chars', 'core::str::bytes', 'core::str::char_indices')
def _(E, st, inst, a):
    s = deref(E, st, a[0])
    if is_top(s):
        return s
    return ('I', inst['name'].rsplit('::', 1)[1], E.norm_s(st, s), 0)
def chars_next(E, st, inst, a):
    c, p, it = iter_state(E, st, a[0])
    if is_top(it):
        return it
    return str_iter_next(E, st, c, p, it)
def str_iter_next(E, st, c, p, it):
    kind, s, n = it[1], it[2], it[3]
    s = E.norm_s(st, s)
    parts = list(s[1])
    if not parts:
        E.store(st, c, p, ('I', kind, s, n))
        return opt(E, None)
    h = parts[0]
    if isinstance(h, str):
        if kind == 'bytes':
            b = h.encode('utf-8', 'surrogateescape')
            rest = b[1:].decode('utf-8', 'surrogateescape')
            v = b[0]; adv = 1
        else:
            v = ord(h[0]); rest = h[1:]; adv = len(h[0].encode())
        parts[0] = rest
    elif h[0] == 'c':
        if kind == 'bytes':
            # single-byte characters are exact, multi-byte ones become opaque bytes >= 0x80
            if E.cmp(st, 'Lt', h[1], 0x80):
                v = h[1] if isinstance(h[1], int) else ('sym', h[1][1], h[1][2], h[1][3])
                parts.pop(0)
            else:
                v = ('sym', 'utf8(%r)' % (h[1],), 0, None)
                st.facts.setdefault(('rng', v[1]), ((0x80, 0xFF),))
                parts.pop(0)
                st.note('multibyte')
        else:
            v = h[1]; parts.pop(0)
        adv = 1
    elif h[0] == 'b':
        v = h[1]; parts.pop(0); adv = 1
    elif h[0] == 'y':
        k = sum(1 for f in st.facts if f[0] == 'chr' and f[1] == h[1])
        # first unread character of the symbolic string
        j = h[2] if len(h) > 2 else 0
        if not E.more(st, 'chars(%s)' % h[1], j):
            parts.pop(0)
            return str_iter_next(E, st, c, p, ('I', kind, ('S', tuple(parts)), n))
        nm = '%s.ch%d' % (h[1], j)
        t = E.F.tyname.get('u8') if kind == 'bytes' else E.F.tyname.get('char')
        v = ('sym', nm, 0, t)
        parts[0] = ('y', h[1], j + 1)
        adv = 1
    else:
        return top('chars')
    E.store(st, c, p, ('I', kind, ('S', tuple(parts)), n + adv))
    if kind == 'char_indices':
        return opt(E, ('A', None, 0, (n, v)))
    return opt(E, v)
def bytes_next(E, st, c, p, it, ref=False):
    r = str_iter_next(E, st, c, p, ('I', 'bytes', it[2], it[3]))
    if ref and not is_top(r) and r[2] == 1:
        return opt(E, E.ro(st, r[3][0]))
    return r
for n in ('Chars', 'Bytes', 'CharIndices'):
    MODELS['<core::str::iter::%s as core::iter::traits::iterator::Iterator>::next' % n] = chars_next
    MODELS['<core::str::iter::%s as core::clone::Clone>::clone' % n] = lambda E, st, i, a: deref1(E, st, a[0])
@m('core::str::as_bytes', 'alloc::string::String::as_bytes')
def _(E, st, inst, a):
    s = deref(E, st, a[0])
    if is_top(s):
        return s
    l = E.lit(st, s)
    if l is not None:
        return ('SL', E.ro(st, ('V', tuple(l.encode()), None)), 0, len(l.encode()))
    return ('BY', s)
@m('alloc::string::String::into_bytes')
def _(E, st, inst, a):
    l = E.lit(st, a[0])
    if l is not None:
        return ('V', tuple(l.encode()), None)
    return ('BY', a[0])
@m('alloc::string::String::from_utf8', 'core::str::converts::from_utf8')
def _(E, st, inst, a):
    v = as_vec(E, st, a[0])
    if is_top(v):
        return v
    if all(isinstance(x, int) for x in v[1]):
        try:
            return result(E, ok=S(bytes(v[1]).decode()))
        except UnicodeDecodeError:
            return result(E, err=('I', 'utf8err'))
    return top('from_utf8')
@m('alloc::string::String::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked')
def _(E, st, inst, a):
    v = as_vec(E, st, a[0])
    if is_top(v):
        return v
    if all(isinstance(x, int) for x in v[1]):
        return S(bytes(v[1]).decode(errors='replace'))
    return top('from_utf8')
@m('<alloc::string::String as core::ops::index::Index<I>>::index', '<str as core::ops::index::Index<I>>::index', 'core::str::get', 'core::str::traits::{impl#5}::index')
def _(E, st, inst, a):
    s = deref(E, st, a[0])
    get = inst['name'].endswith('get')
    l = E.lit(st, s) if not is_top(s) else None
    if l is not None:
        b = l.encode()
        lo, hi = range_of(E, st, inst, a[1], len(b))
        if isinstance(lo, int) and isinstance(hi, int):
            ok = 0 <= lo <= hi <= len(b)
            if ok:
                try:
                    r = b[lo:hi].decode(); b[:lo].decode()
                    return opt(E, S(r)) if get else S(r)
                except UnicodeDecodeError:
                    pass
            return opt(E, None) if get else ('!panic', 'str index')
    if get and not is_top(s):
        s = E.norm_s(st, s)
        lo, hi = range_of(E, st, inst, a[1], None)
        if lo == 0 and isinstance(hi, int):
            # prefix of a symbolic string: available or not
            if E.decide(st, ('prefix', kname(s), hi)):
                return opt(E, ('S', (('y', 'prefix(%s,%d)' % (kname(s), hi)),)))
            return opt(E, None)
    return top('str index')
def bytes_index(E, st, s, ix):
    if isinstance(ix, tuple) and ix[0] == 'A':
        lo, hi = range_of(E, st, None, ix, None)
        return ('BY', ('S', (('y', 'sub(%s,%r,%r)' % (kname(s[1]), lo, hi)),)))
    return top('byte index')
@m('core::str::is_char_boundary')
def _(E, st, inst, a):
    l = E.lit(st, deref(E, st, a[0]))
    if l is not None and isinstance(a[1], int):
        b = l.encode()
        return int(a[1] == len(b) or (a[1] < len(b) and (b[a[1]] & 0xC0) != 0x80))
    return top('boundary')
@m('alloc::str::repeat')
def _(E, st, inst, a):
    s = deref(E, st, a[0])
    if isinstance(a[1], int) and a[1] < 1000 and s[0] == 'S':
        return E.concat(st, *([s] * a[1])) if a[1] else S('')
    return top('repeat')
def parse_int(t):
    """<t>::from_str_radix / <t as FromStr>::from_str"""
    import re
    neg = t.startswith('i')
    bits = 64 if t.endswith('size') else int(t[1:])
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if neg else (0, (1 << bits) - 1)
    def f(E, st, inst, a):
        s = deref(E, st, a[0])
        radix = a[1] if len(a) > 1 else 10
        l = E.lit(st, s)
        if l is not None and isinstance(radix, int):
            if re.fullmatch(r'[+-]?[0-9a-zA-Z]+' if neg else r'[+]?[0-9a-zA-Z]+', l):
                try:
                    v = int(l, radix)
                    if lo <= v <= hi:
                        return result(E, ok=v)
                except ValueError:
                    pass
            return result(E, err=('I', 'parseint'))
        if is_top(s):
            return s
        k = E.decide(st, ('radix', kname(s), radix), ('ok', 'err'))
        if k == 'ok':
            return result(E, ok=('sym', 'radix(%s)' % kname(s), 0, E.F.tyname.get(t)))
        return result(E, err=('I', 'parseint'))
    return f
for t in 'u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize'.split():
    for n in ('core::num::%s::from_str_radix' % t, '%s::from_str_radix' % t, '<%s as core::str::traits::FromStr>::from_str' % t):
        MODELS[n] = parse_int(t)

@m('<serde_json::value::Value as serde_core::de::Deserialize>::deserialize')
def _(E, st, inst, a):
    """deserializing a Value from a Value is the identity"""
    if inst['targs'] and inst['targs'][0] == E.F.value_ty:
        return result(E, ok=a[0])
    return ('!body',)

@m('alloc::borrow::Cow::is_borrowed_unused')
def _(E, st, inst, a): return None

@m('<alloc::borrow::Cow as core::default::Default>::default')
def _(E, st, inst, a): return ('A', find_ty(E, 'alloc::borrow::Cow'), 1, (('S', ()),))

# ------------------------------------------------------------------ formatting
def fmt_arg(kind):
    def f(E, st, inst, a):
        ft = None
        b = inst.get('body')
        if b:
            for blk in b['blocks']:
                for s in blk[0]:
                    if s[0] == '=' and s[2][0] == 'cast' and s[2][1].startswith('ReifyFnPointer') and isinstance(s[2][5], int):
                        ft = s[2][5]
                t = blk[1]
                if t[0] == 'call':
                    for o in t[2]:
                        if o[0] == 'k' and 'inst' in E.T[o[1]]:
                            ft = E.T[o[1]]['inst']
        return ('A', None, 0, (('I', 'fmtarg'), kind, a[0], inst['targs'][0], ft))
    return f
for k in 'display debug lower_hex upper_hex octal binary pointer lower_exp upper_exp'.split():
    MODELS['core::fmt::rt::Argument::new_' + k] = fmt_arg(k)
@m('core::fmt::rt::Argument::from_usize')
def _(E, st, inst, a): return ('A', None, 0, (('I', 'fmtusize'), deref1(E, st, a[0])))
@m('core::fmt::Arguments::new')
def _(E, st, inst, a):
    tpl = as_vec(E, st, a[0]); args = as_vec(E, st, a[1])
    return ('A', None, 0, (('I', 'fmtargs'), tpl, args))
def _float_pred(name, f):
    def fn(E, st, inst, a):
        v = E.res(st, a[0])
        if isinstance(v, tuple) and v and v[0] == 'flt':
            return int(f(float(v[1])))
        return ('!body',)
    for t in ('f32', 'f64'):
        MODELS['%s::%s' % (t, name)] = fn
_float_pred('is_finite', math.isfinite); _float_pred('is_nan', math.isnan); _float_pred('is_infinite', math.isinf)
@m('serde_json::number::Number::from_f64')
def _(E, st, inst, a):
    v = E.res(st, a[0])
    if isinstance(v, tuple) and v and v[0] == 'flt':
        return opt(E, num(v)) if math.isfinite(float(v[1])) else opt(E, None)
    return ('!body',)
@m('itoa::Buffer::format')
def _(E, st, inst, a):
    v = E.res(st, a[1])
    return S(str(v)) if isinstance(v, int) else ('!body',)
@m('serde_json::ser::to_string')
def _(E, st, inst, a):
    """JSON text of known strings, characters, integers and bools; everything else is interpreted"""
    v = deref(E, st, a[0])
    t = E.T[inst['targs'][0]]
    while isinstance(v, tuple) and v and v[0] == 'R':
        v = deref(E, st, v)
    if isinstance(v, tuple) and v and v[0] == 'S' and (len(v[1]) == 0 or len(v[1]) == 1 and isinstance(v[1][0], str)):
        return result(E, ok=S(json.dumps(v[1][0] if v[1] else '', ensure_ascii=False)))
    if isinstance(v, int) and t['k'] == 'char':
        return result(E, ok=S(json.dumps(chr(v), ensure_ascii=False)))
    if isinstance(v, int) and t['k'] == 'bool':
        return result(E, ok=S('true' if v else 'false'))
    if isinstance(v, int) and t['k'] == 'int':
        return result(E, ok=S(str(v)))
    return ('!body',)
@m('serde_json::de::from_str')
def _(E, st, inst, a):
    """a string read from known JSON text; everything else is interpreted"""
    v = E.norm_s(st, deref(E, st, a[0]))
    t = E.T[inst['targs'][0]]['s'].replace('alloc::', 'std::')
    if t != 'std::string::String' or not (v[0] == 'S' and (len(v[1]) == 0 or len(v[1]) == 1 and isinstance(v[1][0], str))):
        return ('!body',)
    try:
        x = json.loads(v[1][0] if v[1] else '')
    except ValueError:
        x = None
    return result(E, ok=S(x)) if isinstance(x, str) else result(E, err=('I', 'json error'))
@m('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::from_statically_known_str')
def _(E, st, inst, a):
    s = E.res(st, a[0])
    return ('A', None, 0, (('I', 'fmtstr'), s))
@m('core::fmt::Arguments::as_str', 'core::fmt::Arguments::as_statically_known_str')
def _(E, st, inst, a):
    x = deref1(E, st, a[0])
    if isinstance(x, tuple) and x[0] == 'A' and x[3][0] == ('I', 'fmtstr'):
        return opt(E, x[3][1])
    return opt(E, None) if not is_top(x) else x

def parse_template(b, nargs):
    """decode core::fmt template bytes -> list of str | (argix, flags, width, prec)"""
    out = []; i = 0; arg = 0
    raw = b''
    while True:
        n = b[i]; i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(b[i:i + n]).decode()); i += n
        elif n == 0x80:
            l = b[i] | b[i + 1] << 8; i += 2
            out.append(bytes(b[i:i + l]).decode()); i += l
        elif n == 0xC0:
            out.append((arg, None, None, None)); arg += 1
        else:
            flags = width = prec = None
            if n & 1:
                flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24; i += 4
            if n & 2:
                width = b[i] | b[i + 1] << 8; i += 2
            if n & 4:
                prec = b[i] | b[i + 1] << 8; i += 2
            if n & 8:
                arg = b[i] | b[i + 1] << 8; i += 2
            if n & 16: width = ('arg', width)
            if n & 32: prec = ('arg', prec)
            out.append((arg, flags, width, prec)); arg += 1

def fmt_value(E, st, kind, v, t, spec):
    """string for a formatted argument, or None if its impl has to be interpreted"""
    argix, flags, width, prec = spec
    T = E.T[t]
    if T['k'] == 'ref' and kind in ('display', 'debug', 'upper_hex', 'lower_hex') and E.T[T['to']]['k'] not in ('str', 'slice', 'dyn'):
        v = E.res(st, v)
        return fmt_value(E, st, kind, E.load(st, v[1], v[2]) if v[0] == 'R' else v, T['to'], spec)
    x = deref(E, st, v)
    plain = flags is None and width is None and prec is None
    if kind == 'display' and isinstance(x, tuple) and x and x[0] == 'S' and plain:
        return x
    if T['k'] == 'char' and kind == 'display' and plain:
        return char_str(E, st, x)
    if T['k'] == 'int' or (T.get('name') or '').startswith('core::num::nonzero'):
        if isinstance(x, int):
            s = {'display': str(x), 'debug': str(x), 'upper_hex': '%X' % x if x >= 0 else None, 'lower_hex': '%x' % x if x >= 0 else None,
                 'octal': '%o' % x if x >= 0 else None, 'binary': bin(x)[2:] if x >= 0 else None}.get(kind)
            if s is None:
                return None
            if flags is not None or width is not None:
                fl = flags or 0
                fill = chr(fl & 0x1FFFFF) if flags is not None else ' '
                zero = bool(fl & (1 << 24)) if flags is not None else False
                if isinstance(width, tuple):
                    return None
                if width and len(s) < width:
                    s = ('0' if zero else fill) * (width - len(s)) + s
            return S(s)
        if isinstance(x, tuple) and x and x[0] == 'sym':
            if plain and kind == 'display':
                return ('S', (('n', x),))
            fl = flags or 0
            zero = bool(fl & (1 << 24)) if flags is not None else False
            return ('S', (('hex' if 'hex' in kind else kind, kind, width, zero, x),))
    if T['k'] == 'bool' and kind in ('display', 'debug') and plain:
        b = E.res(st, x)
        return S('true' if b else 'false') if isinstance(b, int) else None
    return None

def fmt_step(E, st, state, last):
    """native frame: render pieces one at a time into a string accumulator"""
    pieces, i, acc, args, mode = state
    if last is not None and mode == 'wait':
        # a Display impl just returned: its output is in the buffer cell
        cell = acc[1]
        mode = 'run'
    while i < len(pieces):
        pc = pieces[i]
        cell = acc
        cur = E.load(st, cell[1], cell[2])
        if isinstance(pc, str):
            new = E.concat(st, cur, S(pc)) if cur[0] == 'S' else cur
            E.store(st, cell[1], cell[2], new)
            i += 1
            continue
        if is_top(args) or pc[0] >= len(args[1]):
            E.store(st, cell[1], cell[2], top('fmt')); i += 1; continue
        arg = args[1][pc[0]]
        if is_top(arg):
            E.store(st, cell[1], cell[2], top('fmt')); i += 1; continue
        tag, kind, v, t, ft = arg[3]
        inner = deref1(E, st, v)
        if isinstance(inner, tuple) and inner and inner[0] == 'A' and inner[3] and inner[3][0] in (('I', 'fmtargs'), ('I', 'fmtstr')):
            return ('call_fmt', inner)
        s = fmt_value(E, st, kind, v, t, pc)
        if s is None:
            if ft is not None:
                fr = ('A', None, 0, (('I', 'fmtr'), acc))
                r = st.alloc(fr, 'fmtr')
                return ('call', ft, [v, r], (pieces, i + 1, acc, args, 'wait'))
            s = top('fmt ' + E.T[t]['s'])
        E.store(st, cell[1], cell[2], E.concat(st, cur, s) if cur[0] == 'S' and s[0] == 'S' else top('fmt'))
        i += 1
    return ('done', None)

def fmt_run(final):
    def run(E, st, state, last):
        fr = st.frames[-1]
        r = fmt_step(E, st, state, last)
        if r[0] == 'call':
            return r
        if r[0] == 'call_fmt':
            x = r[1]
            pieces, i, acc, args, mode = state
            # flatten nested arguments
            # (re-run from the current position: find it again)
            raise Stuck('nested fmt::Arguments')
        return ('ret', final(E, st, state))
    return run
def final_string(E, st, state):
    return E.load(st, state[2][1], state[2][2])
def final_ok(E, st, state):
    return result(E, ok=UNIT)
run_string = fmt_run(final_string)
run_ok = fmt_run(final_ok)

def fmt_pieces(E, st, x):
    if is_top(x):
        return None
    if x[3][0] == ('I', 'fmtstr'):
        l = E.lit(st, x[3][1]) if x[3][1][0] == 'S' else None
        return ([l] if l is not None else None), EMPTY_VEC
    tpl, args = x[3][1], x[3][2]
    if is_top(tpl):
        return None
    return parse_template(list(tpl[1]), 0), args
@m('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _(E, st, inst, a):
    x = E.res(st, a[0])
    if is_top(x):
        return x
    if x[0] == 'A' and x[3] and x[3][0] == ('I', 'fmtstr'):
        return x[3][1]
    pp = fmt_pieces(E, st, x)
    if pp is None or pp[0] is None:
        return top('format')
    buf = st.alloc(('S', ()), 'buf')
    return ('!native', run_string, (tuple(pp[0]), 0, buf, pp[1], 'run'))
def write_fmt(E, st, inst, a):
    tgt = E.res(st, a[0])
    x = E.res(st, a[1])
    if is_top(x) or is_top(tgt):
        return None
    pp = fmt_pieces(E, st, x)
    if pp is None or pp[0] is None:
        return None
    v = E.load(st, tgt[1], tgt[2]) if tgt[0] == 'R' else None
    if isinstance(v, tuple) and v and v[0] == 'S':
        return ('!native', run_ok, (tuple(pp[0]), 0, tgt, pp[1], 'run'))
    buf = fmtr_buf(E, st, tgt)
    if buf is not None:
        return ('!native', run_ok, (tuple(pp[0]), 0, buf, pp[1], 'run'))
    return None
def fmtr_buf(E, st, r):
    v = deref1(E, st, r)
    if isinstance(v, tuple) and v and v[0] == 'A' and v[3] and v[3][0] == ('I', 'fmtr'):
        return v[3][1]
    return None
MODELS['core::fmt::Write::write_fmt'] = write_fmt
MODELS['<alloc::string::String as core::fmt::Write>::write_fmt'] = write_fmt
MODELS['core::fmt::Formatter::write_fmt'] = write_fmt
MODELS['<W as core::fmt::Write::write_fmt::SpecWriteFmt>::spec_write_fmt'] = write_fmt
@m('core::fmt::Formatter::write_str', 'core::fmt::Formatter::pad', '<core::fmt::Formatter as core::fmt::Write>::write_str')
def _(E, st, inst, a):
    buf = fmtr_buf(E, st, a[0])
    if buf is None:
        return None
    cur = E.load(st, buf[1], buf[2]); s = deref(E, st, a[1])
    E.store(st, buf[1], buf[2], E.concat(st, cur, s) if cur[0] == 'S' and s[0] == 'S' else top('fmt'))
    return result(E, ok=UNIT)
@m('core::fmt::Formatter::write_char')
def _(E, st, inst, a):
    buf = fmtr_buf(E, st, a[0])
    if buf is None:
        return None
    cur = E.load(st, buf[1], buf[2]); s = char_str(E, st, a[1])
    E.store(st, buf[1], buf[2], E.concat(st, cur, s) if cur[0] == 'S' and s[0] == 'S' else top('fmt'))
    return result(E, ok=UNIT)
@m('<str as core::fmt::Display>::fmt', '<alloc::string::String as core::fmt::Display>::fmt', '<alloc::borrow::Cow as core::fmt::Display>::fmt')
def _(E, st, inst, a):
    buf = fmtr_buf(E, st, a[1])
    s = deref(E, st, a[0])
    if buf is None:
        return None
    cur = E.load(st, buf[1], buf[2])
    E.store(st, buf[1], buf[2], E.concat(st, cur, s) if cur[0] == 'S' and s[0] == 'S' else top('fmt'))
    return result(E, ok=UNIT)

# ------------------------------------------------------------------ panics
@prefix('core::panicking::', 'std::panicking::', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'core::slice::index::slice_', 'core::str::slice_error_fail', 'alloc::raw_vec::capacity_overflow', 'alloc::alloc::handle_alloc_error')
def _(E, st, inst, a):
    return ('!panic', inst['name'])

# numbers
@m('core::cmp::Ord::max', 'core::cmp::max')
def _(E, st, inst, a):
    if isinstance(a[0], int) and isinstance(a[1], int):
        return max(a[0], a[1])
    return ('!body',)
@m('core::cmp::Ord::min', 'core::cmp::min')
def _(E, st, inst, a):
    if isinstance(a[0], int) and isinstance(a[1], int):
        return min(a[0], a[1])
    return ('!body',)
@m('core::char::methods::is_ascii_hexdigit', 'core::num::is_ascii_hexdigit', 'core::char::methods::is_ascii_digit_unused')
def _(E, st, inst, a): return ('!body',)

# inherent methods of primitives are named by their self type
def _alias():
    for k in list(MODELS):
        p = k.split('::')
        if len(p) == 3 and p[0] in ('core', 'alloc') and p[1] in ('str', 'slice') and '<' not in k:
            MODELS.setdefault(('str::' if p[1] == 'str' else '[T]::') + p[2], MODELS[k])
        if k.startswith('core::char::methods::'):
            MODELS.setdefault('char::' + p[3], MODELS[k])
        if k.startswith('core::num::') and len(p) == 3:
            for t in 'u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize'.split():
                MODELS.setdefault(t + '::' + p[2], MODELS[k])
_alias()
