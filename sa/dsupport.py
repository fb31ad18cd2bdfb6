"""Documents of the opaque types used by the derive witnesses (derive_probe/src/support.rs), and the
values of the functions and constants they name."""
from . import dmodel

OBJ = lambda props, req=(), **k: dict({'type': 'object', 'properties': props}, **dict({'required': list(req)} if req else {}, **k))
ST = {'type': 'string'}; NU = {'type': 'number'}; IN = {'type': 'integer'}
ref = lambda n: {'$ref': '#/$defs/' + n}
JS = {}          # type -> what its json_schema gives
SUBD = {}        # type -> what subschema_for gives (default: JS)
NP = {}          # type -> non-optional schema (default: JS)
OPT = set()
INLINE = set()

for n, k in (('A', 'a'), ('B', 'b'), ('C', 'c')):
    JS[n] = OBJ({k + k: ST, k + k + '2': NU}, [k + k], title=n + ' type')
    SUBD[n] = ref(n)
JS['D'] = {'anyOf': [OBJ({'dd': ST}, ['dd']), {'type': 'null'}]}; SUBD['D'] = {'anyOf': [ref('D'), {'type': 'null'}]}; NP['D'] = OBJ({'dd': ST}, ['dd'], title='np D'); OPT.add('D')
JS['TT'] = True; JS['FF'] = False
JS['Inner1'] = OBJ({'i1': ST, 'shared': NU}, ['i1', 'shared'])
JS['Inner2'] = OBJ({'i2a': ST, 'i2b': {'type': ['boolean', 'null']}, 'shared': IN}, ['i2a'], description='Inner 2')
JS['InnerO'] = OBJ({'o1': ST})
JS['Deny1'] = OBJ({'d1': ref('A')}, ['d1'], additionalProperties=False)
JS['Uneval1'] = OBJ({'e1': ST}, ['e1'], unevaluatedProperties=False, oneOf=[OBJ({'e2': ST}, ['e2']), OBJ({'e3': NU}, ['e3'])])
JS['Nested1'] = {'type': 'object', 'oneOf': [OBJ({'n1': ST}, ['n1'], additionalProperties=False), OBJ({'n2': NU}, ['n2'], additionalProperties=False)]}
JS['NestedDeep'] = {'type': 'object', 'anyOf': [{'allOf': [OBJ({'m1': ST}, ['m1'], unevaluatedProperties=False), {'if': OBJ({'m2': OBJ({'keep': ST}, additionalProperties=False)}, additionalProperties=False), 'then': OBJ({'m3': ST}, additionalProperties={'type': 'null'}), 'else': {'unevaluatedProperties': False}}]}, {'not': {'additionalProperties': False}}],
                    'properties': {'m4': {'type': 'object', 'additionalProperties': False}}}
JS['UnitS'] = {'type': 'null'}
JS['Refd'] = OBJ({'r1': ST}, ['r1'], description='Refd.'); SUBD['Refd'] = ref('Refd')
JS['MapS'] = {'type': 'object', 'additionalProperties': {'type': 'integer', 'format': 'int32'}}
JS['InlineS'] = OBJ({'l1': ST}, ['l1']); INLINE.add('InlineS')
JS['Req1'] = OBJ({'q1': ST, 'q2': ST}, ['q2', 'q1'], minProperties=2)
JS['PatS'] = {'type': 'object', 'patternProperties': {'^p\\d+$': NU}, 'additionalProperties': False, 'propertyNames': {'maxLength': 9}}
EXT = lambda n, s: {'type': 'object', 'properties': {n: s}, 'required': [n], 'additionalProperties': False}
JS['Enum1'] = {'oneOf': [{'type': 'string', 'enum': ['u1', 'u2']}, EXT('v1', NU), EXT('v2', ref('B'))]}
JS['NoUnit'] = {'type': 'string', 'enum': []}
JS['NoMix'] = {'oneOf': [{'type': 'string', 'enum': []}], 'title': 'No mix'}
JS['SomeMix'] = {'oneOf': [{'type': 'string', 'enum': []}, EXT('sm', NU)]}
JS['Enum2'] = {'oneOf': [EXT('w1', ST), EXT('w2', NU)], 'description': 'Enum 2'}
JS['UnEnum'] = {'anyOf': [OBJ({'p': ST}, ['p']), OBJ({'q': NU}, ['q'], additionalProperties=False)]}
JS['UnitEnum'] = {'type': 'string', 'enum': ['ux', 'uy']}
JS['TagEnum'] = {'oneOf': [OBJ({'t': {'type': 'string', 'const': 'x'}, 'g': ST}, ['t', 'g']), OBJ({'t': {'type': 'string', 'const': 'y'}}, ['t'])]}
JS['MixEnum'] = {'anyOf': [{'oneOf': [EXT('mx', NU)]}, OBJ({'my': ST}, ['my'])], 'title': 'Mix'}
JS['MultiT'] = {'type': ['string', 'array', 'integer', 'null'], 'items': ST}
JS['Constrained'] = {'type': 'string', 'minLength': 2, 'maxLength': 4, 'pattern': '^x', 'format': 'date'}
JS['TupS'] = {'type': 'array', 'prefixItems': [ST, NU], 'minItems': 2, 'maxItems': 2}
JS['OneUn'] = {'anyOf': [OBJ({'ou': ST}, ['ou'])]}
JS['OneEx'] = {'oneOf': [EXT('oe', NU)]}
JS['OneTag'] = {'oneOf': [OBJ({'t': {'type': 'string', 'const': 'x'}}, ['t'])], 'title': 'One tag'}
JS['OneUnit'] = {'type': 'string', 'enum': ['only']}
JS['NullUn'] = {'anyOf': [{'type': 'null'}, OBJ({'nu': ST}, ['nu'])]}
JS['Opt2'] = {'anyOf': [OBJ({'o2': ST}, ['o2']), {}], 'required': ['x']}
for n in ('Deny1', 'Uneval1', 'Nested1', 'NestedDeep', 'UnitS', 'MapS', 'Inner2', 'UnEnum', 'Req1', 'PatS', 'Enum2', 'MixEnum'):
    SUBD[n] = ref(n)          # subschema_for and json_schema are distinguishable
for n in ('NoSer', 'FailSer'):
    JS[n] = {'type': 'null'}
JS['Mal'] = {'type': 'object'}
JS['()'] = {'type': 'null'}
JS['String'] = ST
JS['u32'] = {'type': 'integer', 'format': 'uint32', 'minimum': 0}
JS['i32'] = {'type': 'integer', 'format': 'int32'}
JS['f64'] = {'type': 'number', 'format': 'double'}
JS['bool'] = {'type': 'boolean'}

for n in range(40): JS['M%d' % n] = OBJ({'m%d' % n: ST})
for n in ('Ta', 'Tb', 'Ka', 'Kb'): JS[n] = OBJ({n: ST})
MARKERS = set(JS) - {'()', 'String', 'u32', 'i32', 'f64', 'bool'}

def split(t):
    if t.endswith('>') and '<' in t:
        return t[:t.index('<')], t[t.index('<') + 1:-1]
    return None, None

def null(s):
    if isinstance(s, bool):
        return {'anyOf': [s, {'type': 'null'}]} if not s else True
    if 'type' in s and not ('const' in s or 'enum' in s or 'not' in s or '$ref' in s or 'anyOf' in s):
        ty = s['type'] if isinstance(s['type'], list) else [s['type']]
        return dict(s, type=ty if 'null' in ty else ty + ['null'])
    return {'anyOf': [s, {'type': 'null'}]}

def doc(t, d, base=None):
    """document of the type named t, d being the table to start from"""
    if t in d: return d[t]
    if t in JS: return JS[t]
    w, i = split(t)
    if w == 'Option': return null(doc(i, SUBD))
    if w == 'Box': return doc(i, d)
    if w == 'Vec': return {'type': 'array', 'items': doc(i, SUBD)}
    if w == 'PhantomData': return JS['()']
    raise KeyError(t)

def np(t):
    w, i = split(t)
    if w in ('Option', 'Box'): return np(i)
    return NP.get(t) or doc(t, JS)

def opt(t):
    w, i = split(t)
    return w == 'Option' or w == 'Box' and opt(i) or t in OPT

def inline(t):
    w, i = split(t)
    if w == 'Box': return inline(i)
    return w in ('Option', 'Vec') or t in INLINE or t in ('()', 'String', 'u32', 'i32', 'f64', 'bool')

class Docs:
    def __init__(self, f): self.f = f
    def __getitem__(self, t): return self.f(norm(t))
    def get(self, t, d=None): return self.f(norm(t))
    def __contains__(self, t): return bool(self.f(norm(t)))

def norm(t): return t.replace('std::marker::', '')

FNS = {'sw1': {'type': 'number', 'x-sw1': True}, 'sup::sw2': {'type': 'string', 'x-sw2': True}, 'sw_true': True,
       'sw_obj': OBJ({'so': {'type': 'null'}}, ['so'])}
DEF = {('ty', 'u32'): 0, ('ty', 'String'): '', ('ty', 'bool'): False, ('ty', 'Vec<u32>'): [], ('ty', 'NoSer'): '@', ('ty', 'FailSer'): '@',
       ('fn', 'dflt_u'): 7, ('fn', 'dflt_s'): 'ds', ('fn', 'dflt_b'): True, ('fn', 'dflt_ou'): 5, ('fn', 'dflt_ns'): '@', ('fn', 'dflt_fs'): '@', ('fn', 'dflt_v'): [1, 2],
       ('cont', 'W37_own', 'f0'): 11, ('cont', 'W37_own', 'f1'): 'own', ('cont', 'W37_own', 'f2'): 12, ('cont', 'W37_own', 'f3'): 13,
       ('cont', 'mk_w37', 'f0'): 21, ('cont', 'mk_w37', 'f1'): 'path', ('cont', 'mk_w37', 'f2'): 31,
       ('cont', 'mk_w', 'a'): None, ('cont', 'mk_w', 'b'): None}
for t in list(MARKERS) + ['Option<A>', 'Option<u32>', 'Option<Option<A>>', 'Box<Option<A>>', 'Option<B>']:
    DEF.setdefault(('ty', t), None)
for f in ('dflt_a', 'dflt_oa', 'dflt_d'):
    DEF[('fn', f)] = None
class Dd(dict):
    def get(self, k, d=dmodel.NONE):
        if k in self: return dict.__getitem__(self, k)
        if k[0] == 'ty' and norm(k[1]).startswith(('Option<', 'Box<', 'Vec<', 'PhantomData<')):
            w, i = split(norm(k[1]))
            return {'Option': None, 'Vec': [], 'PhantomData': None}[w] if w != 'Box' else self.get(('ty', i), d)
        if k[0] == 'skip': return {'sif': False, 'sif_u': k[2] == '0', 'sif_u_true': True}[k[1]]
        if k[0] == 'ser': return {'ser_str': 'S', 'ser_ns': True}[k[1]]
        return d
    def __getitem__(self, k): return self.get(k)
dmodel.EV.update({'MIN_C': 2, 'MAX_C': 9, 'TITLE_C': 'Title const', 'DESC_C': 'Desc const', 'mk_ex()': 9, '&"str lit"': 'str lit', 'RE_C': '^re$', 'TXT_C': 't.x^t', 'concat!("a.", "b*")': 'a.b*'})
def _t1(s): return dict(dmodel.obj(s), **{'x-tr1': True})
def _t2(s): return dict(dmodel.obj(s), **{'x-tr2': isinstance(s, dict) and 'x-tr1' in s})
dmodel.TRANSFORMS.update({'tr1': _t1, 'tr2': _t2})
VALS = {'Repr1': {'Va': 0, 'Vb': 1, 'Vc': 2}, 'Repr2': {'Va = -3': -3, 'Vb = 500': 500}}

def model(titles=False, inline_subs=False):
    return dmodel.Model(Docs(lambda t: doc(t, SUBD)), np=Docs(np), opt=Opt(), js=Docs(lambda t: doc(t, JS)), inline=Inl(), defaults=Dd(DEF), fns=FNS, vals=VALS, untagged_titles=titles, inline_subs=inline_subs)
class Opt:
    def __contains__(self, t): return opt(norm(t))
    def __iter__(self): return iter(())
class Inl:
    def __contains__(self, t): return inline(norm(t))
    def __iter__(self): return iter(())
