"""Model of the derive macro's documented behaviour: witness types described as data, their
Rust source, and the schema each must have under each contract (from serde's semantics)."""
import json, re

class Raw(str):
    """Rust expression, not a string literal"""

NONE = object()

class It:
    def __init__(self, attrs=(), doc=None, dep=False):
        self.attrs = list(attrs); self.doc = doc; self.dep = dep
    def eff(self):
        """attributes in force: schemars ones win over serde ones, `!x` removes the serde one"""
        out, unset, sch = {}, set(), set()
        for ns, k, v in self.attrs:
            if ns == 'schemars':
                if k.startswith('!'):
                    unset.add(k[1:])
                else:
                    sch.add(k); out.setdefault(k, []).append(v)
        if 'skip' in sch:
            sch |= {'skip_serializing', 'skip_deserializing'}
        # schemars' own keys are read from every namespace; serde's are replaced as a whole
        for ns, k, v in self.attrs:
            if ns == 'serde' and k not in sch and k not in unset:
                if k in ('title', 'description', 'example', 'extend', 'transform', 'bound'):
                    if k == 'bound': continue
                out.setdefault(k, []).append(v)
            elif ns in ('validate', 'garde') and k not in sch:
                if k in out and k != 'inner':
                    continue
                out.setdefault(k, []).append(v)
        return out
    def get(self, k, d=None):
        e = self.eff()
        return e[k][0] if k in e else d
    def has(self, k): return k in self.eff()
    def attrs_but(self, *ks): return [k for k in self.eff() if k not in ks]
    def rust(self, ind):
        o = []
        if isinstance(self.doc, str):
            for l in self.doc.split('\n'):
                o.append('%s///%s' % (ind, l))
        elif self.doc is not None:
            for e in self.doc:
                o.append(ind + e[0])
        if self.dep:
            o.append(ind + '#[deprecated]')
        for ns, k, v in self.attrs:
            o.append('%s#[%s(%s)]' % (ind, ns, meta(k, v)))
        return o

def lit(v):
    if isinstance(v, Raw): return str(v)
    if isinstance(v, bool): return 'true' if v else 'false'
    if isinstance(v, (int, float)): return str(v)
    return rstr(v)

def rstr(v):
    """Rust string literal"""
    o = ''
    for ch in v:
        n = ord(ch)
        o += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r'}.get(ch) or ('\\u{%x}' % n if n < 32 or n == 127 or 0x80 <= n < 0xa1 or n in (0x2003, 0x2028, 0x2029, 0xfeff) else ch)
    return '"%s"' % o

def meta(k, v):
    if v is None: return k
    if k == 'extend':
        return 'extend(%s)' % ', '.join('%s = %s' % (json.dumps(a), b) for a, b in v)
    if isinstance(v, dict):
        return '%s(%s)' % (k, ', '.join(meta(a, b) for a, b in v.items()))
    if isinstance(v, list):
        return '%s(%s)' % (k, ', '.join(meta(a, b) for a, b in v))
    if isinstance(v, tuple):           # list with one expression
        return '%s(%s)' % (k, lit(v[0]))
    return '%s = %s' % (k, lit(v))

class F(It):
    def __init__(self, name, ty, *attrs, doc=None, dep=False):
        It.__init__(self, attrs, doc, dep)
        self.name = name; self.ty = ty

class Vr(It):
    """kind: unit | newtype | tuple | struct"""
    def __init__(self, name, kind='unit', fields=(), *attrs, doc=None, dep=False):
        It.__init__(self, attrs, doc, dep)
        self.name = name; self.kind = kind; self.fields = list(fields)

class Ty(It):
    """kind: unit | newtype | tuple | struct | enum"""
    def __init__(self, name, kind, items=(), *attrs, props=(), doc=None, dep=False, generics='', args=None, derive='JsonSchema', pre='', meth=(), where='', note=''):
        It.__init__(self, attrs, doc, dep)
        self.name = name; self.kind = kind
        self.fields = [] if kind == 'enum' else list(items)
        self.variants = list(items) if kind == 'enum' else []
        self.props = tuple(props); self.generics = generics; self.args = args; self.derive = derive; self.pre = pre; self.meth = meth; self.where = where; self.note = note
    @property
    def module(self): return 'w_' + self.name.lower()
    def source(self):
        o = []
        if self.pre: o.append(self.pre)
        o.append('#[derive(%s)]' % self.derive)
        o += self.rust('')
        if self.kind == 'enum':
            o.append('pub enum %s%s%s {' % (self.name, self.generics, self.where))
            for v in self.variants:
                o += v.rust('    ')
                o.append('    %s%s,' % (v.name, body(v.kind, v.fields, '    ', vis='')))
            o.append('}')
        else:
            b = body(self.kind, self.fields, '', vis='pub ')
            o.append('pub struct %s%s%s%s%s' % (self.name, self.generics, self.where if self.kind == 'struct' else '', b, '' if self.kind == 'struct' else self.where + ';'))
        return '\n'.join(o)
    def type(self): return self.name + (self.args or '')

def body(kind, fields, ind, vis):
    if kind == 'unit': return ''
    if kind in ('newtype', 'tuple'):
        o = []
        for f in fields:
            o += f.rust(ind + '    ')
            o.append('%s    %s%s,' % (ind, vis, f.ty))
        return '(\n' + '\n'.join(o) + '\n' + ind + ')'
    o = []
    for f in fields:
        o += f.rust(ind + '    ')
        o.append('%s    %s%s: %s,' % (ind, vis, f.name, f.ty))
    return ' {\n' + '\n'.join(o) + '\n' + ind + '}'

# ------------------------------------------------------------------ names
def words_field(s): return s.split('_')
def cap(w): return up(w[:1]) + w[1:]
def up(s): return ''.join(c.upper() if c.isascii() else c for c in s)       # serde changes the case of ASCII letters only
def low(s): return ''.join(c.lower() if c.isascii() else c for c in s)

def rule_field(rule, s):
    """serde's RenameRule::apply_to_field (the identifier is snake_case)"""
    if rule in (None, 'lowercase', 'snake_case'): return s
    if rule in ('UPPERCASE', 'SCREAMING_SNAKE_CASE'): return up(s)
    pas = ''.join(cap(w) for w in s.split('_'))
    if rule == 'PascalCase': return pas
    if rule == 'camelCase': return low(pas[:1]) + pas[1:]
    if rule == 'kebab-case': return s.replace('_', '-')
    if rule == 'SCREAMING-KEBAB-CASE': return up(s).replace('_', '-')
    raise ValueError(rule)

def rule_variant(rule, s):
    """serde's RenameRule::apply_to_variant (the identifier is PascalCase)"""
    if rule in (None, 'PascalCase'): return s
    if rule == 'lowercase': return low(s)
    if rule == 'UPPERCASE': return up(s)
    if rule == 'camelCase': return low(s[:1]) + s[1:]
    sn = ''.join(('_' if i and ch.isupper() else '') + low(ch) for i, ch in enumerate(s))
    if rule == 'snake_case': return sn
    if rule == 'SCREAMING_SNAKE_CASE': return up(sn)
    if rule == 'kebab-case': return sn.replace('_', '-')
    if rule == 'SCREAMING-KEBAB-CASE': return up(sn).replace('_', '-')
    raise ValueError(rule)

def per(v, ct, both=True):
    """value of an attribute that may be given per direction"""
    if isinstance(v, dict):
        return v.get('serialize' if ct == 'ser' else 'deserialize')
    return v

def unraw(s): return s[2:] if s.startswith('r#') else s

def field_name(f, rule, ct):
    n = per(f.get('rename'), ct)
    return n if n is not None else rule_field(per(rule, ct), unraw(f.name))

def variant_name(v, rule, ct):
    n = per(v.get('rename'), ct)
    return n if n is not None else rule_variant(per(rule, ct), unraw(v.name))

# ------------------------------------------------------------------ schemas
UNIT = {'type': 'null'}

def obj(s):
    if s is True: return {}
    if s is False: return {'not': {}}
    return s

class Model:
    """docs: type -> its schema; np: type -> its non-optional schema; opt: set of optional types;
    inline: types always inlined; js: type -> schema given by json_schema itself (default: docs)"""
    def __init__(self, docs, np=None, opt=(), js=None, inline=(), defaults=None, fns=None, vals=None, untagged_titles=False, inline_subs=False):
        self.docs = docs; self.np_ = np or {}; self.opt = opt; self.js_ = js or {}; self.inline = inline
        self.defaults = defaults or {}; self.fns = fns or {}; self.vals = vals or {}; self.titles = untagged_titles; self.inline_subs = inline_subs
    def sub(self, ty): return cp(self.docs[ty])
    def js(self, ty): return cp(self.js_.get(ty, self.docs[ty]))
    def np(self, ty): return cp(self.np_.get(ty, self.js_.get(ty, self.docs[ty])))
    def is_opt(self, ty): return ty in self.opt

    # -- one contract
    def schema(self, t, ct):
        if t.derive.endswith('JsonSchema_repr'):
            s = {'type': 'integer', 'enum': [self.vals[t.name][v.name] for v in t.variants]}
            return self.meta(t, s)
        fr = t.get('from') or t.get('try_from'); to = t.get('into')
        if t.has('with') or t.has('schema_with'):
            s = self.js(t.get('with')) if t.has('with') else self.fn(t.get('schema_with'))
        elif t.has('transparent'):
            f = ([x for x in t.fields if not (skip(x, 'ser') and skip(x, 'de'))] or t.fields)[0]
            plain = lambda i: not i.attrs_but('transparent') and not i.doc and not i.dep
            s = self.js(f.ty) if plain(t) and plain(f) else self.field(f, ct)
        elif fr and ct == 'de':
            s = self.js(fr)
        elif to and ct == 'ser':
            s = self.js(to)
        elif t.kind == 'enum':
            s = self.enum(t, ct)
        elif t.kind == 'unit':
            s = self.sub('()')
        elif t.kind == 'newtype':
            s = self.field(t.fields[0], ct)
        elif t.kind == 'tuple':
            s = self.tuple(t.fields, ct)
        else:
            s = self.struct(t, t.fields, ct, t.get('rename_all'), t.has('default'), t.has('deny_unknown_fields'), t.get('default'))
        return self.meta(t, s)

    def fn(self, path): return cp(self.fns[path])

    def field(self, f, ct, how='sub'):
        ty = f.get('with') or f.ty
        if f.has('schema_with'):
            s = self.fn(f.get('schema_with'))
        elif f.has('required'):
            s = self.np(ty)
        elif how == 'itag':
            s = self.itag_newtype(ty)
        else:
            s = self.sub(ty)
        s = self.meta(f, s)
        s = self.validate(f.eff(), s)
        if skip(f, 'de'): s = dict(obj(s), readOnly=True)
        if skip(f, 'ser'): s = dict(obj(s), writeOnly=True)
        return s

    def itag_newtype(self, ty):
        s = self.js(ty)
        mod = False
        if isinstance(s, dict):
            s, mod = allow_unknown_in_subs(s)
            if ty in self.inline or self.inline_subs or s.get('type') == 'null' or s.get('additionalProperties') is False or s.get('unevaluatedProperties') is False or mod:
                return s
        elif ty in self.inline or self.inline_subs:
            return s
        return self.sub(ty)

    def tuple(self, fields, ct):
        it = [self.field(f, ct) for f in fields if not skip(f, ct)]
        s = {'type': 'array', 'maxItems': len(it)}
        if it:
            s['prefixItems'] = it; s['minItems'] = len(it)
        return s

    def struct(self, t, fields, ct, rule, cdefault, deny, cdv=None):
        s = {'type': 'object'}
        if deny: s['additionalProperties'] = False
        for f in fields:
            if skip(f, ct):
                continue
            if f.has('flatten'):
                ty = f.get('with') or f.ty
                s = merge(s, self.flat(f, ty))
                continue
            x = self.field(f, ct)
            d = self.default(t, f, cdefault)
            if d is not NONE:
                x = dict(obj(x), default=d)
            n = field_name(f, rule, ct)
            s = dict(s, properties=dict(s.get('properties', {}), **{n: x}))
            ty = f.get('with') or f.ty
            isopt = not f.has('schema_with') and self.is_opt(ty)
            hasdef = cdefault or f.has('default')
            if ct == 'ser':
                req = not f.has('skip_serializing_if')
            else:
                req = not hasdef and (f.has('required') or not isopt)
            if f.has('skip_serializing_if') and hasdef:
                req = False
            if req:
                s = dict(s, required=s.get('required', []) + [n])
        return s

    def flat(self, f, ty):
        if f.has('schema_with'):
            s, opt = self.fn(f.get('schema_with')), False
        else:
            s, opt = self.np(ty), self.is_opt(ty) and not f.has('required')
        return flat_schema(s, opt)

    def default(self, t, f, cdefault):
        """JSON of the default value, or NONE"""
        # serde gives a field that is not deserialized its default
        own = f.has('default') or f.has('skip_deserializing') and not cdefault
        if f.has('skip_serializing') or f.has('skip') or not (own or cdefault):
            return NONE
        if own:
            d = f.get('default')
            v = self.defaults.get(('fn', d)) if d is not None else self.defaults.get(('ty', f.ty), NONE)
        else:
            v = self.defaults.get(('cont', t.name if t.get('default') is None else t.get('default'), f.name), self.defaults.get(('ty', f.ty), NONE) if t.get('default') is None else NONE)
        if v is NONE:
            return NONE
        si = f.get('skip_serializing_if')
        if si and self.defaults.get(('skip', si, json.dumps(v)), False):
            return NONE
        sw = f.get('serialize_with')
        if sw:
            v = self.defaults[('ser', sw, json.dumps(v))]
        if v == '@':              # the value cannot be serialised
            return NONE
        return v

    # -- metadata
    def meta(self, it, s):
        e = it.eff()
        t, d = doc_title(it.doc)
        title = ev(e['title'][0]) if 'title' in e else t
        desc = ev(e['description'][0]) if 'description' in e else d
        def put(k, v):
            nonlocal s
            s = dict(obj(s), **{k: v})
        if title: put('title', title)
        if desc: put('description', desc)
        if it.dep: put('deprecated', True)
        if 'example' in e: put('examples', [ev(x) for x in e['example'] if ev(x) is not NONE])
        for ex in e.get('extend', []):
            for k, v in ex: put(k, ev(Raw(v)))
        for tr in e.get('transform', []):
            s = TRANSFORMS[str(tr)](s)
        return s

    def validate(self, e, s):
        def typed(t): return isinstance(s, dict) and (s.get('type') == t or isinstance(s.get('type'), list) and t in s['type'])
        def put(t, k, v):
            nonlocal s
            if typed(t) or t == 'number' and typed('integer'):
                s = dict(s, **{k: v})
        if 'length' in e:
            l = dict(e['length'][0])
            lo, hi = l.get('min', l.get('equal')), l.get('max', l.get('equal'))
            for t, sf in (('string', 'Length'), ('array', 'Items')):
                if lo is not None: put(t, 'min' + sf, ev(lo))
                if hi is not None: put(t, 'max' + sf, ev(hi))
        if 'range' in e:
            l = dict(e['range'][0])
            lo, hi = l.get('min', l.get('equal')), l.get('max', l.get('equal'))
            if lo is not None: put('number', 'minimum', ev(lo))
            if hi is not None: put('number', 'maximum', ev(hi))
        for k in ('regex', 'pattern'):
            if k in e:
                v = e[k][0]
                if isinstance(v, tuple): v = v[0]
                if isinstance(v, (list, dict)): v = dict(v); v = v.get('path', v.get('pattern'))
                put('string', 'pattern', ev(v))
        if 'contains' in e:
            v = e['contains'][0]
            if isinstance(v, tuple): v = v[0]
            if isinstance(v, (list, dict)): v = dict(v)['pattern']
            put('string', 'pattern', regex_escape(ev(v)))
        for k, f in (('email', 'email'), ('url', 'uri'), ('ip', 'ip'), ('ipv4', 'ipv4'), ('ipv6', 'ipv6')):
            if k in e: s = dict(obj(s), format=f)
        if 'inner' in e:
            i = {}
            for x in e['inner']:
                for k, v in x: i.setdefault(k, []).append(v)
            if isinstance(s, dict) and isinstance(s.get('items'), (dict, bool)):
                s = dict(s, items=self.validate(i, s['items']))
        return s

    # -- enums
    def enum(self, t, ct):
        if not t.variants: return False
        rule, frule, deny = t.get('rename_all'), t.get('rename_all_fields'), t.has('deny_unknown_fields')
        live = [v for v in t.variants if not skip(v, ct)]
        nm = lambda v: variant_name(v, rule, ct)
        tag, content = t.get('tag'), t.get('content')
        def payload(v, how='sub'):
            if v.has('with'): return self.sub(v.get('with')) if how == 'sub' else self.js(v.get('with'))
            if v.has('schema_with'): return self.fn(v.get('schema_with'))
            if v.kind == 'unit': return self.sub('()')
            if v.kind == 'newtype': return self.field(v.fields[0], ct, how)
            if v.kind == 'tuple': return self.tuple(v.fields, ct)
            r = v.get('rename_all')
            if r is None: r = frule
            return self.struct(t, v.fields, ct, r if not isinstance(v.get('rename_all'), dict) else mixed(v.get('rename_all'), frule), False, deny)
        def untagged(v):
            s = payload(v)
            if self.titles and not v.has('title'):
                s = dict(obj(s), title=nm(v))
            return self.meta(v, s)
        if t.has('untagged'):
            return {'anyOf': [untagged(v) for v in live]} if live else False
        any_un = any(v.has('untagged') for v in t.variants)
        kw = 'anyOf' if any_un else 'oneOf'
        if tag is None:
            plain = lambda v: v.kind == 'unit' and not (v.doc or v.dep or any(v.has(k) for k in ('title', 'description', 'example', 'extend', 'transform', 'with', 'schema_with', 'untagged')))
            units = [nm(v) for v in live if plain(v)]
            rest = [v for v in t.variants if not plain(v)]
            us = {'type': 'string', 'enum': units}
            if not rest: return us
            o = [us] if any(plain(v) for v in t.variants) else []
            for v in rest:
                if v not in live: continue
                if v.has('untagged'): o.append(untagged(v)); continue
                if v.kind == 'unit' and not (v.has('with') or v.has('schema_with')):
                    s = {'type': 'string', 'const': nm(v)}
                else:
                    s = {'type': 'object', 'properties': {nm(v): payload(v)}, 'required': [nm(v)], 'additionalProperties': False}
                o.append(self.meta(v, s))
            return {kw: o} if o else False
        o = []
        for v in live:
            if v.has('untagged'): o.append(untagged(v)); continue
            if content is None:
                s = obj(payload(v, 'itag' if not v.has('with') else 'js'))
                unit = s.get('type') == 'null'
                s = dict(s, type='object')
                s['properties'] = dict(s.get('properties', {}), **{tag: {'type': 'string', 'const': nm(v)}})
                s['required'] = [tag] + s.get('required', [])
                if deny and unit: s.setdefault('additionalProperties', False)
            else:
                s = {'type': 'object', 'properties': {tag: {'type': 'string', 'const': nm(v)}}, 'required': [tag]}
                if not (v.kind == 'unit' and not (v.has('with') or v.has('schema_with'))):
                    s['properties'][content] = payload(v); s['required'].append(content)
                if deny: s['additionalProperties'] = False
            o.append(self.meta(v, s))
        return {kw: o} if o else False

def mixed(r, frule):
    """a variant's rename_all given per direction falls back to rename_all_fields for the other"""
    return {'serialize': r.get('serialize', per(frule, 'ser')), 'deserialize': r.get('deserialize', per(frule, 'de'))}

def skip(f, ct):
    if f.has('skip'): return True
    return f.has('skip_serializing' if ct == 'ser' else 'skip_deserializing')

def cp(x): return json.loads(json.dumps(x))

EV = {}
def ev(x):
    """value of an attribute expression"""
    if isinstance(x, Raw):
        if str(x) in EV: return EV[str(x)]
        try:
            return json.loads(str(x))
        except ValueError:
            raise KeyError('no value for the expression ' + str(x))
    return x

TRANSFORMS = {}

WS = ' \t\n\r\x0c'
def doc_lines(doc):
    """text of each doc attribute in order: one leading space of a literal is not part of the text"""
    if doc is None: return []
    if isinstance(doc, str): return [l[1:] if l.startswith(' ') else l for l in doc.split('\n')]
    return [e[1][1:] if e[1].startswith(' ') and e[2] else e[1] for e in doc if e[1] is not None]

def doc_title(doc):
    """(title, description) of a doc comment (see C38)"""
    t = '\n'.join(doc_lines(doc)).strip(WS)
    if t.startswith('#'):
        h, _, r = t.partition('\n')
        return h.lstrip('#').strip(WS), r.strip(WS)
    return '', t

META = set('\\.+*?()|[]{}^$')
def regex_escape(s):
    return ''.join('\\' + c if c in META else c for c in s)

# ------------------------------------------------------------------ flattening
IMM = ('if', 'then', 'else'), ('allOf', 'anyOf', 'oneOf')
REFLIKE = ('if', 'allOf', 'anyOf', 'oneOf', '$ref')

def imm(s, f):
    s = dict(s)
    for k in IMM[0]:
        if k in s and isinstance(s[k], (dict, bool)): s[k] = f(s[k])
    for k in IMM[1]:
        if isinstance(s.get(k), list): s[k] = [f(x) if isinstance(x, (dict, bool)) else x for x in s[k]]
    return s

def allow_unknown(s):
    if not isinstance(s, dict): return s
    s = dict(s)
    for k in ('additionalProperties', 'unevaluatedProperties'):
        if s.get(k) is False: del s[k]
    return imm(s, allow_unknown)

def allow_unknown_in_subs(s):
    r = imm(s, allow_unknown)
    return r, r != s

def flat_schema(s, opt):
    """what a flattened field of a type with schema s contributes"""
    names = None
    if isinstance(s, dict):
        s = dict(s)
        if s.get('type') == 'string' and isinstance(s.get('enum'), list):
            names = s.pop('enum'); del s['type']
        elif isinstance(s.get('oneOf'), list) and s['oneOf'] and isinstance(s['oneOf'][0], dict) and s['oneOf'][0].get('type') == 'string' and isinstance(s['oneOf'][0].get('enum'), list):
            names = s['oneOf'][0]['enum']; s['oneOf'] = s['oneOf'][1:]
    if names is not None:
        s['oneOf'] = s.get('oneOf', []) + [{'type': 'object', 'properties': {n: {'type': 'null'}}, 'required': [n]} for n in names if isinstance(n, str)]
        s['oneOf'] = s['oneOf'] or [False]
    if opt:
        if isinstance(s, dict):
            s = dict(s); s.pop('required', None)
            if 'oneOf' in s:
                o = s.pop('oneOf')
                s = merge(s, {'anyOf': [{'oneOf': o}, {}]})
            if isinstance(s.get('anyOf'), list) and {} not in s['anyOf']:
                s['anyOf'] = s['anyOf'] + [{}]
    return allow_unknown(s)

def merge(a, b):
    """merging schema b into object schema a"""
    if b is False: return a
    if b is True:
        if isinstance(a, dict) and 'additionalProperties' not in a and 'unevaluatedProperties' not in a:
            return dict(a, **{'unevaluatedProperties' if any(k in a for k in REFLIKE) else 'additionalProperties': True})
        return a
    a, b = dict(obj(a)), dict(b)
    def norm(x, y):
        if 'additionalProperties' in x and ('unevaluatedProperties' in y or any(k in y for k in REFLIKE)):
            x['unevaluatedProperties'] = x.pop('additionalProperties')
    norm(a, b); norm(b, a)
    for k, v in b.items():
        put(a, k, v)
    return a

def put(a, k, v):
    if k not in a:
        a[k] = v
    elif k in ('required', 'allOf'):
        if isinstance(a[k], list) and isinstance(v, list): a[k] = a[k] + v
    elif k in ('properties', 'patternProperties'):
        if isinstance(a[k], dict) and isinstance(v, dict): a[k] = dict(a[k], **v)
    elif k in ('oneOf', 'anyOf'):
        c = a.pop(k)
        put(a, 'allOf', [{k: c}, {k: v}])
