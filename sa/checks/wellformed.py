"""C50: what the crate generates by itself has the shape that the meta-schema of the dialect asks for."""
import re
from . import check
from ..gen import *
from ..meta import problem, wellformed
from .. import dspec, dsupport
from . import derive
from .impls import Im, tyname, hook_docs, preset_docs, doc_after, span_named, PRESETS
from .schema import call, ref, it, VALUES, TABLES, uses
from .transforms import Docs, leaf, path_facts

DRAFT = {0: 2020, 1: 7, 2: 2019, 3: 2020}

@check('C50')
def c50(c):
    F = c.F()
    # built-in implementations
    m = Im(c)
    hook_docs(m.E, {t: {'v': t} for t in ('A', 'B', 'C', 'D', 'Box<A>', 'Option<A>')})
    ts = sorted(set(re.match(r'probe::impls::(t_\w+)::', r).group(1) for r in F.roots if r.startswith('probe::impls::t_')))
    for t in ts:
        for me in ('js', 'np'):
            if 'probe::impls::%s::%s' % (t, me) not in F.roots: continue
            ok = 0; bad = None; why = set()
            for r, ct, p in m.res(t, me):
                why |= set(p.why)
                if not p.precise or p.end != ('ret',): continue
                x = problem(r)
                if x: bad = bad or x
                else: ok += 1
            if bad: c.bad('impl', '%s.%s' % (t, me), 'the schema of %s is not valid JSON Schema: %s' % (tyname(F, t), bad), m.where(t, me))
            elif ok: c.ok('impl', '%s of %s' % (me, tyname(F, t)))
            else: c.und('impl', '%s of %s' % (me, t), sorted(why)[:3])
    c.engine_done(m.E)
    # derived types
    E = derive.engine(c, max_states=4000)
    n = 0
    for t in dspec.W:
        src = t.source()
        if 'extend' in src or 'transform' in src: continue          # values given verbatim
        n += 1
        ok = 0; bad = None; why = set()
        for p in run(E, 'probe::gen::%s::js' % t.module):
            why |= set(p.why)
            if not p.precise or p.end != ('ret',): continue
            x = problem(p.ret)
            if x and 'distinct strings' in x:
                # two parts that demand the same property: not claimed
                e = [problem(dsupport.model(tt, il).schema(t, k)) for k in ('ser', 'de') for tt in (0, 1) for il in (0, 1)]
                if any(y and 'distinct strings' in y for y in e): x = None
            if x: bad = bad or x
            else: ok += 1
        if bad: c.bad('derive', t.name, 'the derived schema is not valid JSON Schema: %s' % bad, derive.where(F, t), src)
        elif ok: c.ok('derive', t.name)
        else: c.und('derive', t.name, sorted(why)[:3])
    c.engine_done(E)
    c.floor('derive', n)
    # inferred values
    E = new_engine(F, sub=False, max_depth=200, max_states=8000, max_visits=2000)
    box = [Sc()]
    install(E, box)
    for root, x in sorted(VALUES.items()):
        if 'probe::values::' + root not in F.roots: continue
        seen = set()
        for t in TABLES:
            t = {k: v for k, v in t.items() if k in uses(x)}
            if repr(t) in seen or not all(wellformed(v) for v in t.values() if v != 'fail'): continue
            seen.add(repr(t))
            box[0] = Sc(vals=t)
            ok = 0; bad = None; why = set()
            for p in run(E, 'probe::values::' + root, []):
                why |= set(p.why)
                if not p.precise or p.end != ('ret',) or p.ret[0] != 'Ok': continue
                y = problem(p.ret[1])
                if y: bad = bad or y
                else: ok += 1
            k = 'value %r, leaves %r' % (x, t)
            if bad: c.bad('value', k, 'the schema inferred from %s is not valid JSON Schema: %s' % (k, bad), 'schemars/src/ser.rs (Serializer)')
            elif ok: c.ok('value', k)
            else: c.und('value', k, sorted(why)[:3])
    c.engine_done(E)
    # presets keep valid schemas valid in their dialect
    E = new_engine(F, max_states=8000, max_depth=400)
    docs = [d for d in preset_docs() if wellformed(d)]
    docs += [{'prefixItems': [True]}, {'prefixItems': [{'prefixItems': [{'type': 'null'}]}], 'items': False}, {'$ref': '#/$defs/a', 'allOf': [{'title': 't'}]}, {'$ref': 'a', 'anyOf': [True]},
             {'type': ['null', 'string'], 'enum': [None, 'a']}, {'unevaluatedProperties': {'title': 't'}, 'required': ['a', 'b']}, {'unevaluatedItems': False, 'prefixItems': [True], 'items': True}]
    for name, pre, uri, path in PRESETS:
        if pre not in DRAFT: continue
        ex = Docs('C50' + name, {'additionalProperties': [True, False, lambda g, d: g.sub(d)]}).all(c, [{}, {'allOf': [{'x-leaf': 0}]}, {'$ref': 'R', 'title': leaf('AP', 'scalar')}])
        for d in docs + [d for d in ex if wellformed(d)]:
            ok = 0; bad = None; why = set()
            for p in call(E, 'probe::api::preset_apply', it(pre), ref(d)):
                why |= set(p.why)
                if not p.precise or p.end != ('ret',): continue
                y = problem(doc_after(p), DRAFT[pre])
                if y: bad = bad or (p, y)
                else: ok += 1
            k = '%s:%r' % (name, d)
            if bad: c.bad('preset', k, 'the %s preset makes %r invalid: %s' % (name, d, bad[1]), span_named(F, 'schemars::generate::SchemaSettings::' + ('draft2020_12' if name == 'default' else name)), path_facts(bad[0]))
            elif ok: c.ok('preset', k)
            else: c.und('preset', k, sorted(why)[:3])
    c.engine_done(E)
    # root schemas: title, $schema and definitions
    E = new_engine(F, sub=False, max_depth=400, max_states=8000)
    install(E, box)
    for pre, dr in DRAFT.items():
        for op in (2, 3, 8):
            for b in ({'x': 'n0'}, True, False, {'x': 'n0', 'title': 'T', '$schema': 's'}, {'x': 'n0', '$defs': {'N1': True}, 'definitions': {}}):
                if op == 8 and pre: continue
                sc = Sc(edges=[(0, 1), (1, 2), (2, 1)] if isinstance(b, dict) else [], base={0: b, 2: False} if not isinstance(b, dict) else {0: b}, ops=[(op, 0)], preset=pre)
                box[0] = sc
                for p in run_hist(E, sc):
                    if not p.precise or p.end != ('ret',): c.und('root', repr(sc), p.why); continue
                    y = problem(outs(p).get(0), dr)
                    if y: c.bad('root', repr(sc).replace(' ', ','), 'the root schema is not valid: %s (%r)' % (y, sc), span_named(F, 'schemars::generate::SchemaGenerator::root_schema_for'))
                    else: c.ok('root', repr(sc))
    c.engine_done(E)
    c.floor('impl', 150); c.floor('value', 200); c.floor('preset', 800); c.floor('root', 30)
