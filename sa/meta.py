"""Shape rules that the meta-schemas of draft-07, 2019-09 and 2020-12 put on the keywords they know. The rules are those of the
published meta-schemas (core, applicator, unevaluated, validation, meta-data, format, content); unknown keywords are free."""
from .js import *

TYPES = {'null', 'boolean', 'object', 'array', 'number', 'string', 'integer'}
ONE = {'not', 'if', 'then', 'else', 'contains', 'additionalProperties', 'propertyNames', 'additionalItems', 'unevaluatedItems', 'unevaluatedProperties', 'contentSchema'}
LIST = {'allOf', 'anyOf', 'oneOf', 'prefixItems'}
MAPS = {'properties', 'patternProperties', 'dependentSchemas', '$defs', 'definitions'}
STR = {'title', 'description', '$comment', 'format', 'pattern', '$ref', '$id', '$schema', '$anchor', 'contentEncoding', 'contentMediaType', '$dynamicRef', '$dynamicAnchor'}
BOOL = {'deprecated', 'readOnly', 'writeOnly', 'uniqueItems'}
NONNEG = {'minLength', 'maxLength', 'minItems', 'maxItems', 'minProperties', 'maxProperties', 'minContains', 'maxContains'}
NUM = {'minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum'}

def known(v):
    return isinstance(v, (dict, list, str, bool, int, float, Num)) or v is None

def number(v):
    if isinstance(v, bool): return None
    if isinstance(v, Num): v = v.v
    if isinstance(v, (int, float)): return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return None

def isnum(v): return isinstance(v, (int, float, Num)) and not isinstance(v, bool)

def uniq(l):
    r = [repr(x) for x in l]
    return len(set(r)) == len(r)

def problem(s, draft=2020, at='#', free=()):
    """the first place at which s breaks the meta-schema of the draft, or None; `free`: keywords the user gave verbatim"""
    if isinstance(s, bool) or not known(s): return None
    if not isinstance(s, dict): return '%s is %r, not a schema' % (at, s)
    for k, v in s.items():
        if not isinstance(k, str) or k in free or not known(v): continue
        w = '%s/%s' % (at, k)
        if k in ONE or k == 'items' and draft == 2020:
            if k in ('unevaluatedProperties', 'unevaluatedItems', 'contentSchema') and draft == 7 and not known(v): continue
            r = problem(v, draft, w)
        elif k == 'items':
            if isinstance(v, list):
                r = '%s is an empty array' % w if not v else next(filter(None, (problem(x, draft, '%s/%d' % (w, i)) for i, x in enumerate(v))), None)
            else: r = problem(v, draft, w)
        elif k in LIST:
            if k == 'prefixItems' and draft != 2020: continue
            if not isinstance(v, list): r = '%s is %r, not an array' % (w, v)
            elif not v: r = '%s is an empty array' % w
            else: r = next(filter(None, (problem(x, draft, '%s/%d' % (w, i)) for i, x in enumerate(v))), None)
        elif k in MAPS:
            if not isinstance(v, dict): r = '%s is %r, not an object' % (w, v)
            else: r = next(filter(None, (problem(x, draft, '%s/%s' % (w, n)) for n, x in v.items())), None)
        elif k in STR: r = None if isinstance(v, str) else '%s is %r, not a string' % (w, v)
        elif k in BOOL: r = None if isinstance(v, bool) else '%s is %r, not a boolean' % (w, v)
        elif k in NONNEG:
            n = number(v)
            r = None if isnum(v) and (n is None or n >= 0 and n == int(n)) else '%s is %r, not a non-negative integer' % (w, v)
        elif k in NUM: r = None if isnum(v) else '%s is %r, not a number' % (w, v)
        elif k == 'multipleOf': r = None if isnum(v) and (number(v) is None or number(v) > 0) else '%s is %r, not a positive number' % (w, v)
        elif k in ('enum', 'examples'): r = None if isinstance(v, list) else '%s is %r, not an array' % (w, v)
        elif k == 'required':
            r = None if isinstance(v, list) and all(isinstance(x, str) or not known(x) for x in v) and uniq(v) else '%s is %r, not an array of distinct strings' % (w, v)
        elif k == 'dependentRequired':
            r = None if isinstance(v, dict) and all(isinstance(x, list) or not known(x) for x in v.values()) else '%s is %r' % (w, v)
        elif k == 'type':
            l = [v] if not isinstance(v, list) else v
            r = None if (l and uniq(l) and all(x in TYPES if isinstance(x, str) else not known(x) for x in l)) else '%s is %r' % (w, v)
        else: continue
        if r: return r
    return None

def wellformed(s, draft=2020): return problem(s, draft) is None
