"""C01..C06: the schema generator, over type graphs and histories of generator operations."""
import itertools, random
from . import check
from ..gen import *

GEN = 'schemars::generate::SchemaGenerator::'
PATHS = {0: ['$defs'], 1: ['definitions'], 2: ['$defs'], 3: ['$defs'], 4: ['components', 'schemas']}

def all_inline_cycle(sc, n=4):
    """is there a cycle through types that are always inlined? (documented as the type author's mistake)"""
    g = {a: [b for x, b in sc.edges if x == a and b in sc.inline] for a in range(n)}
    def dfs(a, seen):
        return any(b in seen or dfs(b, seen | {b}) for b in g[a])
    return any(dfs(a, {a}) for a in sc.inline)

def graphs2():
    es = [(a, b) for a in (0, 1) for b in (0, 1)]
    for r in range(len(es) + 1):
        for e in itertools.combinations(es, r):
            for inl in ([], [0], [1], [0, 1]):
                yield e, inl

def graphs3(thorough):
    es = [(a, b) for a in (0, 1, 2) for b in (0, 1, 2)]
    for m in range(512):
        e = [es[k] for k in range(9) if m >> k & 1]
        reach = {0}
        for _ in range(3):
            reach |= {b for a, b in e if a in reach}
        if 2 not in reach or len(reach) < 3:
            continue
        if not thorough and len(e) > 4:
            continue
        for inl in ([], [1], [2], [1, 2]) if thorough else ([], [1]):
            yield e, inl

def where(F, fn):
    n = GEN + fn
    for i in F.I:
        if i['name'] == n:
            return '%s:%s (%s)' % (i['span'][0].replace('/repo/', ''), i['span'][1], n)
    return 'schemars/src/generate.rs (%s)' % n

class Runner:
    def __init__(self, c):
        self.c = c; self.F = c.F()
        self.E = new_engine(self.F, sub=False, max_depth=400, max_steps=200000, max_visits=2000)
        self.box = [None]
        install(self.E, self.box)
        self.seen = 0
    def run(self, sc):
        self.box[0] = sc
        return run_hist(self.E, sc)
    def paths(self, sc, rule):
        """precise returning paths; records undecided ones"""
        ps = self.run(sc)
        good = [p for p in ps if p.precise and p.end == ('ret',)]
        rest = [p for p in ps if p not in good]
        if not good:
            pan = [p for p in rest if p.end[0] == 'panic' and p.precise]
            if pan:
                self.c.bad(rule, 'panic:' + skey(sc), 'the generator panics at %s for %r' % (pan[0].end[1:], sc), where(self.F, 'subschema_for'))
            else:
                self.c.und(rule, repr(sc), sorted(set(w for p in rest for w in p.why))[:3])
        return good

def skey(sc):
    return repr(sc).replace(' ', ',')

def ref_of(v):
    return v['$ref'] if isinstance(v, dict) and set(v) == {'$ref'} and isinstance(v['$ref'], str) else None

class Walk:
    """walks a produced document along the type graph; reports problems as (kind, text)"""
    def __init__(self, sc, doc, root=None):
        self.sc = sc; self.doc = doc; self.root = root
        self.problems = []; self.visited = set(); self.embed = []; self.refd = {}
    def same(self, x, n):
        """x is the schema of node n (up to transforms and root additions)"""
        d = self.sc.doc(n)
        if isinstance(d, bool):         # a bool schema, as it is or as the object that a root schema makes of it
            return x is d or isinstance(x, dict) and 'x' not in x and (d or x.get('not') == {})
        if not isinstance(x, dict):
            return False
        if 'x' in d:
            return x.get('x') == d['x']
        return all(x.get(k) == v for k, v in d.items())
    def node(self, x, n, chain):
        if not self.same(x, n):
            self.problems.append(('target', 'schema of type %d is %r' % (n, x)))
            return
        for a, b in sorted(self.sc.edges):
            if a != n:
                continue
            v = x.get('e%d' % b)
            r = ref_of(v)
            if r is None:
                if not self.same(v, b):
                    self.problems.append(('target', 'edge %d>%d is %r' % (a, b, v)))
                    continue
                self.embed.append((a, b, chain))
                if len(chain) > 12:
                    self.problems.append(('depth', 'embedding does not stop'))
                    return
                self.node(v, b, chain + (b,))
            else:
                t = resolve(self.doc, r)
                if not FRAG.match(r):
                    self.problems.append(('syntax', 'reference %r is not a URI fragment' % (r,)))
                if t is None:
                    self.problems.append(('dangling', 'reference %r of edge %d>%d does not resolve' % (r, a, b)))
                    continue
                if not self.same(t, b):
                    self.problems.append(('stale-root-ref' if r == '#' else 'wrong', 'reference %r of edge %d>%d resolves to %r' % (r, a, b, t)))
                    continue
                self.refd.setdefault(r, set()).add(self.sc.id(b))
                if (r, b) not in self.visited:
                    self.visited.add((r, b))
                    self.node(t, b, (b,))

def base_scenarios(thorough):
    for e, i in graphs2():
        yield dict(edges=e, inline=i)
    for e, i in graphs3(thorough):
        yield dict(edges=e, inline=i)

def random_scenarios(name, n, names=None, bools=True, presets=(0,), inl=(None, None, True), ops=(1, 1, 2, 4, 5, 7), nodes=4):
    """seeded random scenarios: type graphs of up to four types with any inline flags, names, base schemas and histories"""
    r = random.Random('schemars ' + name)
    for _ in range(n):
        k = r.randint(2, nodes)
        dens = r.choice((.2, .35, .5))
        edges = [(a, b) for a in range(k) for b in range(k) if r.random() < dens]
        base = {}
        for a in range(k):
            if bools and r.random() < .15 and not any(x == a for x, _ in edges):
                base[a] = r.choice((True, False))
            elif r.random() < .25:
                base[a] = {'x': 'n%d' % a, r.choice(('title', 'description', '$comment', 'default', 'type', 'properties', 'x-ext')): r.choice(('', 'N1', 'object', 'null'))}
                if 'properties' in base[a]: base[a]['properties'] = {'e1': True}
        h = [(o, r.choice((0, 1)) if o == 4 else r.randrange(k)) for o in (r.choice(ops) for _ in range(r.choice((0, 1, 2, 3, 4))))]
        h.append((r.choice((2, 3)), r.randrange(k)))
        kw = {}
        if names:
            kw['names'] = {a: r.choice(names) for a in range(k) if r.random() < .7}
        yield Sc(edges=edges, inline=[a for a in range(k) if r.random() < .25], base=base, ops=h, preset=r.choice(presets), inl=r.choice(inl), **kw)

HIST1 = [[(2, 0)]]
HISTS = [[(2, 0)], [(3, 0)], [(1, 0), (2, 1)], [(1, 1), (3, 0)], [(2, 1), (2, 0)], [(1, 0), (1, 1), (3, 1)], [(5, 0), (2, 0)], [(1, 0), (5, 0), (3, 1)], [(1, 1), (5, 1), (2, 0)],
         [(1, 0), (4, 0), (2, 0)], [(1, 1), (4, 0), (3, 0)], [(6, 0), (2, 1)], [(9, 1), (2, 0)]]
NAMES = ["Simple", "a/b", "a~b", "a~1b", "sp ace", "q\"uote", "per%cent", "%41", "\u00e9", "\u20ac", "\U0001F680", "Vec<T>", "a#b", "a?b", "[x]", "{y}", "a^b`c|d\\", "~", "/", "//", "%", "+&=:;,@!$'()*-._", "\t", "\n", "\x7f", "\x01", "", "0", "[T]", "&str", "a//b/"]

# ------------------------------------------------------------------ C01
@check('C01')
def c01(c):
    R = Runner(c)
    def go(sc, rule):
        if sc.inl is not True and all_inline_cycle(sc) or sc.inl is True and all_inline_cycle(sc):
            return
        for p in R.paths(sc, rule):
            o = outs(p)
            probs = []
            for step, doc in sorted(o.items()):
                op, n = sc.ops[step]
                if op in (2, 3, 8):
                    w = Walk(sc, doc)
                    w.node(doc, n, (n,))
                    probs += w.problems
                    # every local reference anywhere in the document resolves
                    for r in refs(doc):
                        if r.startswith('#') and resolve(doc, r) is None:
                            probs.append(('dangling', 'reference %r does not resolve' % (r,)))
            if probs:
                kinds = {k for k, _ in probs}
                if kinds == {'stale-root-ref'}:
                    # reference to the root of an earlier document of the same generator
                    multi = sum(1 for op, _ in sc.ops if op == 2) > 1 or any(op == 2 for op, _ in sc.ops) and any(op == 3 for op, _ in sc.ops)
                    c.bad('reuse' if multi else rule, 'root-reference-kept-in-definitions' if multi else skey(sc), '%s (%r)' % (probs[0][1], sc), where(R.F, 'subschema_for'), p.log)
                else:
                    c.bad(rule, skey(sc), '%s (%r)' % ([t for k, t in probs if k != 'stale-root-ref'][0], sc), where(R.F, 'subschema_for'), p.log)
            else:
                c.ok(rule, repr(sc))
    for kw in base_scenarios(c.thorough):
        for inl in (None, True):
            go(Sc(ops=[(2, 0)], inl=inl, **kw), 'single')
    for kw in itertools.islice(base_scenarios(True), 0, None if c.thorough else 64):
        for h in HISTS:
            for inl in (None, True):
                go(Sc(ops=h, inl=inl, **kw), 'history')
    # several root schemas from one generator
    for e in ([(1, 0), (0, 1), (2, 0)], [(1, 0), (2, 0)], [(0, 1), (1, 2), (2, 0)], [(0, 0), (1, 0), (2, 1), (2, 2)], [(1, 1), (2, 1)]):
        for h in itertools.permutations((0, 1, 2), 2):
            for last in (2, 3):
                go(Sc(edges=e, ops=[(2, h[0]), (last, h[1])]), 'reuse')
    e = [(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)]
    for preset in range(5):
        for path in (None, '/$defs', '#/$defs', '/$defs/', '/a/b/c', '/a//b', '//a', '/components/schemas/', '', '/', '#', '/a~1b', '/a~0b', '/sp ace', 'defs', '/a%b'):
            for h in ([(2, 0)], [(3, 0)], [(1, 1), (2, 0)]):
                sc = Sc(edges=e, ops=h, preset=preset, path=path)
                if path in ('/sp ace', 'defs', '/a%b'):
                    before = len(c.viol)
                    fresh = {k for k in c.viol}
                    go(sc, 'path')
                    for k in list(c.viol):
                        if k not in fresh:
                            v = c.viol.pop(k)
                            c.viol.setdefault('path/definitions_path=%s' % path.replace(' ', '_'), v)
                else:
                    go(sc, 'path')
    for nm in NAMES:
        for h in ([(2, 0)], [(1, 1), (3, 0)]):
            go(Sc(edges=[(0, 1), (1, 1), (1, 0)], names={1: nm}, ops=h), 'name')
            go(Sc(edges=[(0, 1), (1, 2), (2, 1)], names={0: nm, 1: nm, 2: nm}, ops=h), 'name')
    for sc in random_scenarios('C01', 20000 if c.thorough else 500, names=NAMES[:12] + ['N1', 'N12', 'N2'], presets=(0, 0, 1, 2, 3)):
        go(sc, 'random')
    # what the root schema already has at the definitions path does not stand in for a definition
    for path, loc in ((None, '$defs'), ('/definitions', 'definitions')):
        for own in ({'N1': True}, {'N1': {'t': 1}}, {'N1': {}, 'N2': {'x': 'other'}}, {'N12': {'t': 1}, 'N2': False}):
            for e in ([(0, 1)], [(0, 1), (1, 2), (2, 0)], [(0, 1), (1, 1), (0, 2)]):
                for h in ([(2, 0)], [(3, 0)], [(1, 2), (2, 0)], [(1, 1), (3, 0)]):
                    go(Sc(edges=e, base={0: {'x': 'n0', loc: own}}, path=path, ops=h), 'own-definitions')
    # a root schema generated inside another type's json_schema: `#` denotes the innermost root only
    def nested(sc):
        for p in R.paths(sc, 'nested'):
            probs = []
            def walk(doc, x, n, root, depth):
                for a, b in sorted(sc.edges):
                    if a != n or not isinstance(x, dict): continue
                    v = x.get('e%d' % b); r = ref_of(v)
                    if r is not None:
                        if r == '#':
                            if b != root: probs.append('inside the root schema of type %s the edge %d>%d is "#"' % (root, a, b))
                        elif root == b and depth: pass
                        else:
                            t = resolve(doc, r)
                            if not (isinstance(t, dict) and t.get('x') == 'n%d' % b): probs.append('reference %r of edge %d>%d resolves to %r' % (r, a, b, t))
                            elif b == root: probs.append('reference %r of edge %d>%d does not denote the root itself' % (r, a, b))
                    elif isinstance(v, dict) and v.get('x') == 'n%d' % b:
                        if (a, b) in sc.nest:
                            if v.get('title') != sc.name(b): probs.append('nested root of %d is %r' % (b, v))
                            if depth < 4: walk(doc, v, b, b, depth + 1)
                        elif depth < 4: walk(doc, v, b, root, depth + 1)
                    else:
                        probs.append('edge %d>%d is %r' % (a, b, v))
            for step, doc in sorted(outs(p).items()):
                op, n = sc.ops[step]
                if op in (2, 3):
                    walk(doc, doc, n, n, 0)
            if probs:
                c.bad('nested', skey(sc), '%s (%r)' % (probs[0], sc), where(R.F, 'root_schema_for'), p.log)
            else:
                c.ok('nested', repr(sc))
    for e, nest in (([(0, 1)], [(0, 1)]), ([(0, 1), (1, 0)], [(0, 1)]), ([(0, 1), (1, 1)], [(0, 1)]), ([(0, 1), (1, 0), (1, 1), (0, 2)], [(0, 1)]), ([(0, 1), (0, 2), (2, 0)], [(0, 1)]),
                    ([(0, 0), (0, 1), (1, 2), (2, 1), (2, 0)], [(0, 1)]), ([(0, 1), (1, 2), (2, 0), (2, 1), (2, 2)], [(0, 1), (1, 2)]), ([(0, 1), (1, 0), (0, 2), (2, 0)], [(0, 1), (0, 2)]),
                    ([(0, 1), (0, 2), (2, 1), (1, 3), (3, 1)], [(0, 1)]), ([(0, 1), (0, 3), (1, 0), (3, 0), (1, 3)], [(0, 1)])):
        for h in ([(2, 0)], [(3, 0)], [(1, 2), (2, 0)] if (2, 0) not in e else [(2, 0), (7, 0)]):
            for pre in (0, 1, 4):
                for ids in ({},):
                    nested(Sc(edges=e, nest=nest, ops=h, preset=pre, ids=ids))
    c.engine_done(R.E)
    c.floor('nested', 60); c.floor('own-definitions', 90); c.floor('random', 300); c.floor('single', 300); c.floor('history', 500); c.floor('path', 150); c.floor('name', 100)

# ------------------------------------------------------------------ C02
@check('C02')
def c02(c):
    R = Runner(c)
    def names_ok(sc, p, rule):
        o = outs(p)
        probs = []
        byid = {}       # id -> reference text (stable for the whole history, clones included)
        used = {}       # definition name -> id
        for step, doc in sorted(o.items()):
            op, n = sc.ops[step]
            if op in (1, 5):
                m = n if op == 1 else 1
                r = ref_of(doc)
                if r is not None:
                    byid.setdefault(sc.id(m), set()).add(r)
            if op in (2, 3, 8):
                w = Walk(sc, doc)
                w.node(doc, n, (n,))
                for r, ids in w.refd.items():
                    for i in ids:
                        if r != '#':
                            byid.setdefault(i, set()).add(r)
                defs = resolve(doc, '#/$defs')
            elif op in (4, 7):
                defs = doc
            else:
                defs = None
            for k, v in (defs or {}).items():
                i = [sc.id(m) for m in range(4) if isinstance(v, dict) and v.get('x') == sc.doc(m).get('x')]
                if i:
                    if used.setdefault(k, i[0]) not in i:
                        probs.append('definition %r is shared by the types %s and %s' % (k, used[k], i[0]))
                elif v is False:
                    probs.append('definition %r is left as a placeholder' % (k,))
        for i, rs in byid.items():
            if len(rs) > 1:
                probs.append('type %s is referred to by %d names: %s' % (i, len(rs), sorted(rs)))
        allr = {}
        for i, rs in byid.items():
            for r in rs:
                if allr.setdefault(r, i) != i:
                    probs.append('reference %r is used for the types %s and %s' % (r, allr[r], i))
        # names: base name, or base name and a number; the base name is taken before any number
        nodes = {}
        for m in range(4):
            nodes.setdefault(sc.id(m), []).append(m)
        for i, rs in byid.items():
            for r in rs:
                nm = pct(r[1:]).rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~')
                bases = {sc.name(m) for m in nodes[i]}
                if not any(nm == b or nm.startswith(b) and re.fullmatch(r'[1-9][0-9]*', nm[len(b):]) and int(nm[len(b):]) >= 2 for b in bases):
                    probs.append('type %s with the name %s is called %r' % (i, sorted(bases), nm))
        return probs
    def go(sc, rule):
        if all_inline_cycle(sc):
            return
        for p in R.paths(sc, rule):
            probs = names_ok(sc, p, rule)
            if probs:
                c.bad(rule, skey(sc), '%s (%r)' % (probs[0], sc), where(R.F, 'subschema_for'), p.log)
            else:
                c.ok(rule, repr(sc))
    graphs = [[(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (2, 3)], [(0, 3), (3, 2), (2, 1), (1, 0)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(1, 1), (2, 2), (0, 1), (0, 2), (0, 3), (3, 1)],
              [(0, 0), (0, 1), (1, 0), (1, 2), (2, 3), (3, 0)]]
    namesets = [{}, {0: 'A', 1: 'A', 2: 'A', 3: 'A'}, {1: 'A', 2: 'A', 3: 'A2'}, {1: 'A2', 2: 'A', 3: 'A'}, {1: 'A', 2: 'A2', 3: 'A'}, {0: 'A', 1: 'A', 2: 'A2', 3: 'A2'},
                {1: 'A', 2: 'A', 3: 'A3'}, {0: 'A3', 1: 'A2', 2: 'A', 3: 'A'}, {1: '', 2: '', 3: '2'}, {1: 'A1', 2: 'A', 3: 'A'}]
    idsets = [{}, {1: 'same', 2: 'same'}, {0: 'N0', 1: 'N1', 2: 'A', 3: 'A2'}]
    hists = [[(2, 0)], [(1, 0), (7, 0)], [(1, 3), (1, 2), (1, 1), (1, 0), (7, 0)], [(1, 1), (5, 0), (1, 2), (1, 1), (7, 0)], [(1, 2), (5, 1), (1, 1), (1, 3), (7, 0)],
             [(1, 1), (4, 0), (1, 2), (1, 1), (4, 0), (7, 0)], [(2, 1), (2, 2), (7, 0)], [(1, 1), (3, 2)], [(2, 0), (1, 1), (1, 2), (4, 0)], [(1, 1), (4, 1), (5, 0), (1, 2), (7, 0)], [(6, 0), (1, 2), (1, 1), (7, 0)]]
    for g in graphs:
        for ns in namesets:
            for ids in idsets:
                base = {}
                if ids.get(1) == 'same':
                    base = {1: {'x': 'same'}, 2: {'x': 'same'}}
                    ns2 = dict(ns); ns2[2] = ns2.get(1, 'N1')
                    g2 = [e for e in g if 2 not in e]
                    g2 += [(0, 1), (0, 2)]
                    ns_, g_ = ns2, g2
                    if 1 not in ns: ns_[1] = 'N1'
                    # edges of 1 and 2 must be the same type's edges
                    g_ = [e for e in g_ if e[0] not in (1, 2)]
                else:
                    ns_, g_ = ns, g
                for h in hists if c.thorough or ids == {} else hists[:4]:
                    go(Sc(edges=g_, names=ns_, ids=ids, base=base, ops=h), 'names')
    # many types: suffixes of any length; the first type to ask for a name gets it unsuffixed
    r = random.Random('schemars many')
    for k in range(60 if c.thorough else 16):
        n = 24 if k == 0 else r.randint(12, 24)
        pool = (['A'], ['A', 'A2'], ['A', 'A1', 'A2', 'A10', 'A11', 'A12'], ['', '1', '2', '10'], ['A', 'B', 'A\u00b2'])[k % 5] if k else ['A']
        names = {4 + i: r.choice(pool) for i in range(n)}
        sc = Sc(names=names, ops=[(11, 4 + i) for i in range(n)] + [(11, 4 + i) for i in r.sample(range(n), 4)] + [(7, 0)])
        for p in R.paths(sc, 'many'):
            o = outs(p); probs = []; got = {}
            defs = o.get(len(sc.ops) - 1)
            for step in range(len(sc.ops) - 1):
                m = sc.ops[step][1]; rf = ref_of(o.get(step))
                nm = rf and pct(rf[1:]).rsplit('/', 1)[-1].replace('~1', '/').replace('~0', '~')
                if nm is None: probs.append('type %d is %r' % (m, o.get(step))); continue
                if got.setdefault(m, nm) != nm: probs.append('type %d is called %r and %r' % (m, got[m], nm))
                b = names[m]
                if nm != b and not (nm.startswith(b) and re.fullmatch(r'[1-9][0-9]*', nm[len(b):]) and int(nm[len(b):]) >= 2):
                    probs.append('type %d with the name %r is called %r' % (m, b, nm))
                if b not in [got[x] for x in got if x != m] and nm != b: probs.append('type %d is called %r although nothing else is called %r' % (m, nm, b))
                if defs.get(nm) != sc.doc(m): probs.append('the definition %r of type %d is %r' % (nm, m, defs.get(nm)))
            if len(set(got.values())) != len(got): probs.append('two types share a name: %r' % (sorted(got.values()),))
            if len(defs) != len(got): probs.append('%d types have %d definitions' % (len(got), len(defs)))
            if probs:
                c.bad('many', 'many%d' % k, '%s (%r)' % (probs[0], sc), where(R.F, 'subschema_for'), p.log)
            else:
                c.ok('many', repr(sc))
    for sc in random_scenarios('C02', 20000 if c.thorough else 700, names=['A', 'A', 'A2', 'A3', '', '2', 'A22', 'a', 'A/2', 'N1'], bools=False):
        go(sc, 'random')
    # the same type under both contracts never shares a definition name: the name table is keyed by the contract too
    for sig in ('schema_id', 'contract'):
        pass
    c.engine_done(R.E)
    c.floor('names', 500); c.floor('many', 10); c.floor('random', 400)

# ------------------------------------------------------------------ C03
@check('C03')
def c03(c):
    R = Runner(c)
    def go(sc, rule):
        if all_inline_cycle(sc):
            return
        ps = R.run(sc)
        for p in ps:
            if p.end[0] == 'stuck' and p.end[1] == 'depth' and not [w for w in p.why if not w.startswith('stuck:depth')]:
                c.bad(rule, skey(sc), 'generation does not terminate (call depth %d) for %r' % (R.E.max_depth, sc), where(R.F, 'subschema_for'))
            elif p.precise and p.end == ('ret',):
                js = {}
                for e in p.log:
                    if e[0] == 'js':
                        js[e[1]] = js.get(e[1], 0) + 1
                probs = []
                for step, doc in outs(p).items():
                    op, n = sc.ops[step]
                    if op in (2, 3):
                        w = Walk(sc, doc); w.node(doc, n, (n,))
                        # a recursive occurrence is a reference
                        for a, b, chain in w.embed:
                            if b in chain and b not in sc.inline:
                                probs.append('type %d is embedded in its own schema (%s)' % (b, '>'.join(map(str, chain + (b,)))))
                # a definition is generated at most once: beyond that only each root call generates its type
                if sc.inl is None and not any(o[0] in (4, 5, 6) for o in sc.ops):
                    for n in js:
                        roots = sum(1 for o in sc.ops if o[0] in (2, 3, 5, 9, 10) and len(o) > 1 and o[1] == n)
                        if n not in sc.inline and js[n] > roots + 1:
                            probs.append('json_schema of type %d runs %d times, although it is the root %d times and has one definition' % (n, js[n], roots))
                if probs:
                    c.bad(rule, skey(sc), '%s for %r' % (probs[0], sc), where(R.F, 'subschema_for'), p.log)
                else:
                    c.ok(rule, repr(sc))
            else:
                c.und(rule, repr(sc), p.why or p.end)
    for e, i in itertools.chain(graphs2(), graphs3(c.thorough)):
        for inl in (None, True):
            for h in ([(2, 0)], [(1, 0), (2, 1)], [(3, 0)], [(6, 0)]):
                go(Sc(edges=e, inline=i, ops=h, inl=inl), 'recursion')
    four = [(0, 1), (1, 2), (2, 3), (3, 0), (3, 3), (1, 0), (2, 0)]
    for i in ([], [1], [2], [1, 2], [3]):
        for inl in (None, True):
            for pre in range(5):
                e = [x for x in four if not (x[0] == x[1] and x[0] in i)]
                go(Sc(edges=e, inline=i, ops=[(2, 0)], inl=inl, preset=pre), 'recursion')
    for b in (True, False, {}, {'not': {}}, {'type': 'null'}, {'$ref': '#'}):
        for e in ([], [(0, 1)], [(0, 1), (0, 2), (2, 1)], [(0, 1), (1, 0)], [(1, 1)]):
            if not isinstance(b, dict) and any(x == 1 for x, _ in e):
                continue
            for h in ([(1, 1), (1, 1)], [(1, 0), (1, 1), (2, 0)], [(2, 0), (2, 0)], [(1, 1), (3, 0)], [(1, 1), (2, 1), (1, 1)], [(2, 1), (1, 1), (1, 1), (2, 0)]):
                go(Sc(edges=e, base={1: b}, ops=h), 'once')
    for sc in random_scenarios('C03', 20000 if c.thorough else 700, ops=(1, 1, 2, 5, 7)):
        go(sc, 'random')
    c.engine_done(R.E)
    c.floor('random', 400)
    c.floor('once', 100)
    c.floor('recursion', 800)

# ------------------------------------------------------------------ C04
@check('C04')
def c04(c):
    R = Runner(c)
    def go(sc, rule):
        if all_inline_cycle(sc):
            return
        for p in R.paths(sc, rule):
            probs = []
            for step, doc in outs(p).items():
                op, n = sc.ops[step]
                if op == 1:
                    if (ref_of(doc) is not None) != (n not in sc.inline and not sc.inl):
                        probs.append('a subschema for type %d is %r' % (n, doc))
                if op not in (2, 3):
                    continue
                w = Walk(sc, doc); w.node(doc, n, (n,))
                defs = resolve(doc, '#/' + '/'.join(PATHS[sc.preset])) or {}
                for a, b, chain in w.embed:
                    if b not in sc.inline and not sc.inl:
                        probs.append('type %d is embedded although it is neither marked inline nor inlined by the settings' % b)
                for r, ids in w.refd.items():
                    for i in ids:
                        b = [m for m in range(4) if sc.id(m) == i][0]
                        if b in sc.inline:
                            probs.append('type %d is referenced although it is always inlined' % b)
                if sc.inl:
                    # references only where embedding would recurse
                    def acyclic(b):
                        seen = set(); todo = [b]
                        while todo:
                            for x, y in sc.edges:
                                if x == todo[-1] and False: pass
                            t = todo.pop()
                            for x, y in sc.edges:
                                if x == t and y not in seen:
                                    seen.add(y); todo.append(y)
                        return b not in seen
                    for r, ids in w.refd.items():
                        for i in ids:
                            b = [m for m in range(4) if sc.id(m) == i][0]
                            if acyclic(b):
                                probs.append('type %d is not recursive but is referenced although the settings inline it' % b)
                # no definition for types that are never referenced
                ref_names = {r for r in refs(doc)}
                for k in defs:
                    if not sc.inl and not any(resolve(doc, r) is defs[k] or r.endswith('/' + k) for r in ref_names):
                        if len(sc.ops) == 1:
                            probs.append('definition %r is not referenced' % k)
                for k, v in defs.items():
                    for m in sc.inline:
                        if isinstance(v, dict) and isinstance(sc.doc(m), dict) and v.get('x') == sc.doc(m).get('x'):
                            probs.append('type %d is always inlined but has a definition' % m)
            if probs:
                c.bad(rule, skey(sc), '%s for %r' % (probs[0], sc), where(R.F, 'subschema_for'), p.log)
            else:
                c.ok(rule, repr(sc))
    for kw in base_scenarios(c.thorough):
        for inl in (None, True, False):
            for h in ([(2, 0)], [(1, 0)], [(3, 0)]):
                if h != [(2, 0)] and len(kw['edges']) > 4:
                    continue
                go(Sc(ops=h, inl=inl, **kw), 'inline')
    for e in ([(0, 1), (1, 2), (2, 3), (3, 1)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (1, 1), (0, 2), (2, 3)]):
        for r in range(5):
            for i in itertools.combinations(range(4), r):
                for pre in (0, 1, 4) if c.thorough else (0,):
                    for inl in (None, True):
                        go(Sc(ops=[(2, 0)], inl=inl, edges=e, inline=i, preset=pre), 'inline')
    # what a generator has produced before makes no difference
    for e, i in graphs2():
        for inl in (None, True):
            for h in ([(1, 0), (1, 0)], [(1, 1), (1, 0), (1, 1)], [(2, 0), (1, 0)], [(2, 0), (2, 1)], [(1, 1), (3, 0)], [(1, 0), (4, 0), (1, 0), (2, 1)], [(9, 0), (1, 0), (1, 1)], [(5, 1), (1, 0), (1, 1)]):
                go(Sc(ops=h, inl=inl, edges=e, inline=i), 'history')
    for sc in random_scenarios('C04', 20000 if c.thorough else 700, bools=True, presets=(0, 0, 1, 2, 3)):
        go(sc, 'random')
    c.engine_done(R.E)
    c.floor('random', 400)
    c.floor('inline', 600); c.floor('history', 500)

# ------------------------------------------------------------------ C05
@check('C05')
def c05(c):
    R = Runner(c)
    bases = [{'x': 'n0'}, {'x': 'n0', 'title': 'Own'}, {'x': 'n0', 'title': ''}, {'x': 'n0', '$schema': 'own'}, {'x': 'n0', 'description': 'd', 'title': 'Own'},
             {'x': 'n0', '$defs': {'Pre': {'type': 'null'}}}, {'x': 'n0', 'definitions': {'Pre': {'type': 'null'}}}, True, False]
    KW = [{'x': 'n0', k: v} for k, v in (('$ref', '#/x'), ('$ref', '#'), ('$id', 'http://i'), ('$comment', 'c'), ('$anchor', 'a'), ('$vocabulary', {}), ('$dynamicRef', '#m'), ('type', 'object'), ('type', ['null', 'string']),
          ('enum', ['a']), ('const', None), ('format', 'uri'), ('not', {}), ('anyOf', [True]), ('allOf', [{'title': 'in'}]), ('oneOf', [False]), ('if', True), ('items', {'title': 'in'}), ('prefixItems', [True]),
          ('properties', {'title': True}), ('patternProperties', {'^': True}), ('additionalProperties', False), ('unevaluatedProperties', False), ('required', ['title']), ('default', {'title': 'in'}), ('deprecated', True),
          ('examples', [1]), ('readOnly', True), ('pattern', 'p'), ('minLength', 1), ('x-title', 'T'), ('Title', 'T'), ('schema', 's'), ('title ', 'T'))]
    metas = ['keep', None, 'http://m', '']
    def one(sc, rule):
        ps = R.paths(sc, rule)
        return ps[0] if len(ps) == 1 else None
    for b in bases + KW:
        for e in ([], [(0, 1)], [(0, 0), (0, 1), (1, 0)]) if b not in KW else ([], [(0, 1)]):
            for preset in (0, 1, 2, 3, 4) if b not in KW else (0, 1):
                for meta in metas if b not in KW else ('keep', None):
                    for ser in (False, True) if meta == 'keep' else (False,):
                        kw = dict(edges=e, base={0: b} if not isinstance(b, bool) else {}, preset=preset, meta=meta, ser=ser)
                        if isinstance(b, bool):
                            if e: continue
                            kw['base'] = {0: b}
                        a1 = one(Sc(ops=[(2, 0)], **kw), 'root')
                        a2 = one(Sc(ops=[(3, 0)], **kw), 'root')
                        if not a1 or not a2:
                            continue
                        d1, d2 = outs(a1).get(0), outs(a2).get(0)
                        k = repr((b, e, preset, meta, ser)).replace(' ', '')
                        if tops(d1) or tops(d2):
                            c.und('root', k, 'imprecise document')
                            continue
                        if d1 != d2:
                            c.bad('root', k, 'root_schema_for gives %r but into_root_schema_for gives %r' % (d1, d2), where(R.F, 'into_root_schema_for'))
                        else:
                            c.ok('root', 'both root entry points agree: %s' % k)
                        # title and $schema
                        want_title = b.get('title', 'N0') if isinstance(b, dict) else 'N0'
                        if not isinstance(d1, dict) or d1.get('title') != want_title:
                            c.bad('title', k, 'the root title is %r, expected %r' % (d1.get('title') if isinstance(d1, dict) else d1, want_title), where(R.F, 'root_schema_for'))
                        else:
                            c.ok('title', k)
                        M = {0: 'https://json-schema.org/draft/2020-12/schema', 1: 'http://json-schema.org/draft-07/schema#', 2: 'https://json-schema.org/draft/2019-09/schema',
                             3: 'https://json-schema.org/draft/2020-12/schema', 4: None}
                        own = b.get('$schema') if isinstance(b, dict) else None
                        if meta == 'keep' and preset == 4:
                            pass
                        else:
                            want = meta if meta not in ('keep', None) else M[preset] if meta == 'keep' else own
                            if d1.get('$schema') != want:
                                c.bad('meta', k, 'the root $schema is %r, expected %r' % (d1.get('$schema'), want), where(R.F, 'root_schema_for'))
                            else:
                                c.ok('meta', k)
                        if preset == 0 and meta == 'keep' and not ser:
                            a3 = one(Sc(ops=[(8, 0)], **kw), 'macro')
                            if a3:
                                d3 = outs(a3).get(0)
                                if d3 != d1:
                                    c.bad('macro', k, 'schema_for! gives %r but the default generator gives %r' % (d3, d1), 'schemars/src/macros.rs (schema_for)')
                                else:
                                    c.ok('macro', k)
    import copy
    r = random.Random('schemars C05')
    for sc in random_scenarios('C05', 6000 if c.thorough else 300, names=NAMES[:8] + ['N1'], presets=(0, 1, 2, 3, 4)):
        if all_inline_cycle(sc): continue
        sc.meta = r.choice(metas + ['keep']); sc.ser = r.random() < .3; sc.trs = r.choice((0, 0, 1, 2)); sc.path = r.choice((None, None, '/a/b', '', '#/definitions'))
        k = len(sc.ops) - 1; ds = []
        for op in (2, 3):
            s2 = copy.copy(sc); s2.ops = sc.ops[:-1] + [(op, sc.ops[-1][1])]
            a = one(s2, 'root-history')
            ds.append(a and outs(a).get(k))
        if None in ds or tops(ds[0]) or tops(ds[1]):
            continue
        if ds[0] != ds[1]:
            c.bad('root-history', skey(sc), 'after %s root_schema_for gives %r but into_root_schema_for gives %r' % (sc.ops[:-1], ds[0], ds[1]), where(R.F, 'into_root_schema_for'))
        else:
            c.ok('root-history', repr(sc))
    # schemas inferred from values
    for v in ({'type': 'string'}, {'type': 'object', 'title': 'T', 'properties': {}}, True, False, {'examples': ['old']}, 'fail'):
        for jn in ({'a': 1}, None, 'text', [], 'fail'):
            for preset in (0, 1, 4):
                for meta in metas:
                    for pre in ([], [(1, 1)]):
                        kw = dict(edges=[(1, 2)], preset=preset, meta=meta, vals={5: v, ('json', 5): jn})
                        a1 = one(Sc(ops=pre + [(9, 5)], **kw), 'value')
                        a2 = one(Sc(ops=pre + [(10, 5)], **kw), 'value')
                        if not a1 or not a2:
                            continue
                        d1, d2 = outs(a1).get(len(pre)), outs(a2).get(len(pre))
                        k = repr((v, jn, preset, meta, pre)).replace(' ', '')
                        if d1 != d2:
                            c.bad('value', k, 'root_schema_for_value gives %r but into_root_schema_for_value gives %r' % (d1, d2), where(R.F, 'into_root_schema_for_value'))
                            continue
                        probs = []
                        if v == 'fail':
                            if d1 is not False: probs.append('a failing serializer does not give an error: %r' % (d1,))
                        else:
                            if not isinstance(d1, dict):
                                probs.append('the result is %r' % (d1,))
                            else:
                                if preset == 0:
                                    want = v.get('examples') if jn == 'fail' and isinstance(v, dict) else None if jn == 'fail' else [jn]
                                    if d1.get('examples') != want:
                                        probs.append('examples is %r, expected %r' % (d1.get('examples'), want))
                                    for kk, vv in (v.items() if isinstance(v, dict) else []):
                                        if kk != 'examples' and d1.get(kk) != vv:
                                            probs.append('%s of the inferred schema is %r, expected %r' % (kk, d1.get(kk), vv))
                                if pre and resolve(d1, '#/' + '/'.join(PATHS[preset])) is None:
                                    probs.append('the definitions are missing')
                        if probs:
                            c.bad('value', k, probs[0], where(R.F, 'root_schema_for_value'))
                        else:
                            c.ok('value', k)
    c.engine_done(R.E)
    c.floor('root', 150); c.floor('root-history', 150); c.floor('value', 100); c.floor('macro', 5); c.floor('title', 150); c.floor('meta', 100)

# ------------------------------------------------------------------ C06
@check('C06')
def c06(c):
    R = Runner(c)
    def trs(p):
        return [(e[1], e[2]) for e in p.log if e[0] == 'tr']
    for preset in (0, 3):
        for path in (None, '/definitions', '/a/b'):
            for e in ([], [(0, 1)], [(0, 1), (1, 2), (2, 0)]):
                for n in (0, 1, 2):
                    for op in (2, 3, 9, 10):
                        for pre in ([], [(1, 1)], [(1, 1), (1, 2)], [(2, 1)], [(1, 1), (7, 0)], [(1, 1), (4, 0)]):
                            sc = Sc(edges=e, preset=preset, path=path, ops=pre + [(op, 0)], trs=n)
                            for p in R.paths(sc, 'root'):
                                k = len(pre)
                                # transforms run by the last operation
                                o = outs(p)
                                last = o.get(k)
                                first = [x for x in p.log if x[0] == 'out' and x[1] == k - 1]
                                ts = []
                                seen = not pre
                                for x in p.log:
                                    if x[0] == 'tr' and seen: ts.append((x[1], x[2]))
                                    if x[0] == 'out' and x[1] == k - 1: seen = True
                                probs = []
                                if [t for t, _ in ts] != list(range(1, n + 1)):
                                    probs.append('the transforms applied to the root schema are %s, expected each of the %d once in order' % ([t for t, _ in ts], n))
                                elif n:
                                    a = ts[0][1]
                                    if {kk: vv for kk, vv in last.items() if not kk.startswith('!')} != {kk: vv for kk, vv in a.items()}:
                                        probs.append('the first transform saw %r but the final document is %r' % (a, last))
                                    marks = [kk for kk in last if kk.startswith('!')]
                                    if [int(m.split('.')[1]) for m in marks] != list(range(1, n + 1)):
                                        probs.append('marks of the transforms in the final document: %s' % marks)
                                    if op == 3 or op == 2:
                                        if e and not pre and resolve(a, '#' + (path or '/$defs')) is None:
                                            probs.append('transforms run before the definitions are added')
                                        if a.get('title') is None or '$schema' not in a:
                                            probs.append('transforms run before title or $schema are set')
                                if probs:
                                    c.bad('root', skey(sc), '%s for %r' % (probs[0], sc), where(R.F, 'root_schema_for' if op == 2 else 'into_root_schema_for'), p.log)
                                else:
                                    c.ok('root', repr(sc))
    # take_definitions
    for e in ([], [(0, 1)], [(0, 1), (1, 2), (2, 0)]):
        for n in (0, 1, 2):
            for flag in (0, 1):
                for pre in ([(1, 0)], [(1, 0), (1, 2)], [(2, 1)], []):
                    for extra, base in itertools.product(([], [(7, 0)], [(4, flag)], [(2, 1)]), ({}, {0: True, 1: False, 2: True}, {0: False, 2: {}})):
                        if base and extra:
                            continue
                        sc = Sc(edges=e, base=base, ops=pre + [(7, 0), (4, flag), (7, 0)] + extra, trs=n)
                        for p in R.paths(sc, 'take'):
                            k = len(pre)
                            o = outs(p)
                            before, taken, after = o.get(k), o.get(k + 1), o.get(k + 2)
                            probs = []
                            if after != {}:
                                probs.append('definitions left after taking them: %r' % (after,))
                            strip = lambda d: {a: ({x: y for x, y in v.items() if not x.startswith('!')} if isinstance(v, dict) else v) for a, v in d.items()}
                            if strip(taken) != strip(before):
                                probs.append('taken definitions %r differ from the definitions %r' % (taken, before))
                            on = [x[0] == 'out' and x[1] for x in p.log]
                            # every transform meets every definition, bools included, exactly once
                            plain = lambda v: {x: y for x, y in v.items() if not x.startswith('!')} if isinstance(v, dict) else v
                            met = sorted(repr((x[1], plain(x[2]))) for x in p.log[(on.index(k) if True in [type(q) is int and q == k for q in on] else 0):on.index(k + 1)] if x[0] == 'tr')
                            want = sorted(repr((t, plain(v))) for t in range(1, n + 1) for v in before.values()) if flag else []
                            if met != want:
                                probs.append('taking the definitions applied the transforms to %s, expected %s' % (met, want))
                            for a, v in taken.items():
                                if isinstance(v, bool):
                                    continue
                                ms = [int(m.split('.')[1]) for m in v if m.startswith('!')]
                                want = list(range(1, n + 1)) if flag else []
                                if ms != want:
                                    probs.append('definition %r was transformed by %s, expected %s' % (a, ms, want))
                            if probs:
                                c.bad('take', skey(sc), '%s for %r' % (probs[0], sc), where(R.F, 'take_definitions'), p.log)
                            else:
                                c.ok('take', repr(sc))
    # definitions end up at the definitions path, merged with what is already there
    for path, loc in ((None, ['$defs']), ('/definitions', ['definitions']), ('#/a/b', ['a', 'b']), ('/a//b', ['a', '', 'b']), ('//a', ['', 'a']), ('/a/b/', ['a', 'b']), ('/a~1b/c~0d', ['a/b', 'c~d']), ('/a~01b', ['a~1b']), ('/~1~0', ['/~']), ('/~00', ['~0']), ('/0/~1/x', ['0', '/', 'x']), ('', []), ('#/', [])):
        for base in ({'x': 'n0'}, {'x': 'n0', '$defs': {'Pre': {'t': 1}}}, {'x': 'n0', 'a': {'b': {'Pre': {'t': 1}}, 'c': 5}}):
            for op in (2, 3):
                sc = Sc(edges=[(0, 1), (1, 2), (2, 1)], base={0: base}, path=path, ops=[(op, 0)])
                for p in R.paths(sc, 'place'):
                    d = outs(p).get(0)
                    cur = d
                    for s in loc:
                        cur = cur.get(s) if isinstance(cur, dict) else None
                    probs = []
                    if not isinstance(cur, dict) or not {'N1', 'N2'} <= set(cur):
                        probs.append('the definitions are not at %r: %r' % (path, d))
                    else:
                        exp = base
                        for s in loc:
                            exp = exp.get(s, {}) if isinstance(exp, dict) else {}
                        for kk, vv in exp.items():
                            if cur.get(kk) != vv:
                                probs.append('%r at the definitions path was lost' % kk)
                        for kk, vv in base.items():
                            if kk not in d or kk != (loc[0] if loc else None) and d[kk] != vv:
                                probs.append('%r of the root schema was changed to %r' % (kk, d.get(kk)))
                    if probs:
                        c.bad('place', skey(sc), '%s for %r' % (probs[0], sc), where(R.F, 'add_definitions'), p.log)
                    else:
                        c.ok('place', repr(sc))
    c.engine_done(R.E)
    c.floor('root', 400); c.floor('take', 60); c.floor('place', 30)
