"""Common part of every check: obligations, evidence, known findings, verdict."""
import json, os, re, resource, signal, sys, time, traceback
from . import facts

V = facts.V
KNOWN = os.path.join(V, 'known-findings.txt')

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.thorough = tier == 'thorough'
        self.obligations = 0; self.discharged = 0
        self.undecided = []          # (obligation, why)
        self.viol = {}               # key -> (message, where, detail)
        self.rules = {}              # rule -> instances
        self.floors = []             # (rule, minimum)
        self.functions = set()
        self.paths = 0; self.steps = 0
        self.samples = []
        self.notes = []
        self.t0 = time.time()
        self.cut = None              # why the analysis stopped early

    # ---- facts
    def F(self, name='probe'):
        return facts.load('probe', 'derive') if name == 'derive' else facts.load(name, 'core')

    # ---- obligations
    def ok(self, rule, what='', n=1):
        self.obligations += n; self.discharged += n
        self.rules[rule] = self.rules.get(rule, 0) + n
        if what and len(self.samples) < 12 and self.rules[rule] <= 2:
            self.samples.append('%s: %s' % (rule, what))
    def und(self, rule, what, why):
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.undecided.append(('%s: %s' % (rule, what), str(why)[:300]))
    def bad(self, rule, key, message, where='?', detail=None):
        self.obligations += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        k = '%s/%s' % (rule, key)
        if k not in self.viol:
            self.viol[k] = (message, where, detail)
    def floor(self, rule, n):
        self.floors.append((rule, n))
    def engine_done(self, E):
        self.paths += E.stats['paths']; self.steps += E.stats['steps']
        for ix in E.called:
            i = E.I[ix]
            if i['span'][0].startswith('/repo'):
                self.functions.add(i['name'])

    # ---- verdict
    def finish(self):
        known, fixed = load_known(self.prop)
        for rule, n in self.floors if not self.cut else ():
            got = self.rules.get(rule, 0)
            if got < n:
                self.viol.setdefault('floor/' + rule, ('only %d instances of rule %s were found, %d expected' % (got, rule, n), '?', None))
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        cov = {
            'explanation': 'Static analysis of the type-checked MIR of /repo (generic code instantiated by the probe crates); '
                           'every obligation is decided by abstract interpretation or a rule over the call graph, without running the code.',
            'obligations': self.obligations, 'discharged': self.discharged, 'undecided': len(self.undecided),
            'undecided_list': ['%s -- %s' % u for u in self.undecided[:60]],
            'rules': self.rules, 'abstract_paths': self.paths, 'abstract_steps': self.steps,
            'repo_functions_analysed': len(self.functions), 'functions': sorted(self.functions)[:200],
            'samples': self.samples, 'notes': self.notes, 'stopped_early': self.cut or 'no',
            'checker_cmd': 'python3 check.py %s %s' % (self.prop, self.tier),
            'trusted_base': ['rustc nightly front end (types, MIR)', 'driver/ fact extractor', 'sa/engine.py abstract semantics of MIR',
                             'sa/models.py models of std and serde_json leaf operations', 'the oracle tables in sa/checks'],
            'known_findings': sorted(old), 'violations': [{'key': k, 'message': v[0], 'where': v[1]} for k, v in new.items()],
        }
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]))
        print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %d violations; %d abstract paths through %d functions of /repo; %.1fs'
              % (self.prop, self.obligations, self.discharged, len(self.undecided), len(old), len(new), self.paths, len(self.functions), time.time() - self.t0))
        if not new:
            return 0
        rd = os.path.join(V, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, self.prop + '.txt')
        with open(rp, 'w') as f:
            for k, (msg, where, detail) in sorted(new.items()):
                f.write('%s\n  at %s\n  %s\n' % (k, where, msg))
                if detail:
                    f.write('  %s\n' % str(detail).replace('\n', '\n  '))
                f.write('\n')
        for k, (msg, where, detail) in sorted(new.items())[:20]:
            print('  %s at %s: %s' % (k, where, msg))
        print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        return 1

ASSUME = [
    'std, serde, serde_json and the compiler behave as modelled in sa/models.py',
    'collections of unknown size are analysed up to two unknown elements per collection',
    'obligations whose abstract paths leave the domain are reported as undecided, never as violations',
]

def load_known(prop):
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'^known: property=(\S+) key=(\S+) (.*)$', line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
            m = re.match(r'^fixed: property=(\S+) (.*)$', line.strip())
            if m and m.group(1) == prop:
                fixed.append(m.group(2))
    return known, fixed

class Deadline(BaseException):
    pass

LIMIT = {'quick': 780, 'thorough': 3000}

def main(argv):
    from . import checks
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(20000)
    fn = checks.CHECKS.get(prop)
    if fn is None:
        print('no such check: ' + prop)
        return 2
    c = Ctx(prop, tier)
    def stop(*a):
        raise Deadline()
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(LIMIT.get(tier, 780))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (26 << 30, resource.RLIM_INFINITY))
        fn(c)
    except facts.WitnessError as e:
        from . import dspec, dspec2
        props = {t.name: t for t in dspec.W}
        for name, mod, text in e.which:
            t = props.get(name)
            if t and prop in t.props or mod == 'gen41.rs' and prop == 'C41':
                c.bad('compiles', name, 'the code that the macro emits for this type no longer compiles: ' + ' '.join(text.split())[:400],
                      'schemars_derive (code generated for witness %s)' % name, (t.source() + '\n' if t else '') + text)
        c.cut = 'the derive witnesses do not compile'
        c.und('build', 'the other witnesses', c.cut)
    except facts.BuildError as e:
        # the crate no longer offers something the probe crates use: nothing was analysed, so nothing is refuted
        c.cut = 'the probe crates do not build against /repo'
        c.und('build', 'probe crates', c.cut)
        print(c.cut + '\n' + str(e))
    except Deadline:
        c.cut = 'time limit reached'
        c.und('limit', 'remaining obligations', c.cut)
    except Exception as e:           # the analysis met a construct it cannot handle: undecided, not refuted
        c.cut = 'analysis stopped: %s: %s' % (type(e).__name__, str(e)[:300])
        c.und('limit', 'remaining obligations', c.cut)
        traceback.print_exc()
    finally:
        signal.alarm(0)
    return c.finish()
