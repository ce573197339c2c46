"""Property-based checks of the python sources: a property is a strategy of plain cases (lists, dicts, numbers, strings) and a function
which checks one case. Hypothesis generates and shrinks; the smallest failing case is the replay file."""
import argparse
import importlib
import json
import os
import sys
import time
import types
import warnings

import hypothesis
from hypothesis import HealthCheck, settings
from hypothesis import strategies as st  # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')
PROPS = []


class Ctx:
    def __init__(self):
        self.nt = False

    def nontrivial(self, c=True):
        self.nt = self.nt or bool(c)


def prop(strategy, cap=None):
    """cap: enough cases, for a small domain"""
    def deco(f):
        f.cap = cap
        PROPS.append((f.__name__, strategy, f))
        return f
    return deco


def package(fakes=()):
    """The package dynamic_graph.sot.core of the repository without the compiled extension; fakes: {module name: module}."""
    src = REPO + '/src'
    sys.dont_write_bytecode = True
    sys.path.insert(0, src)
    core = types.ModuleType('dynamic_graph.sot.core')
    core.__path__ = [src + '/dynamic_graph/sot/core']
    sys.modules[core.__name__] = core
    importlib.import_module('dynamic_graph.sot').core = core
    for name, m in dict(fakes).items():
        sys.modules[name] = m
        parent, _, leaf = name.rpartition('.')
        if parent in sys.modules:
            setattr(sys.modules[parent], leaf, m)
    return core


def close(a, b, tol, msg):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, '%s: shapes %s and %s' % (msg, a.shape, b.shape)
    assert np.all(np.abs(a - b) <= tol), '%s: %s instead of %s' % (msg, a.tolist(), b.tolist())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--id')
    ap.add_argument('--out')
    ap.add_argument('--replaydir')
    ap.add_argument('--budget', type=float, default=15)
    ap.add_argument('--known', action='append', default=[])
    ap.add_argument('--replay')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    if a.replay:
        l = open(a.replay).read().split('\n')
        name = l[0].split()[2]
        for n, _, f in PROPS:
            if n == name:
                try:
                    f(json.loads(l[1]), Ctx())
                except Exception as e:
                    print('FAILED %s: %s: %s' % (n, type(e).__name__, e))
                    return 1
                print('passed')
                return 0
        return 2
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    subs, bad, t0 = [], 0, time.time()
    trace = os.environ.get('VERIF_TRACE')      # compiled code is under test: the current case is on record if it crashes
    for k, (name, strat, f) in enumerate(PROPS):
        end = t0 + a.budget * (k + 1) / len(PROPS)
        s = dict(prop=name, evaluations=0, nontrivial=0, distinct_nontrivial=0, discarded=0, known_finding_hits=0, labels={}, samples=[])
        seen, last, rnd = set(), {}, 0
        while not bad and (rnd == 0 or time.time() < end and s['evaluations'] < (f.cap or 1e9)):
            def one(case):
                c = Ctx()
                s['evaluations'] += 1
                js = json.dumps(case)
                if trace:
                    with open(trace, 'w') as o:
                        o.write('property %s %s\n%s\nthe interpreter died\n' % (a.id, name, js))
                try:
                    f(json.loads(js), c)
                except (Exception, SystemExit) as e:
                    last['case'], last['msg'] = js, '%s: %s' % (type(e).__name__, e)
                    raise
                if c.nt:
                    s['nontrivial'] += 1
                    h = hash(js)
                    if h not in seen:
                        seen.add(h)
                        s['samples'] += [js] if len(s['samples']) < 3 and len(js) < 600 else []
            left = max(1, end - time.time())
            t = hypothesis.seed(seed * 100003 + rnd)(hypothesis.given(strat)(one))
            t = settings(max_examples=100 if left < 5 else 400, database=None, deadline=None, print_blob=False,
                         suppress_health_check=list(HealthCheck), report_multiple_bugs=False)(t)
            try:
                t()
            except (Exception, SystemExit) as e:
                if 'case' not in last:
                    raise
                path = os.path.join(a.replaydir, '%s-%s.replay' % (a.id, name))
                os.makedirs(a.replaydir, exist_ok=True)
                with open(path, 'w') as o:
                    o.write('property %s %s\n%s\n%s\n' % (a.id, name, last['case'], last['msg']))
                print('FAILED %s: %s' % (name, last['msg'][:1500]))
                print(' ' + last['case'][:1500])
                print('VIOLATION property=%s replay=%s' % (a.id, path))
                bad = 1
            rnd += 1
        s['distinct_nontrivial'] = len(seen)
        subs.append(s)
        print('  %s: %d cases, %d distinct non-trivial' % (name, s['evaluations'], len(seen)))
        if bad:
            break
    json.dump(dict(sub=subs, evaluations=sum(s['evaluations'] for s in subs), violations=bad,
                   distinct_nontrivial=sum(s['distinct_nontrivial'] for s in subs), run_s=time.time() - t0), open(a.out, 'w'))
    return bad
