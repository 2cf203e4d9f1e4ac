"""Executable-contract harness: runs under /opt/venv/bin/python on the real code in /repo.

A property module ``cNN.py`` defines ``cases(h)`` yielding (kind, params) and functions
``case_<kind>(h, params)`` which run the real code on one input / history and evaluate the
contract with ``h.check``.  params are Python literals, so every case is replayable.
"""
from __future__ import absolute_import, division, print_function
import ast
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
logging.raiseExceptions = False


class Violation(Exception):
    def __init__(self, name, detail, key=None):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail, self.key = name, detail, key


class CaseTimeout(BaseException):
    pass


class Harness(object):
    def __init__(self, prop, tier, seed, budget, shard=0, nshards=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.rng = random.Random(seed * 1000003 + hash_str(prop))
        self.budget = budget
        self.t0 = time.time()
        self.evals = 0
        self.checks = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.contracts = {}
        self.current = None
        self.shard = shard
        self.nshards = nshards

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 20)

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    def check(self, name, cond, detail='', key=None):
        """One contract clause evaluated on this case."""
        self.checks[name] = self.checks.get(name, 0) + 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(name, str(detail)[:2000], key)

    def nontrivial(self, sig):
        self.distinct.add(sig if isinstance(sig, (str, int, tuple)) else repr(sig))

    def run_case(self, mod, kind, params, limit=20):
        self.current = (kind, params)
        self.evals += 1
        fn = getattr(mod, 'case_' + kind)

        def on_alarm(sig, frm):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(limit)
        try:
            fn(self, params)
        except Violation as v:
            return v
        except CaseTimeout:
            self.errors.append('timeout in %s %r' % (kind, repr(params)[:300]))
            return None
        except Exception as e:
            tb, f = e.__traceback__, ''
            while tb is not None:
                f = tb.tb_frame.f_code.co_filename
                tb = tb.tb_next
            if getattr(mod, 'STRICT_EXC', True) and os.path.abspath(f).startswith(os.path.join(REPO, 'katcp') + os.sep):
                return Violation('no unexpected exception from the code', '%s %s: %s' % (
                    kind, repr(params)[:300], traceback.format_exc()[-1000:]))
            self.errors.append('%s %s: %s' % (kind, repr(params)[:300], traceback.format_exc()[-1500:]))
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return None


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000000007
    return h


def run_all(prop, tier, seed, budget, known, out, shard=0, nshards=1):
    import importlib
    h = Harness(prop, tier, seed, budget, shard, nshards)
    res = {}
    try:
        mod = importlib.import_module(prop.lower())
    except Exception:
        res['import_error'] = traceback.format_exc()[-3000:]
        mod = None
    found = {}
    i = 0
    if mod is not None:
        gen = mod.cases(h)
        while True:
            try:
                kind, params = next(gen)
            except StopIteration:
                break
            except Exception:
                h.errors.append('generator: ' + traceback.format_exc()[-1500:])
                break
            i += 1
            if nshards > 1 and i % nshards != shard:
                continue
            if h.time_left() < 0:
                res['budget_exhausted'] = True
                break
            v = h.run_case(mod, kind, params)
            if len(h.samples) < 12 and (h.evals in (1, 2, 3) or h.evals % 499 == 0):
                h.samples.append('%s %s' % (kind, repr(params)[:400]))
            if v is not None:
                k = v.key or v.name
                if k not in found:
                    # confirm by re-execution of the same case
                    v2 = h.run_case(mod, kind, params)
                    if v2 is None:
                        h.errors.append('unstable violation %s on %s %r' % (v, kind, repr(params)[:300]))
                        continue
                    found[k] = {'property': prop, 'clause': v.name, 'key': v.key, 'kind': kind,
                                'params': repr(params), 'detail': v.detail}
                if len(found) >= 12 or (v.key not in known and len([f for f in found.values()
                                                                 if f['key'] not in known]) >= 4):
                    break
    res.update({'evaluations': h.evals, 'distinct': sorted(str(x) for x in h.distinct)[:200000],
                'checks': h.checks, 'samples': h.samples, 'violations': list(found.values()),
                'errors': h.errors[:20], 'n_errors': len(h.errors), 'wall': time.time() - h.t0,
                'rule': getattr(mod, 'RULE', ''), 'bounds': getattr(mod, 'BOUNDS', ''),
                'functions': getattr(mod, 'FUNCTIONS', [])})
    with open(out, 'w') as f:
        json.dump(res, f)
    return res


def replay_file(path):
    import importlib
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module(r['property'].lower())
    h = Harness(r['property'], 'quick', 1, 60)
    v = h.run_case(mod, r['kind'], ast.literal_eval(r['params']))
    if v is None:
        print('replay: contract holds on this input', h.errors)
        return 0
    print('replay: VIOLATION of clause %s: %s' % (v.name, v.detail))
    return 1


def from_witness(prop, wpath, out):
    """Directed search from a verifier counterexample."""
    import importlib
    with open(wpath) as f:
        ws = json.load(f)
    mod = importlib.import_module(prop.lower())
    h = Harness(prop, 'quick', 1, 60)
    found = []
    gen = getattr(mod, 'from_witness', None)
    for w in ws:
        if gen is None:
            break
        try:
            cs = list(gen(h, w))
        except Exception:
            h.errors.append(traceback.format_exc()[-800:])
            continue
        for kind, params in cs:
            v = h.run_case(mod, kind, params)
            if v is not None:
                found.append({'property': prop, 'clause': v.name, 'key': v.key, 'kind': kind,
                              'params': repr(params), 'detail': v.detail, 'witness': w})
                break
    with open(out, 'w') as f:
        json.dump({'violations': found, 'errors': h.errors[:5], 'evaluations': h.evals}, f)
