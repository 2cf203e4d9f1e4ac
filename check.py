#!/usr/bin/env python3
"""Check one property: python3-vt check.py C01   (tier from VERIF_TIER, seed from VERIF_SEED)."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def prove_one(arg):
    prop, name, budget, part = arg
    os.environ['PYTHONHASHSEED'] = '0'
    t0 = time.time()
    try:
        import z3
        z3.set_param('smt.random_seed', 0)
        from engine.interp import Interp
        from engine.core import run_contract
        mod = importlib.import_module('contracts.' + prop.lower())
        fn, opts = mod.CONTRACTS[name]
        if part is not None:
            fn = (lambda f: lambda cx: f(cx, part))(fn)
        ip = Interp(REPO)
        for m in getattr(mod, 'MODULES', ['core']):
            ip.load('katcp.' + m)
        ip.cx = None
        led = run_contract(name, fn, ip, max_paths=opts.get('max_paths', 40000), budget=budget)
        d = {'name': name, 'obl': led.obl, 'paths': led.paths, 'cut': led.cut, 'undecided': led.undecided,
             'covers': led.covers, 'functions': led.functions, 'stubs': led.stubs, 'axioms': led.axioms,
             'solver_time': led.solver_time, 'queries': led.queries, 'wall': led.wall,
             'status': led.status(), 'backends': led.backends,
             'expect': opts.get('expect', []), 'bounded': opts.get('bounded')}
        missing = [] if part is not None else [e for e in d['expect'] if not led.obl.get(e, {}).get('checked') and not led.covers.get(e)]
        if missing and d['status'] == 'proved':
            d['status'] = 'undecided'
            d['undecided'] = d['undecided'] + ['vacuous: never reached %s' % missing]
        return d
    except Exception as e:
        import traceback
        return {'name': name, 'obl': {}, 'paths': 0, 'cut': 0, 'covers': {}, 'functions': {}, 'stubs': {},
                'axioms': {}, 'solver_time': 0, 'queries': 0, 'wall': time.time() - t0, 'backends': {},
                'status': 'undecided', 'expect': [], 'bounded': None,
                'undecided': ['engine: %s: %s' % (type(e).__name__, str(e)[:200]),
                              traceback.format_exc()[-600:]]}


def run_proofs(prop, budget):
    try:
        mod = importlib.import_module('contracts.' + prop.lower())
    except ModuleNotFoundError:
        return None, []
    names = list(mod.CONTRACTS)
    if not names:
        return mod, []
    jobs = [(n, part) for n in names for part in mod.CONTRACTS[n][1].get('split', [None])]
    jobs.sort(key=lambda j: j[1] is None)
    args = [(prop, n, mod.CONTRACTS[n][1].get('budget', budget), part) for n, part in jobs]
    res = run_jobs(args, time.time() + budget * 2 + 60)
    return mod, merge(names, res)


def child(conn, arg):
    import faulthandler
    faulthandler.enable()
    conn.send(prove_one(arg))
    conn.close()
    os._exit(0)


def run_jobs(args, t_end):
    """prove_one for every argument, each in a process of its own; a process that dies is started once more."""
    ctx = mp.get_context('fork')
    todo = [(i, a, 0) for i, a in enumerate(args)]
    out, live = [None] * len(args), {}
    while (todo or live) and time.time() < t_end:
        while todo and len(live) < NPROC:
            i, a, tries = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(w, a), daemon=True)
            p.start()
            w.close()
            live[r] = (p, i, a, tries)
        for r in mp.connection.wait(list(live), 1):
            p, i, a, tries = live.pop(r)
            try:
                out[i] = r.recv()
            except (EOFError, OSError):
                p.join(5)
                if tries < 1:
                    todo.append((i, a, tries + 1))
                else:
                    out[i] = nothing(a[1], 'process ended with %s' % p.exitcode)
            r.close()
            p.join(5)
    for p, i, a, tries in live.values():
        p.kill()
    return [d or nothing(args[i][1], 'wall-clock budget') for i, d in enumerate(out)]


def nothing(name, why):
    return {'name': name, 'obl': {}, 'paths': 0, 'cut': 0, 'covers': {}, 'functions': {}, 'stubs': {}, 'axioms': {}, 'solver_time': 0,
            'queries': 0, 'wall': 0, 'backends': {}, 'status': 'undecided', 'undecided': [why], 'expect': [], 'bounded': None}


def merge(names, parts):
    """one record per contract from the records of its parts."""
    out = []
    for n in names:
        ps = [p for p in parts if p['name'] == n]
        d = ps[0]
        for p in ps[1:]:
            for k, o in p['obl'].items():
                q = d['obl'].setdefault(k, {'checked': 0, 'discharged': 0, 'refuted': [], 'unknown': 0})
                for f in ('checked', 'discharged', 'unknown'):
                    q[f] += o[f]
                q['refuted'] = q['refuted'] + o['refuted']
            for f in ('covers', 'functions', 'stubs', 'axioms', 'backends'):
                for k, v in p[f].items():
                    d[f][k] = (d[f].get(k) or 0) + v if isinstance(v, (int, float)) else v
            for f in ('paths', 'cut', 'solver_time', 'queries', 'undecided'):
                d[f] = d[f] + p[f]
            d['wall'] = max(d['wall'], p['wall'])
            d['status'] = ('refuted' if 'refuted' in (d['status'], p['status']) else
                           'undecided' if 'undecided' in (d['status'], p['status']) else 'proved')
            d['expect'] = d['expect'] or p['expect']
        missing = [e for e in d['expect'] if not d['obl'].get(e, {}).get('checked') and not d['covers'].get(e)]
        if missing and d['status'] == 'proved':
            d['status'] = 'undecided'
            d['undecided'] = d['undecided'] + ['vacuous: never reached %s' % missing]
        out.append(d)
    return out


def start_runtime(prop, budget, nshards, known, tmp):
    procs = []
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO,
               VERIF_REPO=REPO)
    for i in range(nshards):
        out = os.path.join(tmp, 'rt%d.json' % i)
        p = subprocess.Popen([PYPY, os.path.join(HERE, 'runtime', 'run.py'), prop, '--tier', TIER,
                              '--seed', str(SEED), '--budget', str(budget), '--known', ','.join(known),
                              '--out', out, '--shard', str(i), '--nshards', str(nshards)],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=HERE)
        procs.append((p, out))
    return procs


def collect_runtime(procs, deadline):
    tot = {'evaluations': 0, 'distinct': set(), 'checks': {}, 'samples': [], 'violations': [], 'errors': [],
           'n_errors': 0, 'wall': 0, 'rule': '', 'bounds': '', 'functions': []}
    for p, out in procs:
        try:
            _, err = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            tot['errors'].append('bounded run timed out')
            tot['n_errors'] += 1
            continue
        if not os.path.exists(out):
            tot['errors'].append('bounded run died: %s' % (err or b'').decode('utf-8', 'replace')[-800:])
            tot['n_errors'] += 1
            continue
        r = json.load(open(out))
        if r.get('import_error'):
            tot['errors'].append(r['import_error'])
            tot['n_errors'] += 1
        tot['evaluations'] += r['evaluations']
        tot['distinct'].update(r['distinct'])
        for k, v in r['checks'].items():
            tot['checks'][k] = tot['checks'].get(k, 0) + v
        tot['samples'] = (tot['samples'] + r['samples'])[:12]
        tot['violations'] += r['violations']
        tot['errors'] += r['errors']
        tot['n_errors'] += r['n_errors']
        tot['wall'] = max(tot['wall'], r['wall'])
        for k in ('rule', 'bounds', 'functions'):
            tot[k] = r[k] or tot[k]
    return tot


def main():
    prop = sys.argv[1]
    t0 = time.time()
    thorough = TIER == 'thorough'
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known = known_findings(prop)
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    entry = [c for c in manifest['checks'] if c['property'] == prop]
    level = entry[0]['level'] if entry else 'other'
    violations = []      # (replay dict, suffix)
    with tempfile.TemporaryDirectory() as tmp:
        has_rt = os.path.exists(os.path.join(HERE, 'runtime', prop.lower() + '.py'))
        rt_budget = 600 if thorough else 100
        procs = start_runtime(prop, rt_budget, 8 if thorough else 4, known, tmp) if has_rt else []
        mod, proofs = run_proofs(prop, 400 if thorough else 150)
        rt = collect_runtime(procs, time.time() + rt_budget + 120) if procs else None

        # --- verdicts
        seen = set()
        for v in (rt['violations'] if rt else []):
            k = v['key'] or v['clause']
            if k in seen:
                continue
            seen.add(k)
            if v['key'] in known:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[v['key']]))
            else:
                violations.append((v, ''))
        refuted = []
        for p in proofs:
            for oname, o in p['obl'].items():
                if o['refuted']:
                    refuted.append((p, oname, o))
        unconfirmed = []
        for p, oname, o in refuted:
            kf = getattr(mod, 'KNOWN', {}).get(oname)
            if kf in known:
                if kf not in seen:
                    seen.add(kf)
                    print('KNOWN-FINDING: property=%s %s' % (prop, known[kf]))
                continue
            wf = os.path.join(tmp, 'w.json')
            of = os.path.join(tmp, 'wo.json')
            json.dump(o['refuted'][:20], open(wf, 'w'), default=str)
            conf = []
            if has_rt:
                try:
                    subprocess.run([PYPY, os.path.join(HERE, 'runtime', 'run.py'), prop, '--witness', wf, '--out', of],
                                   timeout=120, env=dict(os.environ, PYTHONPATH=REPO, VERIF_REPO=REPO,
                                                         PYTHONDONTWRITEBYTECODE='1'),
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    conf = json.load(open(of))['violations']
                except Exception:
                    conf = []
            conf = [c for c in conf if c['key'] not in known]
            rec = {'property': prop, 'obligation': oname, 'contract': p['name'],
                   'verifier_output': 'refuted (sat) on %d path(s)' % len(o['refuted']),
                   'counterexamples': o['refuted'][:5]}
            if conf:
                rec.update(conf[0])
                violations.append((rec, ''))
            elif any(s == '' for _, s in violations):
                rec['confirmed_by'] = violations[0][0].get('clause')
                unconfirmed.append((rec, ''))
            else:
                unconfirmed.append((rec, ' no-failing-input-found'))
        violations += unconfirmed

    proved = [p for p in proofs if not p['bounded']]
    obligations = sum(len(p['obl']) for p in proved)
    vcs = sum(o['checked'] for p in proofs for o in p['obl'].values())
    discharged_vcs = sum(o['discharged'] for p in proofs for o in p['obl'].values())
    discharged = sum(1 for p in proved for o in p['obl'].values()
                     if o['checked'] and o['discharged'] == o['checked'] and p['status'] == 'proved')
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) if mod else []
    axioms = {}
    backends = {}
    for p in proofs:
        for a, n in p['axioms'].items():
            axioms[a] = axioms.get(a, 0) + n
        for a, n in p['backends'].items():
            backends[a] = backends.get(a, 0) + n
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'bounded_obligations': {p['name']: {'bound': p['bounded'], 'obligations': len(p['obl']), 'status': p['status']} for p in proofs if p['bounded']},
        'verification_conditions': vcs, 'verification_conditions_discharged': discharged_vcs,
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'backends': backends,
        'solver_time_s': round(sum(p['solver_time'] for p in proofs), 2),
        'solver_queries': sum(p['queries'] for p in proofs),
        'paths': sum(p['paths'] for p in proofs),
        'contracts': [{'name': p['name'], 'status': p['status'], 'paths': p['paths'],
                       'obligations': {k: '%d/%d' % (o['discharged'], o['checked']) for k, o in p['obl'].items()},
                       'covers': p['covers'], 'bounded': p['bounded'],
                       'undecided': p['undecided'][:6], 'wall_s': round(p['wall'], 2)} for p in proofs],
        'functions_executed': sorted(set(f for p in proofs for f in p['functions'])),
        'functions_under_contract': list(getattr(mod, 'UNDER_CONTRACT', [])) if mod else [],
        'callee_contracts_used': sorted(set(s for p in proofs for s in p['stubs'])),
        'trusted_base': ['engine/ (VC generator: Python semantics of /verif/engine)', 'z3 5.3.2',
                         'cvc5 1.1.2 (fallback for z3 unknowns)', 'CPython re module parser for /repo regexes']
        + ['library axiom: %s (used %d times)' % (a, n) for a, n in sorted(axioms.items())],
        'undecided_contracts': [p['name'] for p in proofs if p['status'] == 'undecided'],
    }
    if rt:
        cov.update({'evaluations': rt['evaluations'], 'distinct_nontrivial': len(rt['distinct']),
                    'rule': rt['rule'] or 'cases from runtime/%s.py' % prop.lower(),
                    'samples': rt['samples'] or ['none'],
                    'bounded_standin': {'label': 'BOUNDED, not counted as proved', 'bounds': rt['bounds'],
                                        'functions': rt['functions'], 'clauses_evaluated': rt['checks'],
                                        'harness_errors': rt['n_errors'], 'errors': rt['errors'][:5],
                                        'wall_s': round(rt['wall'], 1)}})
    ev_level = level
    if level == 'proof' and (not obligations or discharged < obligations or cov['undecided_contracts']):
        ev_level = 'other'
        cov['explanation'] = ('not every obligation was discharged on this run; the undecided contracts are listed '
                              'and the bounded stand-in covered their functions')
    elif level == 'other':
        cov['explanation'] = entry[0]['level_note'] if entry else ''
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED,
          'level': ev_level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    # --- report
    for p in proofs:
        print('contract %-34s %-10s paths=%d obligations=%s' % (
            p['name'], p['status'], p['paths'],
            ' '.join('%s:%d/%d' % (k, o['discharged'], o['checked']) for k, o in sorted(p['obl'].items()))))
        for u in p['undecided'][:3]:
            print('    undecided: %s' % u[:400])
    if rt:
        print('bounded stand-in: %d evaluations, %d distinct, %d harness errors, %.1fs'
              % (rt['evaluations'], len(rt['distinct']), rt['n_errors'], rt['wall']))
        for e in rt['errors'][:3]:
            print('    error: %s' % e[-700:])
    code = 0
    for i, (v, suffix) in enumerate(violations[:6]):
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print('  %s' % (str(v.get('detail') or v.get('obligation'))[:300]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
        code = 1
    if code == 0:
        nothing = not discharged_vcs and not (rt and rt['evaluations'])
        if nothing:
            print('no obligation and no evaluation ran: no answer')
            sys.exit(3)
        if rt and not discharged_vcs and rt['n_errors'] and rt['n_errors'] >= rt['evaluations']:
            print('harness errors on every case: no answer')
            sys.exit(3)
    print('%s: %s (%d/%d obligations, %.1fs)' % (prop, 'violated' if code else 'held', discharged, obligations,
                                                 time.time() - t0))
    sys.exit(code)


if __name__ == '__main__':
    main()
