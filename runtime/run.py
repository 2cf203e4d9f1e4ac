import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
p = argparse.ArgumentParser()
p.add_argument('prop', nargs='?')
p.add_argument('--tier', default='quick')
p.add_argument('--seed', type=int, default=1)
p.add_argument('--budget', type=float, default=60)
p.add_argument('--known', default='')
p.add_argument('--out', default='/dev/null')
p.add_argument('--shard', type=int, default=0)
p.add_argument('--nshards', type=int, default=1)
p.add_argument('--replay')
p.add_argument('--witness')
a = p.parse_args()
if a.replay:
    sys.exit(common.replay_file(a.replay))
if a.witness:
    common.from_witness(a.prop, a.witness, a.out)
    sys.exit(0)
r = common.run_all(a.prop, a.tier, a.seed, a.budget, set(a.known.split(',')), a.out, a.shard, a.nshards)
if a.out == '/dev/null':
    for v in r['violations']:
        print('VIOLATION', v)
    for e in r['errors']:
        print('ERROR', e)
    if r.get('import_error'):
        print(r['import_error'])
    print(r['evaluations'], 'evals', len(r['distinct']), 'distinct', r['checks'], '%.1fs' % r['wall'])
sys.stdout.flush()
os._exit(0)             # handler threads of servers under test must not keep the run alive
