#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--law NAME] [--replay FILE] [--seed N]

exit 0: held on everything explored; 1: VIOLATION; 2: the harness could not answer.
"""
import argparse, importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
from vlib import env
env.prepare()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--law')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    name = a.property
    src = open(os.path.join(HERE, 'props', name + '.py')).read()
    t0 = time.time()
    env.load(cython='NEEDS_CYTHON = True' in src)
    from vlib import engine
    sys.pycache_prefix = '/nonexistent-pycache'
    mod = importlib.import_module('props.' + name)
    tmp = env.scratch()
    if a.replay:
        r = json.load(open(a.replay))
        lw = next(l for l in mod.LAWS if l.name == r['law'])
        engine.snapshot_state()
        try:
            nt = engine.run_one(lw, r['case'], engine.Ctx(lw, tmp))
        except engine.Violation as e:
            print('VIOLATION property=%s replay=%s' % (name, a.replay))
            print('  law %s: %s' % (lw.name, e))
            return 1
        print('replay passes (%s)' % ('non-trivial' if nt else 'trivial'))
        return 0
    budget = a.budget or (330 if a.tier == 'quick' else 720)
    code, ev = engine.run_property(mod, name, a.tier, a.seed, budget, tmp, a.law)
    if not a.no_evidence and not a.law:
        engine.write_json(os.path.join(HERE, 'evidence', name + '.json'), ev)
    c = ev['coverage']
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.0f s (import %.0f s)' % (
        name, a.tier, a.seed, c['evaluations'], c['distinct_nontrivial'], ev['violations'], ev['wall_s'],
        time.time() - t0 - ev['wall_s']))
    if os.environ.get('VERIF_VERBOSE'):
        for l, p in c['laws'].items():
            print('  %-40s n=%d nt=%d skip=%d cpu=%.1f %s' % (l, p['evaluations'], p['nontrivial'],
                  p['skipped_over_budget'], p['cpu_s'], dict(sorted(p['labels'].items()))))
    return code


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # noqa
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
