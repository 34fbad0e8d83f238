#!/opt/venv/bin/python
"""Entry point.

  run.py check C01 [--tier quick|thorough] [--seed N] [--runs N]
  run.py replay FILE
  run.py one C01 SEED      run one seed and show its log
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from dst import runner           # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=None)
    c.add_argument('--seed', type=int, default=None)
    c.add_argument('--runs', type=int, default=None)
    c.add_argument('--workers', type=int, default=8)
    r = sub.add_parser('replay')
    r.add_argument('file')
    r.add_argument('--log', action='store_true')
    o = sub.add_parser('one')
    o.add_argument('prop')
    o.add_argument('seed', type=int)
    o.add_argument('--tier', default='quick')
    o.add_argument('--hash', type=int, default=0)
    w = sub.add_parser('sweep')
    w.add_argument('prop')
    w.add_argument('runs', type=int)
    w.add_argument('--seed', type=int, default=1)
    w.add_argument('--small', type=int, default=0)
    w.add_argument('--start', type=int, default=0)
    w.add_argument('--tier', default='quick')
    w.add_argument('--stop', action='store_true')
    w.add_argument('--workers', type=int, default=8)
    a = ap.parse_args()
    if a.cmd == 'sweep':
        runner.sweep(a.prop, a.runs, a.seed, a.tier, a.small, a.start,
                     a.stop, a.workers)
        return
    if a.cmd == 'check':
        seed = a.seed if a.seed is not None else \
            int(os.environ.get('VERIF_SEED', '1') or 1)
        tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
        try:
            rc = runner.check(a.prop, tier, seed, a.runs, workers=a.workers)
        except Exception:
            import traceback
            traceback.print_exc()
            rc = 2
        sys.exit(rc)
    if a.cmd == 'replay':
        doc, out = runner.replay(a.file, 1, a.log)
        res = out[0]
        if a.log:
            print('\n'.join(res.get('log', ())))
        print('expected %s digest %s' % (doc['violation']['kind'],
                                         doc['digest']))
        print('got      %s digest %s' % (
            (res.get('violation') or {}).get('kind'), res.get('digest')))
        if res.get('error'):
            print(res['error'])
        if res.get('violation'):
            print(res['violation']['detail'])
            print('VIOLATION property=%s replay=%s' % (doc['property'],
                                                       a.file))
            sys.exit(1)
        sys.exit(0)
    if a.cmd == 'one':
        from dst import scenario
        w = runner.Worker(a.hash)
        res = w.run({'plan': scenario.make_plan(a.prop, a.seed, a.tier),
                     'script': None, 'limit': 120, 'log': True})
        w.close()
        for line in res.pop('log', ()):
            print(line)
        res.pop('seen', None)
        res.pop('deviations', None)
        for k, v in res.items():
            print(k, ':', v)


if __name__ == '__main__':
    main()
