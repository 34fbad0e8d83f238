#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs against /repo (applies, tests, demo,
undoes) and report whether the check of the property catches them.

  --no-tests   skip the repository's tests
  --all-checks run every check, not only that of the property
"""
import json
import os
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=V, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, text=True,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          **kw)


def demo(d):
    return sh('bash %s/demo.sh' % d, cwd=R, timeout=300)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if not ids:
        ids = sorted(os.listdir(V + '/seeded'))
    assert not sh('git status --porcelain', cwd=R).stdout, 'repo not clean'
    for i in ids:
        d = '%s/seeded/%s' % (V, i)
        prop = json.load(open(d + '/meta.json'))['property']
        out = [i, prop]
        x = demo(d)
        if x.returncode != 0:
            print(i, 'demo fails on the clean tree:\n' + x.stdout[-1500:])
            continue
        try:
            a = sh('git apply %s/patch.diff' % d, cwd=R)
            if a.returncode:
                print(i, 'does not apply', a.stdout)
                continue
            if '--no-tests' not in sys.argv:
                sh('bash /opt/vp/build.sh')
                sh('bash /opt/vp/test.sh /tmp/plant.json')
                t = json.load(open('/tmp/plant.json'))
                out.append('tests %d/%d' % (
                    len(t['passed']), len(t['passed']) + len(t['failed'])))
                if t['failed']:
                    out.append(str(t['failed'])[:300])
            x = demo(d)
            out.append('demo %s' % ('shows it' if x.returncode else
                                    'DOES NOT SHOW IT'))
            props = [prop]
            if '--all-checks' in sys.argv:
                props = [c['property'] for c in json.load(
                    open(V + '/MANIFEST.json'))['checks']]
            for p in props:
                t0 = time.time()
                c = sh('%s run.py check %s' % (PY, p))
                got = 'VIOLATION property=%s ' % p in c.stdout
                if p == prop or got:
                    v = [l for l in c.stdout.splitlines()
                         if l.startswith(('violation:', 'seed '))]
                    out.append('%s %s rc=%d %.0fs %s' % (
                        p, 'CAUGHT' if got else 'missed', c.returncode,
                        time.time() - t0, v[:1]))
        finally:
            sh('git checkout -- .', cwd=R)
        print(' | '.join(out), flush=True)


main()
