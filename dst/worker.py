"""Worker interpreter: forks one process per simulated run."""
import json
import os
import select
import signal
import sys
import tempfile
import shutil
import traceback

from . import core


def run_child(job):
    """Execute one run in this (forked) process; returns a result dict."""
    from . import scenario
    plan = job['plan']
    if plan.get('twins') and 'only' not in plan:
        # each party alone, in a process of its own
        alone = []
        for k in range(plan['twins']):
            r = fork_run({'plan': dict(plan, only=k)}, job.get('limit', 60))
            if r.get('error') or r.get('violation'):
                return r
            alone.append(r['facts'][k])
        plan = dict(plan, expect=alone)
    tmp = tempfile.mkdtemp(prefix='dst-')
    try:
        return scenario.execute(plan, job.get('script'), tmp,
                                want_log=job.get('log', False))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fork_run(job, limit):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            os.setsid()
            signal.alarm(int(limit) + 30)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(dn, 2)
            try:
                res = run_child(job)
            except BaseException:
                res = {'error': traceback.format_exc()[-3000:]}
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(wr, data[off:])
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    buf = b''
    timed_out = False
    t0 = core._real_monotonic()
    while True:
        left = limit - (core._real_monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rd], [], [], left)
        if not r:
            timed_out = True
            break
        b = os.read(rd, 1 << 16)
        if not b:
            break
        buf += b
    os.close(rd)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    if timed_out:
        return {'hang': True, 'violation': {
            'kind': 'hang', 'detail': 'no end within %d s of real time'
            % limit}, 'digest': 'hang', 'deviations': {}}
    try:
        return json.loads(buf)
    except ValueError:
        return {'error': 'run died without a result'}


def main():
    from . import boot
    boot.boot()
    from . import scenario
    scenario.preload()
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = sys.stderr
    for line in sys.stdin:
        job = json.loads(line)
        res = fork_run(job, job.get('limit', 60))
        res['id'] = job.get('id')
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
