"""Orchestration: seeded batches, minimisation, replay files, evidence."""
import ctypes
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def _fixed_addresses():
    """Best effort: the same memory layout in every process."""
    ctypes.CDLL(None).personality(0x0040000)     # ADDR_NO_RANDOMIZE


class Worker:
    def __init__(self, hashseed):
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONPATH'] = HERE
        env.pop('PYTHONSTARTUP', None)
        self.hashseed = hashseed
        self.p = subprocess.Popen(
            [PY, '-X', 'utf8', '-m', 'dst.worker'], cwd=HERE, env=env,
            preexec_fn=_fixed_addresses,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def run(self, job):
        self.p.stdin.write(json.dumps(job) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker died')
        res = json.loads(line)
        res['hashseed'] = self.hashseed
        return res

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


class Pool:
    def __init__(self, hashseeds):
        self.workers = [Worker(h) for h in hashseeds]

    def map(self, jobs, stop=None, bound=False):
        """Yield (index, result) as they finish.  bound: job i runs on worker
        i mod n (hash seed is part of the run)."""
        out = queue.Queue()
        n = len(self.workers)
        halt = threading.Event()
        shared = queue.Queue()
        if not bound:
            for i, j in enumerate(jobs):
                shared.put((i, j))

        def loop(w, k):
            try:
                if bound:
                    for i in range(k, len(jobs), n):
                        if halt.is_set():
                            break
                        out.put((i, w.run(jobs[i])))
                else:
                    while not halt.is_set():
                        try:
                            i, j = shared.get_nowait()
                        except queue.Empty:
                            break
                        out.put((i, w.run(j)))
            except Exception as e:
                out.put((-1, {'error': 'worker: %r' % e}))
            out.put(None)
        ts = [threading.Thread(target=loop, args=(w, k), daemon=True)
              for k, w in enumerate(self.workers)]
        for t in ts:
            t.start()
        left = n
        while left:
            x = out.get()
            if x is None:
                left -= 1
                continue
            yield x
            if stop is not None and stop():
                halt.set()

    def close(self):
        for w in self.workers:
            w.close()


def hash_seed(seed, k):
    return (seed * 1000003 + k * 7919 + 1) % 4294967295


def run_seed(seed, i):
    return seed * 1000000 + i


def same(res, kind):
    v = res.get('violation')
    return v is not None and v['kind'] == kind


def minimise(plan, res, budget=60):
    """Shrink ops and decisions while the same violation kind persists."""
    kind = res['violation']['kind']
    pool = Pool([res['hashseed']] * 8)
    t0 = time.time()
    tries = 0

    def test(cands):
        """First candidate (plan, script) that still fails, with result."""
        nonlocal tries
        tries += len(cands)
        jobs = [{'plan': p, 'script': s, 'limit': 40} for p, s in cands]
        got = {}
        for i, r in pool.map(jobs):
            if i >= 0 and same(r, kind):
                got[i] = r
        if got:
            i = min(got)
            return cands[i][0], cands[i][1], got[i]
        return None

    try:
        script = dict(res['deviations'])
        base = test([(plan, {}), (plan, script)])
        if base is None:
            return plan, script, res, False, tries
        plan, script, res = base

        def shrink_list(get, put):
            nonlocal plan, script, res
            size = max(1, len(get()) // 2)
            while size and time.time() - t0 < budget:
                items = get()
                n = len(items)
                cands = []
                for a in range(0, n, size):
                    rest = items[:a] + items[a + size:]
                    cands.append(put(rest))
                cands = cands[:24] if size > 1 else cands[:64]
                r = test(cands) if cands else None
                if r is not None:
                    plan, script, res = r
                    size = min(size, max(1, len(get()) // 2))
                    if not get():
                        break
                else:
                    if size == 1:
                        break
                    size = size // 2

        if plan.get('ops'):
            shrink_list(lambda: plan['ops'],
                        lambda x: (dict(plan, ops=x), script))
        if script:
            # decisions that actually fired in the failing run
            script = {k: v for k, v in script.items()
                      if k in res['deviations']} or script
            shrink_list(lambda: sorted(script.items()),
                        lambda x: (plan, dict(x)))
        if plan.get('ops'):
            shrink_list(lambda: plan['ops'],
                        lambda x: (dict(plan, ops=x), script))
        def smaller(cfg):
            out = []
            g = cfg.get('gen') or {}
            for key in ('modules', 'depth', 'width'):
                if g.get(key, 0) > 1:
                    out.append(dict(cfg, gen=dict(g, **{key: g[key] - 1})))
            for key in ('submodule', 'choice', 'identity', 'typedef',
                        'odd_names', 'ro', 'defaults'):
                if g and g.get(key, True):
                    out.append(dict(cfg, gen=dict(g, **{key: False})))
            if cfg.get('maxlist', 0) > 1:
                out.append(dict(cfg, maxlist=cfg['maxlist'] - 1))
            if cfg.get('density', 0) > 20:
                out.append(dict(cfg, density=cfg['density'] - 10))
            return out
        while time.time() - t0 < budget:
            cands = [(dict(plan, cfg=c), script)
                     for c in smaller(plan.get('cfg', {}))]
            r = test(cands) if cands else None
            if r is None:
                break
            plan, script, res = r
        return plan, script, res, True, tries
    finally:
        pool.close()


def sweep(prop, runs, seed=1, tier='quick', small=0, start=0, stop=False,
          workers=8):
    """Run many seeds without stopping; cluster the violations."""
    from . import scenario
    plans = [scenario.make_plan(prop, run_seed(seed, start + i), tier)
             for i in range(runs)]
    jobs = [{'plan': p, 'script': None, 'limit': 60} for p in plans]
    pool = Pool([hash_seed(seed, k) for k in range(workers)])
    kinds = {}
    n = 0
    for i, r in pool.map(jobs, bound=True):
        n += 1
        if r.get('error'):
            k = 'ERROR'
            d = r['error']
        elif r.get('violation'):
            k = r['violation']['kind']
            d = r['violation']['detail']
        else:
            continue
        kinds.setdefault(k, []).append((i, d, r))
        if stop:
            break
    pool.close()
    for k, v in sorted(kinds.items()):
        print('%5d x %s   seeds %s' % (len(v), k, [
            plans[x[0]]['seed'] for x in sorted(v, key=lambda y: y[0])[:6]]))
        for i, d, r in v[:small]:
            print('-' * 70, plans[i]['seed'])
            if k != 'ERROR':
                plan, script, res, ok, tries = minimise(plans[i], r, 30)
                d = res['violation']['detail']
            print(d)
    print('%d runs, %d bad' % (n, sum(len(v) for v in kinds.values())))


def replay_path(prop, plan):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%s.json' % (prop, plan['seed']))


def write_replay(prop, plan, script, res):
    path = replay_path(prop, plan)
    doc = {'property': prop, 'plan': plan, 'script': script,
           'hashseed': res['hashseed'], 'violation': res['violation'],
           'digest': res['digest']}
    if 'other' in res:
        # two runs that have to agree
        doc['other'] = {'hashseed': res['other'][1],
                        'facts': res['other'][0]}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    return path


def replay(path, times=1, log=False):
    with open(path) as f:
        doc = json.load(f)
    w = Worker(doc['hashseed'])
    try:
        out = []
        for _ in range(times):
            r = w.run({'plan': doc['plan'], 'script': doc['script'],
                       'limit': 60, 'log': log})
            if doc.get('other') and not r.get('violation'):
                w2 = Worker(doc['other']['hashseed'])
                r2 = w2.run({'plan': doc['plan'], 'script': doc['script'],
                             'limit': 60})
                w2.close()
                if r2.get('facts') != r.get('facts'):
                    r['violation'] = doc['violation']
            out.append(r)
        return doc, out
    finally:
        w.close()


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def match_known(prop, v, known):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and \
                v['kind'] == k['kind'] and k['match'] in v['detail']:
            return k
    return None


def check(prop, tier, seed, runs=None, budget=None, workers=8, quiet=False):
    from . import scenario, meta
    m = meta.META[prop]
    if runs is None:
        runs = m['quick' if tier == 'quick' else 'thorough']
    if budget is None:
        budget = 300 if tier == 'quick' else 3000
    t0 = time.time()
    plans = [scenario.make_plan(prop, run_seed(seed, i), tier)
             for i in range(runs)]
    if m.get('pairs'):
        # every plan runs twice, under different hash seeds
        plans = [p for p in plans[:(runs + 1) // 2] for _ in (0, 1)]
    jobs = [{'plan': p, 'script': None, 'limit': 60, 'id': i}
            for i, p in enumerate(plans)]
    facts = {}
    pool = Pool([hash_seed(seed, k) for k in range(workers)])
    known = known_findings()
    tot = {'runs': 0, 'evals': 0, 'lines': 0, 'switches': 0, 'simtime': 0.0,
           'steps': 0}
    faults, probes, seen, scheds, samples = {}, {}, set(), set(), []
    bad, errors, hits = [], [], {}
    stopped = False

    def stop():
        return bool(bad) or len(errors) > 3 or time.time() - t0 > budget
    for i, r in pool.map(jobs, stop=stop, bound=True):
        if r.get('hang'):
            # slow machine or real hang?  Decide with a generous limit.
            w = Worker(r['hashseed'])
            r = w.run(dict(jobs[i], limit=240))
            w.close()
        if r.get('error'):
            errors.append((i, r['error']))
            continue
        tot['runs'] += 1
        for k in ('evals', 'lines', 'switches', 'simtime', 'steps'):
            tot[k] += r.get(k, 0)
        for k, v in r.get('faults', {}).items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + v
        seen.update(r.get('seen', ()))
        if r.get('sched'):
            scheds.add(r['sched'])
        if len(samples) < 4:
            samples += [{'seed': plans[i]['seed'], 'case': s}
                        for s in r.get('samples', ())[:1]]
        if m.get('pairs') and not r.get('violation'):
            s = plans[i]['seed']
            if s in facts and facts[s][0] != r.get('facts'):
                r['violation'] = {
                    'kind': 'result depends on the hash seed',
                    'detail': 'hash seed %s: %s\nhash seed %s: %s' % (
                        facts[s][1], facts[s][0], r['hashseed'],
                        r.get('facts'))}
                r['other'] = facts[s]
            facts[s] = (r.get('facts'), r['hashseed'])
        if r.get('violation'):
            k = match_known(prop, r['violation'], known)
            if k is not None:
                hits[k['id']] = hits.get(k['id'], 0) + 1
            else:
                bad.append((i, r))
    pool.close()
    explore_s = time.time() - t0
    # determinism: the same runs once more on freshly started workers
    redo = 0
    drift = []
    if not bad and not errors:
        n = min(16, len(jobs))
        pool = Pool([hash_seed(seed, k) for k in range(workers)])
        one = {}
        for i, r in pool.map(jobs[:n], bound=True):
            one[i] = r.get('digest')
        for i, r in pool.map(jobs[:n], bound=True):
            redo += 1
            if one.get(i) != r.get('digest'):
                drift.append(plans[i]['seed'])
        pool.close()
    rc = 0
    n_viol = 0
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s (seen %d times in this run)'
                  % (prop, k['what'], hits.get(k['id'], 0)))
    if bad:
        bad.sort(key=lambda x: x[0])
        i, r = bad[0]
        n_viol = len(bad)
        print('seed %s: %s\n%s' % (plans[i]['seed'], r['violation']['kind'],
                                   r['violation']['detail'][:1500]))
        if 'other' in r:
            plan, script, res, tries = plans[i], dict(r['deviations']), r, 0
        else:
            plan, script, res, ok, tries = minimise(
                plans[i], r, 45 if tier == 'quick' else 120)
        res['hashseed'] = r['hashseed']
        path = write_replay(prop, plan, script, res)
        doc, again = replay(path, 2)
        exact = all(a.get('digest') == doc['digest'] and
                    same(a, doc['violation']['kind']) for a in again)
        print('minimised with %d runs to %d operations and %d decisions; '
              'replay %s' % (tries, len(plan.get('ops', ())), len(script),
                             'reproduces exactly' if exact else
                             'does not reproduce exactly'))
        print('violation: %s\n%s' % (res['violation']['kind'],
                                     res['violation']['detail'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    elif errors:
        print('HARNESS-ERROR property=%s run %s\n%s'
              % (prop, errors[0][0], errors[0][1]))
        rc = 2
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'wall_s': round(wall, 2), 'violations': n_viol,
        'assumptions': m['assumptions'],
        'coverage': {
            'evaluations': tot['evals'],
            'distinct_nontrivial': len(seen),
            'rule': m['rule'],
            'samples': samples,
            'simulated_runs': tot['runs'],
            'runs_per_hour': int(tot['runs'] * 3600 / max(explore_s, 0.01)),
            'seeds': [run_seed(seed, 0), run_seed(seed, max(0, runs - 1))],
            'simulated_seconds': round(tot['simtime'], 1),
            'faults_injected': faults,
            'probes': probes,
            'distinct_schedules': len(scheds),
            'distinct_schedules_measure':
                'distinct hashes of the sequence of task switches of a run',
            'context_switches': tot['switches'],
            'scheduler_steps': tot['steps'],
            'source_lines_executed_under_simulator': tot['lines'],
            'determinism': {'runs_repeated': redo, 'digest_mismatches': drift},
            'hash_seeds': workers,
            'real_components': m['real'],
            'stub_components': m['stub'],
            'known_findings_seen': hits,
        },
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=False)
    if not quiet:
        print('%s %s seed=%d: %d runs, %d evaluations, %d distinct, '
              'faults %s, %.1f s, rc=%d'
              % (prop, tier, seed, tot['runs'], tot['evals'], len(seen),
                 json.dumps(faults, sort_keys=True), wall, rc))
        print('probes', json.dumps(probes, sort_keys=True))
        if drift:
            print('WARNING: digests differ on repetition: %s' % drift)
    return rc
