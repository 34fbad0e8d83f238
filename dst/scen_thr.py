"""C19: threads that share one loaded device get the results of a sequential
run. Snapshots and differences are shared and made by whichever thread needs
them first, so that the caches of the device are cold when threads meet."""
import random

from lxml import etree

from . import prog
from . import net
from .world import World, base_cfg, options

SHARED = ['dnc', 'dneg', 'dadd', 'dsrc', 'dcmp', 'dtext']


def plan(prop, r, tier):
    cfg = base_cfg(r, tier, candidate=True)
    cfg['gen'].update(iid=True, depth=r.choice((1, 2, 2, 3)))
    cfg['preempt'] = r.choice((5, 10, 20, 60, 200, 600))
    cfg['density'] = r.choice((50, 70, 90))
    cfg['maxlist'] = r.choice((2, 3))
    cfg['inputs'] = r.choice((1, 2, 3))
    n = r.choice((2, 2, 3, 4))
    ops = []
    # often the same work at the same time
    common = [r.choice(prog.KINDS + SHARED * 2) for _ in range(3)]
    for t in range(n):
        for _ in range(r.randrange(2, 6)):
            k = r.choice(common) if r.random() < 0.5 else \
                r.choice(prog.KINDS + SHARED * 3 + ['read', 'edit'] * 2)
            ops.append({'t': t, 'k': k, 's': r.choice(
                (r.randrange(3), r.randrange(1 << 30)))})
    return {'cfg': cfg, 'ops': ops}


class Shared:
    """Inputs of all threads, made on first use."""

    def __init__(self, run, m, ctx):
        self.run, self.m, self.ctx = run, m, ctx
        self.made = {}

    def __len__(self):
        return len(self.ctx.texts)

    def __getitem__(self, i):
        from ncdiff import Config
        if i not in self.made:
            c = Config(self.m, self.ctx.texts[i])
            self.made.setdefault(i, c)
        return self.made[i]

    def delta(self, s):
        from ncdiff import ConfigDelta
        if ('d', s) not in self.made:
            r = random.Random('delta/%s' % s)
            a, b = r.randrange(len(self)), r.randrange(len(self))
            d = ConfigDelta(self[a], self[b], **options(r))
            self.made.setdefault(('d', s), d)
        return self.made[('d', s)]


def step(run, w, m, sh, op):
    """Result of one step; independent of the other steps."""
    k, s = op['k'], op['s']
    r = random.Random('step/%s' % s)
    if k == 'read':
        with_c = w.with_config
        rep = m.get(models=with_c) if r.random() < 0.5 else \
            m.get_config(models=r.sample(with_c, 1))
        c = m.extract_config(rep)
        return prog.canon(c.ele) + repr(sorted(set(rep.ns.values())))
    if k == 'edit':
        try:
            m.edit_config(sh.delta(s % 3).nc, target='candidate')
        except Exception as e:
            # accepted or not: depends on the edits of the others
            if type(e).__name__ != 'RPCError':
                return 'raised ' + type(e).__name__ + str(e)
        return 'sent'
    if k in SHARED:
        d = sh.delta(s % 3)
        a = sh[r.randrange(len(sh))]
        try:
            if k == 'dnc':
                return prog.canon(d.nc)
            if k == 'dneg':
                return prog.canon((-d).nc)
            if k == 'dadd':
                return prog.canon((a + d).ele)
            if k == 'dsrc':
                return prog.canon((d.config_src + d).ele) + repr(
                    d.config_src + d == d.config_dst)
            if k == 'dcmp':
                e = -d
                return repr((d == e, d <= e, d >= e, bool(d)))
            if k == 'dtext':
                return prog.canon(etree.fromstring(str(d))) if \
                    str(d).strip() else str(d)
        except Exception as e:
            return 'raised ' + type(e).__name__
    return prog.compute(m, sh.ctx, sh, op)


def run(run):
    w = World(run)
    ctx = prog.Ctx(w.schema, run.rng('ctx'), run.cfg['density'] / 100.0,
                   run.cfg['maxlist'], run.cfg['inputs'])
    w.dev.set_state(ctx.states[0])
    w.dev.quiet = True
    w.dev.render = False
    w.dev.fixed_ro = run.plan['seed']
    n = 1 + max(op['t'] for op in run.plan['ops']) if run.plan['ops'] else 0
    parts = [[op for op in run.plan['ops'] if op['t'] == t]
             for t in range(n)]
    m = w.connect()
    sh = Shared(run, m, ctx)
    got = [[] for _ in parts]

    def work(t):
        for op in parts[t]:
            run.sim.note('do', t, op['k'], op['s'])
            got[t].append(step(run, w, m, sh, op))
    n0 = len(w.dev.history)
    ts = [run.sim.spawn(work, (t,), 'thread%d' % t) for t in range(n)]
    for t in ts:
        run.sim.join(t)
    for t in ts:
        if t.exc is not None:
            raise t.exc
    sent = sorted(prog.canon(etree.fromstring(x['config']))
                  for x in w.dev.history[n0:])
    # the same steps one after the other on a fresh client
    run.sim.nopreempt += 1
    try:
        m2 = w.connect()
        n0 = len(w.dev.history)
        for t, part in enumerate(parts):
            for i, op in enumerate(part):
                sh2 = Shared(run, m2, ctx)
                want = step(run, w, m2, sh2, op)
                run.saw(op['k'], want)
                run.check(
                    got[t][i] == want, 'concurrent result differs',
                    lambda: 'thread %d step %s/%s:\n%s\nalone:\n%s'
                    % (t, op['k'], op['s'], cut(got[t][i], want),
                       cut(want, got[t][i])))
        sent2 = sorted(prog.canon(etree.fromstring(x['config']))
                       for x in w.dev.history[n0:])
        run.check(sent == sent2, 'edits sent differ',
                  lambda: '%s\nalone:\n%s' % (sent, sent2))
    finally:
        run.sim.nopreempt -= 1


def cut(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '...' + a[max(0, i - 300):i + 300]
