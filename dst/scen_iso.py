"""C14: devices used side by side in one process do not affect each other.

Each device has a client program; the programs run interleaved in one process
and, for comparison, each alone in a process of its own."""
import copy
import os
import random

from lxml import etree

from . import core
from . import device as D
from . import disk
from . import net
from . import prog
from . import schema as S
from .scen_compat import mutated
from .scen_scan import tree_text
from .world import options, transport_failure


def plan(prop, r, tier):
    n = r.choice((2, 2, 3))
    cfg = {
        'gen': {'status': False, 'iid': True, 'leafref': True,
                'deftype': r.random() < 0.5,
                'depth': r.choice((1, 2, 2)),
                'modules': r.choice((1, 2, 3)), 'width': r.choice((3, 4))},
        'density': r.choice((50, 70, 90)), 'maxlist': 3,
        'threads': r.random() < 0.5,
        'relation': [r.choice(('release', 'release', 'clash', 'other',
                               'same', 'prefix')) for _ in range(n)],
    }
    cfg['preempt'] = r.choice((10, 40, 120, 400)) if cfg['threads'] else 0
    ops = []
    for d in range(n):
        k = r.randrange(4, 10)
        ops.append({'d': d, 'k': 'start', 's': r.randrange(1 << 30)})
        for _ in range(k):
            ops.append({'d': d, 'k': r.choice(
                prog.KINDS + prog.NETKINDS * 2 + ['reload', 'rescan']),
                's': r.randrange(1 << 30)})
    return {'cfg': cfg, 'ops': ops, 'twins': n,
            'mix': r.randrange(1 << 30)}


def schemas(run):
    """Related schemas of the devices."""
    base = S.Gen(run.rng('schema'), run.cfg['gen']).schema()
    out = []
    for i, rel in enumerate(run.cfg['relation']):
        r = run.rng('rel/%d' % i)
        if i == 0 or rel == 'same':
            s = copy.deepcopy(base)
        elif rel == 'prefix':
            # other prefixes for the same namespaces
            s = copy.deepcopy(base)
            new = ['x%d' % k for k in range(len(s.modules))]
            if r.random() < 0.5:
                new = [m.prefix for m in s.modules[1:] + s.modules[:1]]
            for m, p in zip(s.modules, new):
                if p not in m.imports.values():
                    m.prefix = p
            if len({m.prefix for m in s.modules}) < len(s.modules):
                for k, m in enumerate(s.modules):
                    m.prefix = 'x%d' % k
        elif rel == 'release':
            s = base
            for _ in range(r.randrange(1, 6)):
                s, _x = mutated(s, r)
        else:
            s = S.Gen(run.rng('schema/%d' % i), run.cfg['gen']).schema()
            if rel == 'clash':
                # the prefixes of the first device for other namespaces
                for m, b in zip(s.modules, base.modules):
                    if b.prefix not in m.imports.values() and \
                            b.prefix not in [x.prefix for x in s.modules]:
                        m.prefix = b.prefix
        out.append(s)
    return out


class Client:
    def __init__(self, run, d, schema):
        self.run = run
        self.d = d
        self.schema = schema
        self.dev = D.SimDevice(run.sim, schema, rng=run.rng('ro/%d' % d),
                               name='dev%d' % d)
        self.dev.quiet = True
        self.step = 0
        self.count = {}
        self.dev.pick = self.pick
        self.ctx = prog.Ctx(schema, run.rng('ctx/%d' % d),
                            run.cfg['density'] / 100.0, run.cfg['maxlist'])
        self.folder = os.path.join(run.tmp, 'dev%d' % d)
        self.m = None
        self.out = []

    def pick(self, label, n):
        """Rendering decisions depend on the step only."""
        k = self.count.get((self.step, label), 0)
        self.count[(self.step, label)] = k + 1
        return random.Random('%s/%s/%s/%s/%s' % (
            self.run.plan['seed'], self.d, self.step, label, k)).randrange(n)

    def do(self, op):
        self.step = op['s']
        self.run.sim.note('do', self.d, op['k'], op['s'])
        t = self.go(op)
        self.out.append([op['k'], op['s'], t])

    def go(self, op):
        r = random.Random('op/%s' % op['s'])
        k = op['k']
        names = [m.name for m in self.schema.modules]
        if k == 'start':
            self.dev.set_state(self.ctx.states[0])
            self.m = net.connect(self.run.sim, self.dev, timeout=60)
            self.m.scan_models(folder=self.folder)
            order = list(names)
            r.shuffle(order)
            t = [tree_text(self.m.load_model(n)) for n in order]
            self.cfgs = prog.configs(self.m, self.ctx)
            return repr(t) + repr(sorted(self.m.namespaces))
        if self.m is None:
            return 'not started'
        m = self.m
        if k == 'reload':
            return tree_text(m.load_model(r.choice(names)))
        if k == 'rescan':
            m.scan_models(folder=self.folder,
                          download=r.choice(('check', 'ignore', 'force')))
            return tree_text(m.load_model(r.choice(names))) + \
                repr(sorted(m.namespaces))
        if k == 'read':
            models = self.ctx.with_config
            rep = m.get(models=models) if r.random() < 0.5 else \
                m.get_config(models=r.sample(models, 1))
            c = m.extract_config(rep)
            self.cfgs.append(c)
            return prog.canon(c.ele) + repr(sorted(rep.ns.items()))
        if k == 'refuse':
            try:
                m.get_config(models='no-such-model')
            except Exception as e:
                return type(e).__name__
            return 'accepted'
        if k == 'edit':
            from ncdiff import ConfigDelta
            cur = m.extract_config(m.get_config(
                models=self.ctx.with_config))
            dst = r.choice(self.cfgs)
            d = ConfigDelta(cur, dst, **options(r))
            n0 = len(self.dev.history)
            try:
                m.edit_config(d.nc)
                res = 'ok'
            except Exception as e:
                res = type(e).__name__
            h = self.dev.history[n0:]
            if h and h[-1]['target'] == 'candidate' and res == 'ok':
                m.commit()
            return res + repr([(x['target'], x['error'], prog.canon(
                etree.fromstring(x['config']))) for x in h]) + repr(self.dev.running)
        return prog.compute(m, self.ctx, self.cfgs, op)


def run(run):
    disk.use(disk.Disk(run.sim, run.tmp))
    try:
        st, val = run.sim.incarnation(lambda: client(run), 'client')
        if st == 'raised':
            raise val
    finally:
        disk.use(None)


def client(run):
    ss = schemas(run)
    only = run.plan.get('only')
    cs = {d: Client(run, d, s) for d, s in enumerate(ss)
          if only is None or d == only}
    todo = {d: [op for op in run.plan['ops'] if op['d'] == d] for d in cs}
    if run.cfg['threads']:
        def work(d):
            for op in todo[d]:
                cs[d].do(op)
        ts = [run.sim.spawn(work, (d,), 'client%d' % d) for d in cs]
        for t in ts:
            run.sim.join(t)
        for t in ts:
            if t.exc is not None:
                raise t.exc
    else:
        r = random.Random(run.plan['mix'])
        while any(todo.values()):
            d = r.choice([d for d in todo if todo[d]])
            cs[d].do(todo[d].pop(0))
    run.facts = [[list(o) for o in cs[d].out] if d in cs else None
                 for d in range(len(ss))]
    if only is not None:
        return
    for d in cs:
        alone = run.plan['expect'][d]
        for a, b in zip(alone, cs[d].out):
            run.saw(d, a[0], a[2])
            run.check(a == b, 'other devices change the result',
                      lambda: 'device %d (%s), step %s %s:\n%s\nalone:\n%s'
                      % (d, run.cfg['relation'], a[0], a[1],
                         delta(b[2], a[2]), delta(a[2], b[2])))
        run.check(len(alone) == len(cs[d].out), 'steps are missing', d)
    run.facts = None


def delta(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '...' + a[max(0, i - 300):i + 300]
