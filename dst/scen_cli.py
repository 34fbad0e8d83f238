"""C16, C17: running-config differences against a simulated CLI device.

The device is a task that serves sessions; clients read printouts and send
command lines; an operator changes the configuration in between; sessions are
cut at any line."""
import random

from . import cli


def plan(prop, r, tier):
    cfg = {
        'width': r.choice((2, 3, 5, 8)), 'depth': r.choice((0, 1, 2, 2, 3, 4)),
        'iw': r.choice((1, 1, 4)), 'modes': r.random() < 0.5,
        'density': r.choice((50, 70, 90)), 'maxlist': r.choice((1, 2, 3, 5)),
        'preempt': r.choice((0, 0, 10, 60)) if prop == 'C16' else 0,
        'plain': r.random() < 0.15, 'refs': r.random() < 0.5,
    }
    if cfg['depth'] > 2:
        cfg['width'] = min(cfg['width'], 4)
        cfg['maxlist'] = min(cfg['maxlist'], 3)
    if cfg['preempt']:
        cfg.update(width=r.choice((3, 4)), depth=r.choice((0, 1, 2)),
                   maxlist=3)
    ops = []
    if prop == 'C16':
        for _ in range(r.randrange(3, 9)):
            ops.append({'k': r.choice(('same', 'same', 'near', 'near', 'other',
                                       'back', 'threads')),
                        's': r.randrange(1 << 30)})
    else:
        cfg['cut'] = r.choice((0, 0.1, 0.3))
        cfg['operator'] = r.choice((0, 0, 0.1, 0.3))
        cfg['flaky'] = r.choice((0, 0, 0.1))
        for _ in range(r.randrange(2, 6)):
            ops.append({'k': r.choice(('go', 'go', 'go', 'reverse', 'loop')),
                        's': r.randrange(1 << 30)})
    return {'cfg': cfg, 'ops': ops}


def net_lines(diff, where=(), sign=''):
    """Lines the difference says are added (+1) and removed (-1)."""
    out = {}

    def put(p, n):
        out[p] = out.get(p, 0) + n
        if not out[p]:
            del out[p]

    def walk(items, where, sign):
        for k, v, i in items or []:
            s = sign or i
            p = where + (k,)
            if s == '+':
                put(p, 1)
            elif s == '-':
                put(p, -1)
            if v is not None:
                walk(v, p, s)
    walk(diff, where, sign)
    return out


def text_lines(text):
    """The same from the printed difference."""
    out = {}
    stack = []
    for line in text.splitlines():
        sign, body = line[0], line[1:]
        ind = len(body) - len(body.lstrip(' '))
        while stack and stack[-1][0] >= ind:
            stack.pop()
        stack.append((ind, body.strip()))
        p = tuple(x[1] for x in stack)
        n = {'+': 1, '-': -1}.get(sign, 0)
        if n:
            out[p] = out.get(p, 0) + n
            if not out[p]:
                del out[p]
    return out


def expected(g, a, b):
    out = {}
    for n, st in ((-1, a), (1, b)):
        for p in cli.paths(g.top, st):
            p = tuple(norm(x) for x in p)
            out[p] = out.get(p, 0) + n
            if not out[p]:
                del out[p]
    return out


def norm(line):
    return 'exit' if line in ('exit-router-lisp', 'exit-locator-set') \
        else line


class World:
    def __init__(self, run):
        self.run = run
        self.sim = run.sim
        cfg = run.cfg
        self.cfg = cfg
        self.g = cli.Grammar(run.rng('grammar'), cfg)
        self.c = cli.Conf(self.g, run.rng('conf'), cfg['density'] / 100.0,
                          cfg['maxlist'])
        self.dev = cli.Device(self.g, cfg['modes'])
        self.n = 0

    def pick(self, label, n):
        if self.cfg['plain'] or n < 2:
            return 0
        return self.sim.choose('p.' + label, n, p=0.5)

    def show(self, st=None):
        self.sim.yield_point('show')
        return cli.Printer(self.pick, self.cfg).text(
            self.g.top, self.dev.st if st is None else st)

    def canon(self, st):
        return cli.canon(self.g.top, st)


def run(run):
    w = World(run)
    if run.plan['prop'] == 'C16':
        history(run, w)
    else:
        deploy(run, w)


# ---------------------------------------------------------------- C16
def history(run, w):
    from ncdiff import RunningConfigDiff
    st = w.c.state()
    seen = [(cli.clone(st), w.show(st))]
    for op in run.plan['ops']:
        r = random.Random('op/%s' % op['s'])
        w.c.r = r
        run.sim.note('do', op['k'], op['s'])
        k = op['k']
        if k in ('near', 'threads'):
            st = w.c.mutate(st)
        elif k == 'other':
            st = w.c.state()
        elif k == 'back':
            st = cli.clone(r.choice(seen)[0])
        text = w.show(st)
        prev = seen[-1] if r.random() < 0.6 else r.choice(seen)
        compare(run, w, prev, (st, text), RunningConfigDiff, r,
                k == 'threads')
        seen.append((cli.clone(st), text))


def answers(d, which):
    if which == 'bool':
        return bool(d)
    if which == 'str':
        return str(d)
    if which == 'diff':
        return repr(d.diff)
    if which == 'rev':
        return repr(d.diff_reverse)
    if which == 'cli':
        return d.cli
    return d.cli_reverse


def compare(run, w, a, b, cls, r, threads):
    same = w.canon(a[0]) == w.canon(b[0])
    info = lambda: '--- first\n%s\n--- second\n%s\n--- difference\n%s' % (
        a[1], b[1], cls(a[1], b[1]))
    d = cls(a[1], b[1])
    if threads:
        # several threads ask one object for the first time
        asks = [r.choice(('bool', 'str', 'diff', 'rev', 'cli', 'clir'))
                for _ in range(r.randrange(2, 5))]
        got = {}

        def work(i):
            got[i] = answers(d, asks[i])
        ts = [run.sim.spawn(work, (i,), 'ask%d' % i)
              for i in range(len(asks))]
        for t in ts:
            run.sim.join(t)
            if t.exc is not None:
                raise t.exc
        for i, q in enumerate(asks):
            run.check(got[i] == answers(cls(a[1], b[1]), q),
                      'threads get another answer',
                      lambda: '%s of\n%s\n%r' % (q, info(), got[i]))
    run.saw(w.canon(a[0]), w.canon(b[0]))
    if same:
        run.probe('same_state')
        run.check(not d, 'equivalent printouts differ', info)
        run.check(d.diff is None and d.diff_reverse is None and
                  d.cli == '' and d.cli_reverse == '' and str(d) == '',
                  'equivalent printouts give commands', info)
        return
    run.probe('changed_state')
    run.check(bool(d), 'changed configuration gives no difference', info)
    want = expected(w.g, a[0], b[0])
    for name, got, exp in (
            ('difference', net_lines(d.diff), want),
            ('reverse difference', net_lines(d.diff_reverse),
             {k: -v for k, v in want.items()}),
            ('printed difference', text_lines(str(d)), want)):
        run.check(got == exp, name + ' shows other lines',
                  lambda: '%s\nshown but not so: %s\nnot shown: %s' % (
                      info(),
                      {k: v for k, v in got.items() if exp.get(k) != v},
                      {k: v for k, v in exp.items() if got.get(k) != v}))
    run.check((cls(a[1], b[1]) == d) is True, 'a difference differs from '
              'itself', info)
    run.check((d == cls(a[1], a[1])) is False, 'equal to no difference', info)


# ---------------------------------------------------------------- C17
class Cut(Exception):
    pass


class Session:
    """A CLI session that may be cut at any line."""

    def __init__(self, w, quiet=False):
        self.w = w
        self.quiet = quiet
        w.dev.session()
        w.dev.stack[0] = (-1, w.g.top, w.dev.st)

    def show(self):
        w = self.w
        t = w.show()
        if not self.quiet and w.sim.flip('cutshow', w.cfg['cut'] / 4):
            w.sim.fault('read cut')
            raise Cut()
        return t

    def send(self, text):
        w = self.w
        for line in text.split('\n'):
            if not self.quiet and w.sim.flip('cut', w.cfg['cut'] / 4):
                w.sim.fault('session cut')
                raise Cut()
            w.sim.yield_point('line')
            if not self.quiet and w.sim.flip('flaky', w.cfg['flaky'] / 2):
                # refused for now: the rest of the section is not entered
                w.sim.fault('line refused')
                raise Cut()
            w.dev.enter(line)
            w.sim.note('line', line)
            if not self.quiet and w.sim.flip('cutafter', w.cfg['cut'] / 4):
                w.sim.fault('session cut after line')
                raise Cut()


def deploy(run, w):
    from ncdiff import RunningConfigDiff
    def sort(st):
        return cli.by_order(w.g.top, w.g.resolve(st, w.c.r))
    w.dev.st = sort(w.c.state())
    for op in run.plan['ops']:
        r = random.Random('op/%s' % op['s'])
        w.c.r = r
        run.sim.note('do', op['k'], op['s'])
        now = cli.clone(w.dev.st)
        goal = sort(w.c.state() if r.random() < 0.3 else
                    w.c.mutate(w.dev.st))
        gtext = w.show(goal)
        k = op['k']
        if k == 'loop':
            loop(run, w, goal, gtext, r, RunningConfigDiff)
            continue
        # undisturbed: the commands do what they say
        text = w.show()
        d = RunningConfigDiff(text, gtext)
        send(run, w, d.cli)
        check(run, w, d, d.cli, now, goal, 'the commands', text, gtext)
        if k == 'reverse':
            send(run, w, d.cli_reverse)
            check(run, w, d, d.cli_reverse, goal, now,
                  'the reverse commands', gtext, text)


def send(run, w, text):
    w.dev.rejected = 0
    Session(w, True).send(text)


def check(run, w, d, cmds, now, goal, what, t1, t2):
    w.dev.st = cli.by_order(w.g.top, w.dev.st)
    run.saw(what, w.canon(now), w.canon(goal))
    run.probe('with references', sum(1 for _ in w.g.refs(goal)) > 0)
    run.check(not w.dev.rejected, what + ' are refused',
              lambda: '--- from\n%s\n--- to\n%s\n--- commands\n%s' % (
                  t1, t2, cmds))
    run.check(w.canon(w.dev.st) == w.canon(goal),
              what + ' miss the target',
              lambda: 'too much: %s\nmissing: %s\n--- from\n%s\n--- to\n%s'
              '\n--- commands\n%s\n--- result\n%s' % (
                  minus(w.g, w.dev.st, goal), minus(w.g, goal, w.dev.st),
                  t1, t2, cmds, cli.Printer(lambda l, n: 0, {'iw': 1}).text(
                      w.g.top, w.dev.st)))


def minus(g, a, b):
    b = cli.paths(g.top, b)
    return [p for p in cli.paths(g.top, a) if p not in b]


def loop(run, w, goal, gtext, r, cls):
    """Reconciliation with faults; then a bounded number of rounds."""
    now = cli.clone(w.dev.st)

    def operator():
        for _ in range(3):
            run.sim.sleep(0.01)
            if run.sim.flip('operator', w.cfg['operator']):
                run.sim.fault('operator change')
                w.dev.st = cli.by_order(w.g.top, w.g.resolve(
                    w.c.mutate(w.dev.st), w.c.r))
                w.dev.session()
                w.dev.stack[0] = (-1, w.g.top, w.dev.st)
                dead.append(1)
    dead = []
    for rnd in range(4):
        try:
            s = Session(w)
            d = cls(s.show(), w.show(goal))
            n = len(dead)
            operator() if w.cfg['operator'] else None
            if len(dead) > n:
                raise Cut()
            s.send(d.cli)
            w.dev.st = cli.by_order(w.g.top, w.dev.st)
        except Cut:
            w.dev.st = cli.by_order(w.g.top, w.dev.st)
            run.probe('cut')
    before = cli.clone(w.dev.st)
    s = Session(w, True)
    w.dev.rejected = 0
    t = s.show()
    d = cls(t, gtext)
    s.send(d.cli)
    check(run, w, d, d.cli, before, goal, 'the commands after faults', t,
          gtext)
    d = cls(w.show(), w.show(goal))
    run.check(not d and d.cli == '', 'not settled',
              lambda: d.cli)
