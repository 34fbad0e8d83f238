"""Configuration scenarios: snapshots, deltas, edits on one device whose
state, replies, session and other operators are simulated."""
import random

from lxml import etree

from . import core
from . import device as D
from . import schema as S
from .world import (World, Payload, NoPrefix, base_cfg, net_faults, options,
                    to_el, next_state, permute, pretty, show,
                    transport_failure, rpc_error)


def plan(prop, r, tier):
    n = r.randrange(3, 7) if tier == 'quick' else r.randrange(4, 14)
    cfg = base_cfg(r, tier)
    cfg['faults'] = net_faults(r)
    if prop in ('C05', 'C06', 'C22'):
        cfg['gen']['mandatory'] = r.random() < 0.4
    if prop == 'C06':
        cfg['gen']['status'] = True
        cfg['gen']['ro'] = True
    if prop == 'C04':
        cfg['threads'] = r.choice((0, 0, 2, 3))
        cfg['gen']['status'] = True
        if cfg['threads']:
            cfg['preempt'] = r.choice((40, 120, 400))
            cfg['faults'] = {}
        n *= 3
    kinds = KINDS[prop]
    ops = []
    for i in range(n):
        ops.append({'k': r.choice(kinds), 's': r.randrange(1 << 30)})
    return {'cfg': cfg, 'ops': ops}


KINDS = {
    'C01': ['edit'] * 8 + ['operator', 'restart'],
    'C02': ['stale', 'stale', 'payload', 'payload', 'payload', 'snapshot',
            'operator'],
    'C03': ['loop', 'loop', 'algebra', 'algebra', 'algebra'],
    'C04': ['read', 'text', 'binary', 'binary', 'binary', 'delta', 'delta',
            'apply', 'bad', 'send', 'inspect', 'wrap', 'payload'],
    'C05': ['pair'] * 5 + ['operator'],
    'C06': ['models', 'models', 'all', 'refuse', 'operator'],
    'C15': ['reorder'] * 5 + ['operator'],
    'C22': ['garble'] * 6 + ['operator', 'unloaded'],
}


def run(run):
    sim = run.sim
    status, val = sim.incarnation(lambda: client(run), 'client')
    if status == 'raised':
        raise val


def client(run):
    w = World(run)
    w.dev.running = w.st.state()
    w.dev.cand = S.clone(w.dev.running)
    w.connect()
    f = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05,
         'C06': c06, 'C15': c15, 'C22': c22}[run.plan['prop']]
    f(run, w)


def opr(run, op, tag=''):
    return run.rng('op/%s/%s' % (op['s'], tag))


# ----------------------------------------------------------------------- C01
def other_operator(run, w, op):
    r = opr(run, op, 'operator')
    w.st.r = r
    w.dev.set_state(w.st.mutate(w.dev.running))
    run.probe('operator_edit')


def make_dst(run, w, op, r, src_state, seen):
    """Destination snapshot by one of several routes."""
    dst = next_state(w, r, src_state, seen)
    x = r.random()
    if x < 0.6:
        c = w.config(dst, 'dst/%s' % op['s'])
    elif x < 0.8:
        c = w.config(dst)
    else:
        # the device once was in that state
        keep, kc = w.dev.running, w.dev.cand
        q, w.dev.quiet = w.dev.quiet, True
        w.dev.set_state(dst)
        c, _ = w.read('get')
        w.dev.running, w.dev.cand = keep, kc
        w.dev.quiet = q
    return c, S.canon(w.schema, dst)


def c01(run, w):
    from ncdiff import ConfigDelta
    seen = []
    for op in run.plan['ops']:
        r = opr(run, op)
        if op['k'] == 'operator':
            other_operator(run, w, op)
            continue
        if op['k'] == 'restart':
            w.dev.drop_all()
            run.sim.fault('device_restart')
            w.sim.sleep(1)
            w.recover()
            continue
        w.recover()
        w.discard()
        src, s_state = w.read(r.choice(('get', 'get-config')))
        seen.append(s_state)
        dst, d_state = make_dst(run, w, op, r, s_state, seen)
        if r.random() < 0.12:
            other_operator(run, w, op)
        opts = options(r)
        # the same delta in other styles, applied by a twin of the device
        for i in range(3):
            o2 = options(r)
            twin(run, w, src, dst, s_state, d_state, o2)
        delta = ConfigDelta(src, dst, **opts)
        nc = delta.nc
        n0 = len(w.dev.history)
        for k in range(3):
            ent, outcome, err = w.send(nc)
            if outcome != 'lost' or r.random() < 0.5:
                break
            run.probe('resend')
        for ent in w.dev.history[n0:]:
            if ent['before'] != s_state:
                run.probe('landed_elsewhere')
                continue
            run.saw('landed', w.schema.modules[0].ns, s_state, d_state,
                    sorted(opts.items()))
            judge_edit(run, ent['error'], ent.get('info'), ent['after'],
                       s_state, d_state, opts, ent['config'])
        if outcome == 'rejected' and ent is not None and \
                ent['before'] != s_state:
            run.probe('stale_rejected')


def twin(run, w, src, dst, s_state, d_state, opts):
    from ncdiff import ConfigDelta
    nc = ConfigDelta(src, dst, **opts).nc
    err = info = after = None
    try:
        after = D.edit(w.schema, s_state, to_el(nc))
    except D.RpcError as e:
        err, info = e.tag, e.info
    except D.BadData as e:
        err, info = 'bad-data', str(e)
    run.saw('twin', s_state, d_state, sorted(opts.items()))
    judge_edit(run, err, info, after, s_state, d_state, opts,
               etree.tostring(nc))
    again(run, w, nc, s_state, d_state, opts)


def instances(kids, st, path=()):
    """Identities of the nodes of a state that can be created and deleted
    on their own."""
    for n in kids:
        if n.q not in st:
            continue
        v = st[n.q]
        if n.default is not None:
            continue                # may be taken as there already
        if n.kind == 'leaf':
            if not S.is_key(n):
                yield path + (n.q,)
        elif n.kind == 'leaf-list':
            for x in v:
                yield path + (n.q, str(x))
        elif n.kind == 'container':
            if n.presence:
                yield path + (n.q,)
            yield from instances(n.data_children(), v, path + (n.q,))
        else:
            for e in v:
                p = path + (n.q, S.keyof(n, e))
                yield p
                yield from instances(n.data_children(), e, p)


def again(run, w, nc, s_state, d_state, opts):
    """A request that is delivered twice: merge, replace and remove do not
    mind, create and delete do."""
    if opts.get('diff_type') is None:
        used = {e.get(D.OP) for e in nc.iter()} - {None, 'merge'}
        run.check(used <= set(opts.values()), 'another operation than those '
                  'preferred', lambda: '%s used\n%s\nsource %s\n'
                  'destination %s\nedit\n%s' % (
                      sorted(used), sorted(opts.items()), show(s_state),
                      show(d_state), pretty(nc)))
    src = set(instances(w.schema.roots, s_state))
    dst = set(instances(w.schema.roots, d_state))
    after = err = None
    try:
        after = D.edit(w.schema, d_state, to_el(nc))
    except D.RpcError as e:
        err = e
    if opts['preferred_create'] != 'create' and \
            opts['preferred_delete'] != 'delete':
        run.probe('repeatable')
        if err is not None or after != d_state:
            judge_edit(run, err and err.tag, err and err.info, after,
                       d_state, d_state, opts, etree.tostring(nc))
    elif opts.get('diff_type') is None and \
            opts['preferred_replace'] == 'merge' and (
            opts['preferred_create'] == 'create' and dst - src or
            opts['preferred_delete'] == 'delete' and
            src and not d_state):
        run.probe('not_repeatable')
        run.check(err is not None and err.tag in (
            'data-exists', 'data-missing'), 'preferred operation not used',
            lambda: '%s\nsource %s\ndestination %s\nedit\n%s' % (
                sorted(opts.items()), show(s_state), show(d_state),
                pretty(nc)))


def judge_edit(run, err, info, after, s_state, d_state, opts, payload):
    def detail(extra):
        el = etree.fromstring(payload)
        return '%s\noptions %s\nsource %s\ndestination %s\nedit\n%s' % (
            extra, sorted(opts.items()), show(s_state), show(d_state),
            pretty(el))
    if err is not None:
        run.fail('delta rejected', detail('%s %s' % (err, info)))
    if after != d_state:
        run.fail('delta lands elsewhere', detail('result %s' % show(after)))
    run.sample('%s: %s -> %s' % (sorted(opts.items()), show(s_state)[:200],
                                 show(d_state)[:200]))


# ----------------------------------------------------------------------- C02
def c02(run, w):
    from ncdiff import ConfigDelta
    deltas = []
    seen = []
    for op in run.plan['ops']:
        r = opr(run, op)
        w.st.r = r
        if op['k'] == 'operator':
            other_operator(run, w, op)
            continue
        w.recover()
        w.discard()
        snap, state = w.read(r.choice(('get', 'get-config')))
        seen.append(state)
        if op['k'] == 'stale':
            # a delta computed against some other state
            base = next_state(w, r, state, seen) if r.random() < 0.6 \
                else state
            dst = next_state(w, r, base, seen)
            o = options(r)
            delta = ConfigDelta(w.config(base, 'b/%s' % op['s']),
                                w.config(dst, 'd/%s' % op['s']), **o)
            payload = delta.nc
            arg = delta if r.random() < 0.5 else payload
            what = 'delta %s' % sorted(o.items())
        elif op['k'] == 'payload':
            try:
                payload = Payload(w, r, state).build()
            except NoPrefix:
                continue
            arg = payload
            what = 'payload'
        else:
            dst = next_state(w, r, state, seen)
            arg = w.config(dst, 's/%s' % op['s'])
            payload = arg.ele
            what = 'snapshot'
        # other operators may act before the edit lands: predict at the
        # state where it really lands
        if r.random() < 0.3:
            other_operator(run, w, op)
        ent, outcome, err = w.send(payload)
        if ent is None:
            run.probe('edit_not_executed')
            predict(run, w, snap, state, arg, payload, what)
            continue
        landed = ent['before']
        at = w.config(landed, 'at/%s' % op['s'])
        predict(run, w, at, landed, arg, payload, what,
                (ent['error'], ent.get('info'), ent['after']))
        if landed != state:
            run.probe('landed_elsewhere')
            predict(run, w, snap, state, arg, payload, what)


def predict(run, w, snap, state, arg, payload, what, real=None):
    from ncdiff.errors import ConfigDeltaError
    if real is None:
        try:
            real = (None, None, D.edit(w.schema, state, to_el(payload)))
        except D.RpcError as e:
            real = (e.tag, e.info, None)
        except D.BadData as e:
            real = ('bad-data', str(e), None)
    err, info, after = real

    def detail(x):
        return '%s (%s)\ndevice: %s %s\nstate %s\nedit\n%s' % (
            x, what, err, info if err else show(after), show(state),
            pretty(to_el(payload)))
    run.saw('predict', state, etree.tostring(payload))
    try:
        got = snap + arg
    except ConfigDeltaError as e:
        run.probe('predicted_error')
        if err is None:
            run.fail('prediction refuses an accepted edit',
                     detail(str(e)[:300]))
        return
    if err in ('data-missing', 'data-exists', 'bad-attribute'):
        run.fail('prediction accepts a rejected edit',
                 lambda: detail('predicted ' + str(got)))
    if err is not None:
        run.probe('other_error_' + err)
        return
    try:
        gs = w.state_of(got)
    except D.BadData as e:
        run.fail('predicted snapshot is invalid',
                 detail('%s\n%s' % (e, got)))
    if gs != after:
        run.fail('prediction differs', detail('predicted %s' % show(gs)))
    run.sample('%s at %s' % (what, show(state)[:300]))


# ----------------------------------------------------------------------- C03
def c03(run, w):
    from ncdiff import ConfigDelta
    seen = []
    for op in run.plan['ops']:
        r = opr(run, op)
        w.st.r = r
        if op['k'] == 'algebra':
            a = next_state(w, r, w.dev.running, seen)
            b = next_state(w, r, a, seen)
            seen.append(a)
            ca = w.config(a, 'a/%s' % op['s'])
            cb = w.config(b, 'b/%s' % op['s'])
            algebra(run, w, r, ca, cb, a, b)
            continue
        goal = next_state(w, r, w.dev.running, seen)
        seen.append(goal)
        loop(run, w, op, r, goal)


def algebra(run, w, r, ca, cb, a, b):
    from ncdiff import ConfigDelta
    o = options(r)
    d = ConfigDelta(ca, cb, **o)
    run.saw('algebra', a, b, sorted(o.items()))

    def detail(x):
        return '%s\noptions %s\na %s\nb %s\ndelta %s' % (
            x, sorted(o.items()), show(a), show(b), d)
    if bool(d) != (a != b):
        run.fail('truth of difference', detail('bool is %s' % bool(d)))
    if bool(cb - ca) != (a != b):
        run.fail('truth of difference', detail('b - a'))

    def is_state(cfg, want, what):
        try:
            got = w.state_of(cfg)
        except D.BadData as e:
            run.fail(what, detail('%s %s' % (e, cfg)))
        if got != want:
            run.fail(what, detail('got %s' % show(got)))
    is_state(ca + d, b, 'src + delta')
    is_state(cb + (-d), a, 'dst + -delta')
    is_state(cb - d, a, 'dst - delta')
    is_state(d + ca, b, 'delta + src')
    if not ((ca + d) == cb):
        run.fail('src + delta == dst', detail(''))
    if ConfigDelta(ca):
        run.fail('difference to itself', detail(ConfigDelta(ca)))
    both = {n.q: n.mod.name for n in w.schema.roots if n.q in a or n.q in b}
    if d.roots != both or d.models != sorted(set(both.values())):
        run.fail('models of a difference', detail('%s %s' % (
            d.roots, d.models)))
    for k, v in (('preferred_create', 'delete'), ('preferred_delete', 'merge'),
                 ('preferred_replace', 'create'), ('random_depth', -1)):
        try:
            ConfigDelta(ca, cb, **dict(o, **{k: v}))
        except ValueError:
            continue
        run.fail('impossible option accepted', '%s=%s' % (k, v))
    # chain
    d2 = ConfigDelta(ca, delta=d.nc)
    is_state(d2.config_dst, b, 'delta from payload')


def loop(run, w, op, r, goal):
    """Reconcile under faults, then without."""
    def once():
        w.recover()
        w.discard()
        cur, state = w.read(r.choice(('get', 'get-config')))
        g = w.config(goal, 'goal/%s/%d' % (op['s'], w.dev.running != goal))
        d = g - cur
        run.saw('round', state, goal)
        empty = not d
        if empty != (state == goal):
            run.fail('truth of difference',
                     'empty=%s state %s goal %s' % (empty, show(state),
                                                    show(goal)))
        if empty:
            return 'done', None, None
        ent, outcome, err = w.send(d.nc)
        return outcome, d, ent
    for i in range(r.randrange(1, 4)):
        if r.random() < 0.25:
            other_operator(run, w, dict(op, s='%s.%d' % (op['s'], i)))
        x = once()
        run.probe('faulty_round_' + x[0])
    q, w.dev.quiet = w.dev.quiet, True
    try:
        a = once()
        b = once() if a[0] != 'done' else a
        if b[0] != 'done' or w.dev.running != goal:
            run.fail('no convergence',
                     'after two quiet rounds %s/%s\ngoal %s\nis   %s\n'
                     'first delta %s\ndevice said %s' % (
                         a[0], b[0], show(goal), show(w.dev.running), a[1],
                         (a[2]['error'], a[2].get('info'))
                         if a[2] else None))
    finally:
        w.dev.quiet = q


# ----------------------------------------------------------------------- C04
def content(el):
    """Content of a tree, independent of prefixes and layout."""
    def f(e):
        kids = tuple(f(c) for c in e if isinstance(c.tag, str))
        t = e.text
        if kids:
            t = None if t is None or not t.strip() else t
        elif t is not None and ':' in t:
            p, name = t.split(':', 1)
            if p in e.nsmap:
                t = '{%s}%s' % (e.nsmap[p], name)
        at = tuple(sorted(e.attrib.items()))
        return (e.tag, t or '', at, kids)
    return f(el)


class Pool:
    def __init__(self, run, w):
        self.run = run
        self.w = w
        self.items = []            # (name, getter, fingerprint)
        self.configs = []
        self.deltas = []
        self.payloads = []
        self.replies = []

    def add(self, name, getter):
        self.items.append((name, getter, getter()))

    def config(self, c, name):
        self.configs.append(c)
        self.add(name, lambda: content(c.ele))

    def delta(self, d, name):
        self.deltas.append(d)
        try:
            content(d.nc)
        except Exception:
            self.deltas.remove(d)
            return
        self.add(name + '.src', lambda: content(d.config_src.ele))
        self.add(name + '.dst', lambda: content(d.config_dst.ele))
        self.add(name + '.nc', lambda: content(d.nc))

    def payload(self, e, name):
        self.payloads.append(e)
        self.add(name, lambda: content(e))

    def reply(self, rep, name):
        self.replies.append(rep)
        self.add(name, lambda: content(rep._root))

    def schema(self, m):
        for n in sorted(m.models):
            self.add('schema %s' % n,
                     lambda n=n: etree.tostring(m.models[n].tree))

    def verify(self, after):
        sim = self.run.sim
        sim.nopreempt += 1
        try:
            for name, getter, want in self.items:
                got = getter()
                if got != want:
                    self.run.fail(
                        'changed by using it',
                        '%s changed after %s\nbefore %s\nafter  %s' % (
                            name, after, str(want)[:1200], str(got)[:1200]))
            self.run.saw('verified', len(self.items), after)
        finally:
            sim.nopreempt -= 1


def c04(run, w):
    pool = Pool(run, w)
    for i in range(3):
        r = run.rng('base/%d' % i)
        w.st.r = r
        st = next_state(w, r, w.dev.running, [])
        pool.config(w.config(st, 'base/%d' % i), 'snapshot%d' % i)
    pool.schema(w.m)
    ops = run.plan['ops']
    nt = run.cfg.get('threads', 0)
    if not nt:
        for i, op in enumerate(ops):
            w.recover()
            what = c04_op(run, w, pool, op, opr(run, op))
            pool.verify('%s %s' % (op['k'], what))
        return
    sim = run.sim

    def worker(k):
        for op in ops[k::nt]:
            if op['k'] in ('read', 'send', 'wrap'):
                op = dict(op, k='binary')
            c04_op(run, w, pool, op, opr(run, op))
    # warm base objects so that threads share something
    for i in range(2):
        o = {'k': 'delta', 's': 'warm%d' % i}
        c04_op(run, w, pool, o, opr(run, o))
    ts = [sim.spawn(lambda k=k: worker(k), name='user%d' % k)
          for k in range(nt)]
    for t in ts:
        sim.join(t)
        if t.exc is not None:
            raise t.exc
    pool.verify('%d threads: %s' % (nt, ' '.join(o['k'] for o in ops)))


EXPECTED = ('ConfigDeltaError', 'ConfigError', 'ModelMissing', 'TypeError',
            'ModelIncompatible', 'XPathEvalError')


def c04_op(run, w, pool, op, r):
    """One use of the objects; expected failures are part of it."""
    from ncdiff import ConfigDelta, Config
    k = op['k']
    a = r.choice(pool.configs)
    b = r.choice(pool.configs)
    name = '%s%s' % (k, str(op['s'])[:5])
    try:
        if k == 'read':
            def go():
                rep = w.m.get_config(models=w.with_config) \
                    if r.random() < 0.5 else w.m.get(models=w.with_config)
                pool.reply(rep, name + '.reply')
                return w.m.extract_config(
                    rep, remove_deprecated=r.random() < 0.5)
            pool.config(w.attempt(go), name)
        elif k == 'text':
            st = S.States(w.schema, r).state()
            pool.config(w.config(st, 't/%s' % op['s']), name)
        elif k == 'binary':
            f = r.choice((
                lambda: a == b, lambda: a <= b, lambda: a >= b,
                lambda: a < b, lambda: a > b, lambda: a != b,
                lambda: a + b, lambda: a - b))
            x = f()
            if isinstance(x, Config):
                pool.config(x, name)
            elif isinstance(x, ConfigDelta):
                pool.delta(x, name)
        elif k == 'delta':
            d = ConfigDelta(a, b, **options(r))
            str(d)
            if r.random() < 0.3:
                d = -d
            bool(d)
            pool.delta(d, name)
        elif k == 'apply':
            if pool.deltas:
                d = r.choice(pool.deltas)
                f = r.choice((lambda: a + d, lambda: a - d, lambda: d + a,
                              lambda: a + d.nc, lambda: d.config_src + d,
                              lambda: ConfigDelta(a, delta=d.nc)))
                x = f()
                if isinstance(x, ConfigDelta):
                    pool.delta(x, name)
                else:
                    pool.config(x, name)
        elif k == 'payload':
            st = w.state_of(a)
            try:
                e = Payload(w, r, st).build()
            except NoPrefix:
                return ''
            pool.payload(e, name)
            pool.config(a + e, name + '.sum')
        elif k == 'bad':
            f = r.choice((lambda: a + 5, lambda: a <= 'x',
                          lambda: a.xpath('//['),
                          lambda: ConfigDelta(a, delta='<x'),
                          lambda: a + broken(a)))
            f()
        elif k == 'send':
            if pool.deltas and r.random() < 0.7:
                d = r.choice(pool.deltas)
                e = d.nc
                pool.payload(e, name)
                w.send(e)
            else:
                w.send(a)
        elif k == 'inspect':
            f = r.choice((
                lambda: str(a), lambda: a.xml, lambda: a.ns,
                lambda: a.models, lambda: a.roots, lambda: repr(a),
                lambda: bool(a), lambda: a.filter('//*[1]'),
                lambda: a.xpath('//*'), lambda: a.filter('/nc:config/*[1]'),
                lambda: [w.m.get_xpath(x) for x in a.ele.iter()
                         if x is not a.ele],
                lambda: [(d.ns, d.models, d.roots) for d in pool.deltas[:2]]))
            f()
        elif k == 'wrap':
            x = Config(w.m, a, remove_deprecated=r.random() < 0.5)
            pool.config(x, name)
            pool.config(Config(w.m, a.ele), name + '.el')
            if pool.replies:
                pool.config(w.m.extract_config(r.choice(pool.replies)),
                            name + '.again')
    except Exception as e:
        if transport_failure(e) or rpc_error(e):
            run.probe('op_failed_transport')
            return 'failed ' + type(e).__name__
        if type(e).__name__ in EXPECTED or isinstance(
                e, (etree.XMLSyntaxError, etree.XPathEvalError)):
            run.probe('op_failed_' + type(e).__name__)
            return 'failed ' + type(e).__name__
        raise
    return ''


def broken(a):
    """An edit that fails half way: good children, then a bad operation."""
    e = etree.fromstring(etree.tostring(a.ele))
    kids = list(e)
    if kids:
        kids[-1].set(D.OP, 'create')
        kids[0].set(D.OP, 'no-such-op')
    return e


# ----------------------------------------------------------------------- C05
def c05(run, w):
    seen = []
    for op in run.plan['ops']:
        r = opr(run, op)
        w.st.r = r
        if op['k'] == 'operator':
            other_operator(run, w, op)
            continue
        a = S.clone(w.dev.running)
        x = r.random()
        if x < 0.35:
            b = S.clone(a)
        elif x < 0.6:
            b = w.st.mutate(a, r.choice((1, 1, 2)))
        elif x < 0.7:
            b = permute(w.schema, a, r)
        elif x < 0.9:
            b = prune(w.schema, a, r)
        else:
            b = next_state(w, r, a, seen)
        seen.append(a)
        w.recover()
        ca = snapshot(run, w, r, a, 'a%s' % op['s'])
        cb = snapshot(run, w, r, b, 'b%s' % op['s'])
        compare(run, w, ca, cb, a, b)
        ca2 = snapshot(run, w, r, a, 'c%s' % op['s'])
        compare(run, w, ca, ca2, a, a)
        if r.random() < 0.5:
            w.dev.set_state(b)


def prune(schema, st, r):
    """Remove some things: a contained state."""
    def f(kids, st):
        out = {}
        for n in kids:
            if n.q not in st:
                continue
            v = S.clone(st[n.q])
            if r.random() < 0.15 and not S.is_key(n):
                continue
            if n.kind == 'container':
                v = f(n.data_children(), v)
            elif n.kind == 'list':
                v = [f(n.data_children(), e) for e in v if r.random() > 0.2]
            elif n.kind == 'leaf-list':
                v = [x for x in v if r.random() > 0.2]
            out[n.q] = v
        return out
    return S.canon(schema, f(schema.roots, st))


def snapshot(run, w, r, state, label):
    """A snapshot of the state: from a reply or from text."""
    x = r.random()
    if x < 0.5:
        keep, kc = w.dev.running, w.dev.cand
        q, w.dev.quiet = w.dev.quiet, True
        w.dev.set_state(state)
        c, _ = w.read('get' if r.random() < 0.5 else 'get-config')
        w.dev.running, w.dev.cand = keep, kc
        w.dev.quiet = q
        run.probe('snapshot_reply')
        return c
    if x < 0.7:
        from ncdiff import Config
        run.probe('snapshot_element')
        el = etree.fromstring(w.render(state, label))
        if r.random() < 0.3:
            # any element of the document will do
            el = r.choice([e for e in el.iter() if isinstance(e.tag, str)])
        return Config(w.m, el)
    run.probe('snapshot_text')
    return w.config(state, label)


def compare(run, w, ca, cb, a, b):
    sub = S.contains(w.schema, a, b)
    sup = S.contains(w.schema, b, a)
    want = {'==': sub and sup, '!=': not (sub and sup), '<=': sub,
            '>=': sup, '<': sub and not sup, '>': sup and not sub}
    got = {'==': ca == cb, '!=': ca != cb, '<=': ca <= cb, '>=': ca >= cb,
           '<': ca < cb, '>': ca > cb}
    run.saw('compare', a, b)
    if got != want:
        bad = sorted(k for k in got if got[k] != want[k])
        run.fail('comparison', '%s: got %s want %s\na %s\nb %s\n%s\n%s' % (
            bad, [got[k] for k in bad], [want[k] for k in bad], show(a),
            show(b), ca.xml[:700], cb.xml[:700]))
    e = bool(ca - cb)
    if e != (a != b):
        run.fail('difference of equal states' if a == b else
                 'no difference of unequal states',
                 'a %s\nb %s\n%s\n%s' % (show(a), show(b), ca.xml[:700],
                                         cb.xml[:700]))
    if a == b:
        for d in ((ca - cb), (cb - ca)):
            n = [x for x in d.nc.iter() if x.get(D.OP) is not None]
            if n:
                run.fail('operations in an empty difference', str(d))
    for other in (ca.ele, ca - cb, None, 'x'):
        for f in ('__eq__', '__ne__', '__le__', '__lt__', '__ge__',
                  '__gt__'):
            try:
                res = getattr(ca, f)(other)
            except TypeError:
                continue
            run.fail('compared with something else', '%s %s: %s' % (
                f, type(other), res))
    if bool(ca) != bool(a):
        run.fail('truth of snapshot', '%s %s' % (show(a), ca.xml[:700]))
    run.sample('%s vs %s' % (show(a)[:200], show(b)[:200]))


# ----------------------------------------------------------------------- C06
def c06(run, w):
    from ncdiff.errors import ModelMissing
    for op in run.plan['ops']:
        r = opr(run, op)
        w.st.r = r
        if op['k'] == 'operator':
            other_operator(run, w, op)
            continue
        w.recover()
        how = r.choice(('get', 'get_config'))
        rd = r.random() < 0.4
        if op['k'] == 'refuse':
            refuse(run, w, r, how)
            continue
        if op['k'] == 'all':
            models = None
        else:
            k = r.randrange(1, len(w.models) + 1)
            models = sorted(r.sample(w.models, k))
        roots = [n for n in w.schema.roots
                 if models is None or n.mod.name in models]
        if how == 'get_config':
            roots = [n for n in roots if n.config]
        if models is not None and not roots:
            refuse(run, w, r, how, models)
            continue
        arg = models
        if models is not None and len(models) == 1 and r.random() < 0.5:
            arg = models[0]
        kw = {} if models is None else {'models': arg}
        # the state keeps changing while the request travels
        if r.random() < 0.4:
            s2 = w.st.mutate(w.dev.running)
            d = r.choice((0.001, 0.003, 0.01))
            run.sim.at(d, lambda: w.dev.set_state(s2))

        def go():
            rep = getattr(w.m, how)(**kw)
            return rep
        rep = w.attempt(go)
        info = w.dev.served[rep._root.get('message-id')]
        if models is not None:
            if info['filter'] is None or \
                    sorted(info['filter']) != sorted(n.q for n in roots):
                run.fail('wrong request',
                         '%s models=%s asked for %s instead of %s' % (
                             how, arg, info['filter'],
                             sorted(n.q for n in roots)))
        cfg = w.m.extract_config(rep, remove_deprecated=rd)
        drop = ('obsolete', 'deprecated') if rd else ('obsolete',)
        full = {n.q: info['state'][n.q] for n in roots
                if n.q in info['state']}
        want = S.canon(w.schema, S.writable(w.schema, full, drop=drop))
        try:
            got = w.state_of(cfg)
        except D.BadData as e:
            run.fail('extracted snapshot', '%s\n%s' % (e, cfg))
        run.saw(how, models, rd, full)
        if got != want:
            run.fail('extracted snapshot',
                     '%s models=%s remove_deprecated=%s\ngot  %s\nwant %s\n%s'
                     % (how, models, rd, show(got), show(want),
                        str(rep)[:1500]))
        top = {n.q: n.mod.name for n in roots if n.q in want}
        if cfg.roots != top or cfg.models != sorted(set(top.values())):
            run.fail('models of a snapshot', '%s %s, not %s' % (
                cfg.roots, cfg.models, top))
        ro = [e.tag for e in cfg.ele.iter() if e is not cfg.ele and
              readonly(w, e, drop)]
        if ro:
            run.fail('read-only or obsolete data kept', '%s\n%s' % (ro, cfg))
        again = w.m.extract_config(rep, remove_deprecated=rd)
        if w.state_of(again) != want:
            run.fail('extracting twice', '%s' % again)
        run.sample('%s %s: %s' % (how, models, show(want)[:300]))


def readonly(w, e, drop):
    path = [e]
    while path[0].getparent() is not None and \
            path[0].getparent().getparent() is not None:
        path.insert(0, path[0].getparent())
    kids = w.schema.roots
    for x in path:
        n = D.find(kids, x.tag)
        kids = n.data_children()
    return not n.config or n.status in drop


def refuse(run, w, r, how, models=None):
    from ncdiff.errors import ModelMissing
    n0 = len(w.dev.served)
    if models is None:
        models = ['no-such-model']
        if r.random() < 0.5:
            models = models + [r.choice(w.models)]
        want = ModelMissing
    else:
        want = ValueError
    if len(models) == 1 and r.random() < 0.5:
        models = models[0]
    try:
        getattr(w.m, how)(models=models)
    except want:
        run.saw('refused', how, str(models))
        run.probe('refused')
    except Exception as e:
        run.fail('wrong refusal', '%s models=%s: %r' % (how, models, e))
    else:
        run.fail('not refused', '%s models=%s' % (how, models))
    if len(w.dev.served) != n0:
        run.fail('sent before refusing', '%s models=%s' % (how, models))


# ----------------------------------------------------------------------- C15
def c15(run, w):
    from ncdiff import ConfigDelta
    seen = []
    for op in run.plan['ops']:
        r = opr(run, op)
        w.st.r = r
        if op['k'] == 'operator':
            other_operator(run, w, op)
            continue
        w.recover()
        w.discard()
        src, s_state = w.read(r.choice(('get', 'get-config')))
        seen.append(s_state)
        dst, d_state = make_dst(run, w, op, r, s_state, seen)
        opts = options(r)
        depth = r.choice((0, 0, 1, 1, 2, 3))
        seed = r.choice((0, 1, -1, r.randrange(1, 10000), r.randrange(1, 10000),
                         r.randrange(1 << 70), None))
        plain = ConfigDelta(src, dst, **opts)
        base = content(plain.nc)

        def mk():
            return ConfigDelta(src, dst, random_depth=depth,
                               random_seed=seed, **opts)
        if seed is None:
            # a seed is chosen, and can be used again
            seed = mk().random_seed
            if not isinstance(seed, int):
                run.fail('no seed chosen', repr(seed))
        st0 = random.getstate()
        how = r.randrange(3)
        if how == 0:
            d = mk()
            d.nc
            d.random_seed = seed + 1
            d.nc
            d.random_seed = seed
        elif how == 1:
            d = ConfigDelta(src, dst, random_depth=depth, random_seed=1,
                            **opts)
            d.random_seed = seed
        else:
            d = mk()
        if d.random_seed != seed:
            run.fail('another seed', '%r %r' % (d.random_seed, seed))
        nc = d.nc
        one = content(nc)
        if random.getstate() != st0:
            run.fail('global random state disturbed',
                     'depth %d seed %d' % (depth, seed))
        random.random()
        run.saw('reorder', depth, seed, s_state, d_state)
        if content(d.nc) != one or content(mk().nc) != one:
            run.fail('not reproducible', 'depth %d seed %d\n%s' % (
                depth, seed, pretty(nc)))
        # other threads
        got = []

        def th():
            random.seed(1)
            got.append(content(mk().nc))
        ts = [run.sim.spawn(th, name='reorder%d' % i) for i in range(2)]
        for t in ts:
            run.sim.join(t)
            if t.exc is not None:
                raise t.exc
        if any(g != one for g in got):
            run.fail('not reproducible', 'threads: depth %d seed %d\n%s' % (
                depth, seed, pretty(nc)))
        if multiset(one) != multiset(base):
            run.fail('other operations', '%s\n%s' % (pretty(nc),
                                                    plain))
        bad = keys_first(w.schema, nc)
        if bad:
            run.fail('list keys not first', '%s\n%s' % (bad, pretty(nc)))
        if one != base:
            run.probe('order_changed')
        elif movable(w.schema, nc, depth) >= 3:
            # some of a dozen seeds has to give another order
            run.probe('a_dozen_seeds')
            if all(content(ConfigDelta(src, dst, random_depth=depth,
                                       random_seed=seed + i, **opts).nc) ==
                   base for i in range(1, 13)):
                run.fail('never another order', 'depth %d seed %d\n%s' % (
                    depth, seed, pretty(nc)))
        ent, outcome, err = w.send(nc)
        if ent is not None and ent['before'] == s_state:
            run.probe('landed')
            judge_edit(run, ent['error'], ent.get('info'), ent['after'],
                       s_state, d_state,
                       dict(opts, random_depth=depth, random_seed=seed),
                       ent['config'])
        else:
            err = info = after = None
            try:
                after = D.edit(w.schema, s_state, to_el(nc))
            except D.RpcError as e:
                err, info = e.tag, e.info
            judge_edit(run, err, info, after, s_state, d_state,
                       dict(opts, random_depth=depth, random_seed=seed),
                       etree.tostring(nc))


def movable(schema, el, depth, kids=None):
    """The largest number of nodes at a depth that can trade places."""
    kids = schema.roots if kids is None else kids
    if depth == 0:
        ns = [D.find(kids, c.tag) for c in el]
        return len([n for n in ns if not n.user and not S.is_key(n)])
    return max([movable(schema, c, depth - 1,
                        D.find(kids, c.tag).data_children())
                for c in el] or [0])


def multiset(c):
    return (c[0], c[1], c[2], tuple(sorted(map(multiset, c[3]), key=repr)))


def keys_first(schema, el, kids=None, lst=None):
    kids = schema.roots if kids is None else kids
    other = False
    for c in el:
        n = D.find(kids, c.tag)
        if lst is not None and S.is_key(n):
            if other:
                return n.q
        else:
            other = True
        if n.kind in ('container', 'list'):
            b = keys_first(schema, c, n.data_children(),
                           n if n.kind == 'list' else None)
            if b:
                return b
    return None


# ----------------------------------------------------------------------- C22
GARBLE = ['unknown', 'unknown', 'foreign', 'keyless', 'attribute', 'entry',
          'key', 'leaf']


def schema_of(w, e):
    path = []
    while e.getparent() is not None:
        path.insert(0, e.tag)
        e = e.getparent()
    kids, n = w.schema.roots, None
    for t in path:
        n = D.find(kids, t)
        if n is None:
            return None
        kids = n.data_children()
    return n


def live(n):
    """Writable and not removed by the parser."""
    while n is not None:
        if not n.config or n.status:
            return False
        n = n.parent
    return True


def garble(w, r, doc, what):
    """Make a document contradict the schema.  Returns the new document and a
    description, or None where that is not possible."""
    root = etree.fromstring('<data xmlns="%s">%s</data>' % (D.NC, doc))
    els = [e for e in root.iter() if isinstance(e.tag, str) and e is not root]
    els = [(e, schema_of(w, e)) for e in els]
    els = [(e, n) for e, n in els if n is not None and live(n)]
    inner = [(e, n) for e, n in els if n.kind in ('container', 'list')]
    bad = again = None
    if what in ('unknown', 'foreign'):
        at = [(e, n) for e, n in inner if len(e)] + [(root, None)]
        e, n = r.choice(at)
        ns = 'urn:not:known' if what == 'foreign' else \
            n.mod.ns if n is not None else r.choice(w.schema.roots).mod.ns
        x = etree.Element('{%s}nosuch' % ns)
        if r.random() < 0.5:
            x.text = 'v'
        elif r.random() < 0.5:
            etree.SubElement(x, '{%s}deep' % ns).text = '1'
        e.insert(r.randrange(len(e) + 1), x)
        bad = '%s below %s' % (x.tag, e.tag)
    elif what == 'keyless':
        at = []
        for e, n in inner:
            if n.kind != 'list' or not n.keys:
                continue
            for k in n.keys:
                q = '{%s}%s' % (n.mod.ns, k)
                left = [c for c in e if c.tag != q and any(
                    c.tag == '{%s}%s' % (n.mod.ns, o) for o in n.keys)]
                if left:
                    at.append((e, q))
        if at:
            e, q = r.choice(at)
            for c in e.findall(q):
                e.remove(c)
            bad = 'key %s missing' % q
    elif what == 'attribute':
        # defaults and empty containers go before anything is checked
        at = [(e, n) for e, n in els
              if n.kind == 'list' or n.kind != 'container' and
              n.default is None]
        if at:
            e, n = r.choice(at)
            a, v = r.choice([
                ('{%s}operation' % D.NC, r.choice(['delete', 'merge'])),
                ('{%s}insert' % D.YANG, 'first'),
                ('{%s}value' % D.YANG, r.choice(['v', ''])),
                ('{%s}key' % D.YANG, "[name='k']")])
            e.set(a, v)
            bad = '%s on %s' % (a, e.tag)
    elif what == 'entry':
        at = [(e, n) for e, n in inner if n.kind == 'list' and n.keys]
        if at:
            e, n = r.choice(at)
            again = etree.tostring(e, encoding='unicode', with_tail=False)
            e.getparent().append(etree.Comment('again'))
            bad = 'entry of %s twice' % e.tag
    elif what in ('key', 'leaf'):
        at = [(e, n) for e, n in els if n.kind == 'leaf' and
              (what == 'key') == S.is_key(n) and
              (what == 'key' or n.default is None)]
        if at:
            e, n = r.choice(at)
            again = etree.tostring(e, encoding='unicode', with_tail=False)
            e.getparent().append(etree.Comment('again'))
            bad = '%s %s twice' % (what, e.tag)
    if bad is None:
        return None
    # in-scope prefixes come along in the text, not in a copied node
    doc = ''.join(etree.tostring(c, encoding='unicode') for c in root)
    return doc.replace('<!--again-->', again or ''), bad


def c22(run, w):
    from ncdiff import Config, ConfigDelta
    from ncdiff.errors import ConfigError, ModelMissing
    refusal = (ConfigError, ModelMissing)
    for op in run.plan['ops']:
        r = opr(run, op)
        w.st.r = r
        if op['k'] == 'operator':
            other_operator(run, w, op)
            continue
        w.recover()
        if op['k'] == 'unloaded':
            unloaded(run, w, r)
            continue
        kinds = GARBLE[:]
        r.shuffle(kinds)

        def spoil(doc):
            for k in kinds:
                res = garble(w, r, doc, k)
                if res is not None:
                    return res[0], (k, res[1], doc)
            return doc, None
        how = r.choice(('get', 'get_config'))
        w.dev.garble = spoil
        try:
            rep = w.attempt(lambda: getattr(w.m, how)(models=w.with_config))
        finally:
            w.dev.garble = None
        kind, bad, doc = w.dev.garbled[rep._root.get('message-id')]
        run.sim.fault('garbled_reply')
        run.probe('garbled_' + kind)
        text = str(rep)
        good = Config(w.m, '<data xmlns="%s">%s</data>' % (D.NC, doc))
        for make in (lambda: w.m.extract_config(rep),
                     lambda: Config(w.m, text)):
            try:
                cfg = make()
            except refusal as e:
                continue
            except Exception as e:
                run.fail('not refused properly', '%s: %r\n%s' % (
                    bad, e, text[:2000]))
            if kind in ('unknown', 'foreign', 'keyless', 'attribute'):
                run.fail('accepted', '%s\n%s\n%s' % (bad, text[:2000], cfg))
            n = 0
            for f in (lambda: good == cfg, lambda: cfg == good,
                      lambda: ConfigDelta(good, cfg).nc,
                      lambda: ConfigDelta(cfg, good).nc,
                      lambda: good + cfg):
                n += 1
                try:
                    x = f()
                except refusal:
                    continue
                except Exception as e:
                    run.fail('not refused properly', '%s: %d %r\n%s' % (
                        bad, n, e, text[:2000]))
                if n < 3 and x is False:
                    continue
                run.fail('accepted', '%s %d\n%s\n%s' % (
                    bad, n, text[:2000], x))
        run.saw(kind, bad, text)
        # nothing of it stays behind
        c, state = w.read(how.replace('_', '-'))
        if w.state_of(c) != state:
            run.fail('later snapshot', '%s\ngot  %s\nwant %s' % (
                bad, show(w.state_of(c)), show(state)))


def unloaded(run, w, r):
    """Data of models that were not loaded."""
    from ncdiff import Config
    from ncdiff.errors import ModelMissing
    from . import net
    q, w.dev.quiet = w.dev.quiet, True
    try:
        m = net.connect(run.sim, w.dev)
        m.scan_models(folder=w.folder)
        have = r.sample(w.models, r.randrange(len(w.models)))
        for n in have:
            m.load_model(n)
        rep = m.get_config()
    finally:
        w.dev.quiet = q
    served = w.dev.served[rep._root.get('message-id')]['state']
    # what the reply really shows (defaults, empty containers)
    data = rep._root.find('{%s}data' % D.NC)
    lost = sorted({n.mod.name for n in w.schema.roots if n.mod.name not in
                   have and data.find(n.q) is not None})
    run.probe('unloaded' if lost else 'loaded_enough')
    run.saw('unloaded', sorted(have), lost, S.dump(served))
    for f in (lambda: m.extract_config(rep), lambda: Config(m, str(rep))):
        try:
            c = f()
        except ModelMissing as e:
            if not lost:
                run.fail('refused', '%s loaded: %s\n%s' % (have, e, rep))
            if not any("'%s'" % x in str(e) for x in lost):
                run.fail('missing model not named', '%s: %s' % (lost, e))
            continue
        if lost:
            run.fail('accepted', 'only %s loaded\n%s' % (have, c))
        if w.state_of(c) != S.canon(w.schema, served):
            run.fail('later snapshot', '%s\n%s' % (have, c))
