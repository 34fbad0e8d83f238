"""Selecting parts of a snapshot: the client filters what it read, the device
answers the same selection itself, other operators edit in between."""
from lxml import etree

from . import device as D
from . import schema as S
from .scen_net import opr, other_operator, snapshot
from .world import World, base_cfg, net_faults, show


def plan(prop, r, tier):
    n = r.randrange(3, 7) if tier == 'quick' else r.randrange(4, 14)
    cfg = base_cfg(r, tier)
    cfg['gen']['mandatory'] = r.random() < 0.5
    cfg['faults'] = net_faults(r)
    ops = [{'k': r.choice(('select',) * 4 + ('path',) * 2 + ('operator',)),
            's': r.randrange(1 << 30)} for _ in range(n)]
    return {'cfg': cfg, 'ops': ops}


def run(run):
    status, val = run.sim.incarnation(lambda: client(run), 'client')
    if status == 'raised':
        raise val


def client(run):
    w = World(run)
    w.dev.running = w.st.state()
    w.dev.cand = S.clone(w.dev.running)
    w.connect()
    for op in run.plan['ops']:
        r = opr(run, op)
        w.st.r = r
        if op['k'] == 'operator':
            other_operator(run, w, op)
            continue
        w.recover()
        if op['k'] == 'path':
            paths(run, w, op, r)
        else:
            select(run, w, op, r)


# ------------------------------------------------------------ the reference
# An instance is a tuple of (q-name, index); the content of the datastore is
# a dict of the children of the root.
def children(kids, d, path):
    """(schema node, value, path) of the child instances."""
    for n in kids:
        if n.q not in d:
            continue
        v = d[n.q]
        if n.kind in ('list', 'leaf-list'):
            for i, x in enumerate(v):
                yield n, x, path + ((n.q, i),)
        else:
            yield n, v, path + ((n.q, 0),)


def below(inst):
    n, v, p = inst
    if n.kind in ('container', 'list'):
        yield from children(n.data_children(), v, p)


def deep(insts):
    for i in insts:
        yield i
        yield from deep(below(i))


def evaluate(schema, state, sel):
    """Paths of the instances that a selection (a list of step lists)
    selects."""
    out = {}
    for steps in sel:
        cur = None
        for axis, q, pred in steps:
            groups = [list(children(schema.roots, state, ()))] \
                if cur is None else [list(below(i)) for i in cur]
            if axis == 'deep':
                groups = [list(deep(g)) for g in groups]
            nxt = {}
            for g in groups:
                g = [i for i in g if i[0].q == q]
                for k, i in enumerate(g):
                    if holds(pred, i, k, len(g)):
                        nxt[i[2]] = i
            cur = list(nxt.values())
        if cur is None:
            return None             # the root itself: everything
        for i in cur:
            out[i[2]] = i
    return set(out)


def holds(pred, inst, pos, size):
    if pred is None:
        return True
    k = pred[0]
    n, v, p = inst
    if k == 'pos':
        return pos == pred[1]
    if k == 'last':
        return pos == size - 1
    if k == 'self':
        return v == pred[1]
    vals = [x for c, x, _ in below(inst) if c.q == pred[1]]
    if k == 'has':
        return bool(vals)
    if k == 'not':
        return not vals
    return pred[2] in vals          # eq


def project(schema, state, chosen):
    """Chosen nodes with all they contain, their ancestors, and the keys of
    the entries among these."""
    if chosen is None:
        return S.canon(schema, state)
    above = {p[:i] for p in chosen for i in range(1, len(p))}

    def f(kids, d, path, keys):
        out = {}
        for n in kids:
            if n.q not in d:
                continue
            v = d[n.q]
            many = n.kind in ('list', 'leaf-list')
            res = []
            for i, x in enumerate(v if many else [v]):
                p = path + ((n.q, i),)
                if p in chosen or (keys and S.is_key(n)):
                    res.append(S.clone(x))
                elif p in above:
                    res.append(f(n.data_children(), x, p, n.kind == 'list'))
            if res:
                out[n.q] = res if many else res[0]
        return out
    return S.canon(schema, f(schema.roots, state, (), False))


# --------------------------------------------------------- making selections
def literal(s):
    if '"' not in s:
        return '"%s"' % s
    if "'" not in s:
        return "'%s'" % s
    return 'concat(%s)' % ', \'"\', '.join('"%s"' % x for x in s.split('"'))


class Selection:
    def __init__(self, w, r, state):
        self.w, self.r, self.state = w, r, state
        self.ns = {'nc': D.NC}
        for m in w.schema.modules:
            self.ns[m.prefix] = m.ns
        self.pfx = {u: p for p, u in self.ns.items()}
        self.by_q = {}
        for n in w.schema.walk():
            self.by_q.setdefault(n.q, []).append(n)
        self.sel = [self.one() for _ in range(r.choice((1, 1, 1, 2, 3)))]
        self.text = ' | '.join(self.show(s) for s in self.sel)

    def name(self, q):
        u, n = q[1:].split('}')
        return '%s:%s' % (self.pfx[u], n)

    def one(self):
        """Step list, mostly along something that exists."""
        r = self.r
        every = list(deep(children(self.w.schema.roots, self.state, ())))
        if not every or r.random() < 0.04:
            n = r.choice([x for x in self.w.schema.roots])
            return [('child', n.q, None)] if r.random() < 0.7 else []
        target = r.choice(every)
        chain = [target]
        for i in range(len(target[2]) - 1, 0, -1):
            chain.insert(0, [x for x in every if x[2] == target[2][:i]][0])
        steps = []
        for i in chain:
            steps.append(['child', i[0].q, self.pred(i)])
        x = r.random()
        if x < 0.3:
            # from anywhere
            cut = r.randrange(len(steps))
            steps = steps[cut:]
            steps[0][0] = 'deep'
        elif x < 0.4 and len(steps) > 2:
            cut = r.randrange(1, len(steps))
            del steps[1:cut]
            steps[1][0] = 'deep'
        if r.random() < 0.08 and chain[-1][0].kind in ('container', 'list'):
            kids = chain[-1][0].data_children()
            if kids:                # perhaps nothing there
                steps.append(['child', r.choice(kids).q, None])
        for s in steps:
            if s[0] == 'deep' and s[2] and s[2][0] in ('pos', 'last'):
                s[2] = None
        return [tuple(s) for s in steps]

    def pred(self, inst):
        r = self.r
        n, v, p = inst
        x = r.random()
        if n.kind == 'leaf-list':
            if x < 0.5 and isinstance(v, str) and \
                    all(o.default is None and o.type is not None
                        for o in self.by_q[n.q] if o.kind == 'leaf-list'):
                return ('self', v)
            return None
        if n.kind == 'list':
            if n.user and x < 0.15:
                return r.choice((('pos', r.randrange(3)), ('last',)))
            if x < 0.7:
                vals = [(c, y) for c, y, _ in below(inst)
                        if c.kind == 'leaf' and isinstance(y, str) and
                        (S.is_key(c) or r.random() < 0.5)]
                if vals:
                    c, y = r.choice(vals)
                    return ('eq', c.q, y)
        if n.kind in ('list', 'container') and x > 0.85:
            kids = [c for c in n.data_children() if not S.is_key(c)]
            if kids:
                return (r.choice(('has', 'not')), r.choice(kids).q)
        return None

    def show(self, steps):
        if not steps:
            return '/nc:config'
        out = '/nc:config'
        for axis, q, pred in steps:
            out += ('//' if axis == 'deep' else '/') + self.name(q)
            if pred is None:
                continue
            k = pred[0]
            if k == 'pos':
                out += '[%d]' % (pred[1] + 1)
            elif k == 'last':
                out += '[last()]'
            elif k == 'self':
                # an empty node has no text()
                out += '[%s=%s]' % (self.r.choice(('.', 'text()'))
                                    if pred[1] else '.',
                                    literal(pred[1]))
            elif k == 'has':
                out += '[%s]' % self.name(pred[1])
            elif k == 'not':
                out += '[not(%s)]' % self.name(pred[1])
            else:
                out += '[%s=%s]' % (self.name(pred[1]), literal(pred[2]))
        return out


# ------------------------------------------------------------------- scenario
def select(run, w, op, r):
    if r.random() < 0.6:
        cfg, st = w.read(r.choice(('get', 'get-config')))
    else:
        st = w.st.mutate(w.dev.running)
        cfg = snapshot(run, w, r, st, 's%s' % op['s'])
    state = S.canon(w.schema, st)
    s = Selection(w, r, state)
    before = cfg.xml
    want = project(w.schema, state, evaluate(w.schema, state, s.sel))
    run.probe('selects_something' if want else 'selects_nothing')
    if want and want != state:
        run.probe('selects_part')
    part = cfg.filter(s.text, namespaces=s.ns) if r.random() < 0.4 else \
        cfg.filter(s.text)
    info = lambda: '%s\nstate %s\nwant  %s\ngot   %s' % (
        s.text, show(state), show(want), show(w.state_of(part)))
    run.check(w.state_of(part) == want, 'wrong part', info)
    run.check(part <= cfg and cfg >= part, 'part not contained', info)
    run.check(bool(part) == bool(want), 'truth of a part', info)
    run.check((part == cfg) == (want == state), 'part equals whole', info)
    run.check(cfg.xml == before, 'filter changed the snapshot', info)
    run.check(part.filter(s.text) == part
              if not any(p for x in s.sel for _, _, p in x) else True,
              'selecting twice', info)
    # any other rendering of the same state
    other = w.config(state, 'o%s' % op['s']).filter(s.text)
    run.check(other == part and part == other, 'rendering matters', info)
    run.saw('part', s.text, want)
    # the device answers the same selection
    w.dev.xpaths[s.text] = lambda st: project(
        w.schema, st, evaluate(w.schema, st, s.sel))
    f = etree.Element('{%s}filter' % D.NC, type='xpath', select=s.text,
                      nsmap=s.ns)

    def ask():
        rep = w.m.get_config(filter=f)
        return w.m.extract_config(rep), rep
    mine, rep = w.attempt(ask)
    served = S.canon(w.schema,
                     w.dev.served[rep._root.get('message-id')]['state'])
    leaf_of_reply(run, w, r, rep, s, project(
        w.schema, served, evaluate(w.schema, served, s.sel)))
    if served == state:
        run.probe('device_agrees')
        run.check(mine == part and part == mine, 'device selects another '
                  'part', lambda: info() + '\ndevice %s' % mine)


def leaf_of_reply(run, w, r, rep, s, part):
    """The reply itself can be searched."""
    every = list(deep(children(w.schema.roots, part, ())))
    leaves = [i for i in every if i[0].kind == 'leaf' and
              isinstance(i[1], str)]
    if not leaves:
        return
    leaf = r.choice(leaves)
    path = '/nc:rpc-reply/nc:data'
    for i in range(1, len(leaf[2]) + 1):
        n, v, p = [x for x in every if x[2] == leaf[2][:i]][0]
        path += '/' + s.name(n.q)
        if n.kind == 'list':
            for k in n.keys:
                y = v['{%s}%s' % (n.mod.ns, k)]
                if not isinstance(y, str):
                    return
                path += '[%s=%s]' % (s.name('{%s}%s' % (n.mod.ns, k)),
                                     literal(y))
    got = rep.xpath(path)
    run.check([x.xpath('string()') for x in got] == [leaf[1]],
              'search of a reply', lambda: '%s is %s, not %r\n%s' % (
                  path, [x.text for x in got], leaf[1], rep))
    run.probe('reply_searched')


def paths(run, w, op, r):
    """The path of a node selects that node."""
    from ncdiff import Tag
    cfg, st = w.read(r.choice(('get', 'get-config')))
    if r.random() < 0.5:
        cfg = w.config(st, 'p%s' % op['s'])
    nodes = [n for n in cfg.ele.iter() if n is not cfg.ele]
    for n in r.sample(nodes, min(len(nodes), 6)):
        p = w.m.get_xpath(n, type=Tag.LXML_XPATH)
        got = cfg.xpath('/nc:config' + p)
        run.check(got == [n], 'path of a node', lambda: '%s selects %s\n%s' % (
            p, [x.getroottree().getpath(x) for x in got], cfg))
        p = w.m.get_xpath(n, type=Tag.LXML_XPATH, instance=False)
        got = cfg.xpath('/nc:config' + p)
        run.check(got == n.getparent().findall(n.tag),
                  'path of a schema node', lambda: '%s selects %s\n%s' % (
                      p, [x.getroottree().getpath(x) for x in got], cfg))
        sn = w.m.get_schema_node(n)
        tags = [a.tag for a in reversed(list(sn.iterancestors()))
                if a.get('type') not in ('choice', 'case')][1:] + [sn.tag]
        want = [a.tag for a in reversed(list(n.iterancestors()))][1:] + \
            [n.tag]
        run.check(tags == want, 'schema node of a node', lambda: '%s %s' % (
            tags, want))
        name = w.m.get_model_name(n)
        run.check(w.schema.module(name).ns == want[0][1:].split('}')[0],
                  'model of a node', name)
        run.saw('path', p)
