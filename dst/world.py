"""Pieces shared by the scenarios that talk NETCONF: one simulated device,
one real client, reconnecting, delta options, reference payloads."""
import json

from lxml import etree

from . import core
from . import device as D
from . import net
from . import schema as S

GEN = {'status': False, 'iid': False}


def base_cfg(r, tier, **kw):
    """Configuration shared by the NETCONF scenarios."""
    cfg = {
        'gen': dict(GEN, depth=r.choice((1, 2, 3, 3)),
                    modules=r.choice((1, 2, 3, 3, 4)),
                    width=r.choice((3, 4, 5))),
        'candidate': r.random() < 0.6,
        'writable_running': r.random() < 0.7,
        'base11': r.random() < 0.3,
        'preempt': 0,
        'density': r.choice((30, 50, 60, 60, 80)),
        'maxlist': r.choice((2, 3, 4, 5, 5, 12)),
    }
    if cfg['maxlist'] > 5:
        cfg['gen'].update(depth=min(2, cfg['gen']['depth']), width=3)
    elif r.random() < 0.12:
        cfg['gen'].update(depth=5, width=2)
    if not cfg['candidate']:
        cfg['writable_running'] = True
    cfg['gen']['iid'] = r.random() < 0.35
    cfg['gen']['deftype'] = r.random() < 0.5
    cfg['gen']['leafref'] = r.random() < 0.5
    if tier == 'thorough' and r.random() < 0.3:
        cfg['gen'].update(depth=4, width=6, modules=r.choice((3, 4, 5)))
    cfg.update(kw)
    return cfg


def net_faults(r, p=0.06):
    """A fault mix; some runs have none."""
    if r.random() < 0.25:
        return {}
    kinds = ['drop_before', 'drop_after', 'no_reply', 'late', 'rpc_error']
    r.shuffle(kinds)
    return {k: p * r.choice((1, 2, 3)) for k in kinds[:r.randrange(1, 6)]}


def rpcs(schema, r):
    """Operations are roots of models as well, but they hold no data."""
    for m in schema.modules:
        if r.random() > (0.3 if m.roots else 0.8):
            continue
        name = r.choice([x.name for x in m.roots] or ['f'])
        m.extra += ('  rpc do-%s {\n    input { leaf %s { type string; } }'
                    '\n    output { leaf %s { type string; } }\n  }\n'
                    % (m.prefix, name, name))


class World:
    """Schema + device + (re)connecting client."""

    def __init__(self, run, label='', schema=None, name='dev'):
        cfg = run.cfg
        self.run = run
        self.sim = run.sim
        self.cfg = cfg
        self.schema = schema or S.Gen(run.rng('schema' + label),
                                      cfg.get('gen')).schema()
        rpcs(self.schema, run.rng('rpcs' + label))
        self.st = S.States(self.schema, run.rng('states' + label),
                           density=cfg.get('density', 60) / 100.0,
                           maxlist=cfg.get('maxlist', 4))
        self.dev = D.SimDevice(
            run.sim, self.schema, name=name, rng=run.rng('ro' + label),
            candidate=cfg.get('candidate', True),
            writable_running=cfg.get('writable_running', True),
            base11=cfg.get('base11', False), faults=cfg.get('faults'))
        self.dev.fault_budget = cfg.get('fault_budget', 5)
        self.folder = run.tmp + '/yang' + label
        self.m = None
        self.connects = 0
        # models whose roots exist
        self.models = [m.name for m in self.schema.modules]
        self.with_config = sorted({r.mod.name for r in self.schema.roots
                                   if r.config})

    # -- the client
    def connect(self):
        """Connect, scan and load; no faults while doing so."""
        sim, dev = self.sim, self.dev
        q, dev.quiet = dev.quiet, True
        sim.nopreempt += 1
        try:
            m = net.connect(sim, dev)
            m.scan_models(folder=self.folder)
            for name in self.models:
                m.load_model(name)
            self.m = m
            self.connects += 1
            return m
        finally:
            sim.nopreempt -= 1
            dev.quiet = q

    def attempt(self, fn, tries=8):
        """Run fn(); on a transport failure reconnect and retry."""
        for i in range(tries):
            try:
                return fn()
            except Exception as e:
                if not transport_failure(e):
                    raise
                self.run.probe('client_retry')
                self.recover()
        q, self.dev.quiet = self.dev.quiet, True
        try:
            try:
                return fn()
            except Exception as e:
                # the session may have been dying of an earlier fault
                if not transport_failure(e):
                    raise
                self.recover()
            return fn()
        finally:
            self.dev.quiet = q

    def recover(self):
        if self.m is None or not self.m.connected:
            self.connect()

    def read(self, how='get-config'):
        """(snapshot, state the device served)."""
        def go():
            m = self.m
            if how == 'get':
                rep = m.get(models=self.with_config)
            else:
                rep = m.get_config(models=self.with_config)
            return m.extract_config(rep), rep
        cfg, rep = self.attempt(go)
        mid = rep._root.get('message-id')
        served = self.dev.served[mid]['state']
        return cfg, S.canon(self.schema, served)

    def state_of(self, config):
        """Reference reading of a snapshot."""
        el = config.ele if hasattr(config, 'ele') else config
        return S.canon(self.schema, D.parse(self.schema, el))

    ENVELOPES = (
        ('data',), ('data',), ('rpc-reply', 'data'), ('config',),
        ('edit-config', 'config'), ('rpc', 'edit-config', 'config'))

    def render(self, state, label):
        """The state as an XML text, randomly rendered, in one of the forms in
        which configurations are kept: what a device replied or what somebody
        sent."""
        r = self.run.rng('render/' + label)
        rr = D.Renderer(self.schema,
                        lambda l, n: r.randrange(n) if r.random() < 0.6
                        else 0)
        tags = r.choice(self.ENVELOPES)
        text = rr.document(state)
        if tags[-1] == 'config':
            # the data are those of config, not of what stands beside it
            text = '<config>%s</config>' % text
            if 'edit-config' in tags:
                text = '<target><running/></target>' \
                    '<default-operation>merge</default-operation>' + text
        else:
            text = '<data>%s</data>' % text
        for tag in reversed(tags[:-1]):
            text = '<%s>%s</%s>' % (tag, text, tag)
        return text.replace('<%s>' % tags[0], '<%s xmlns="%s"%s>' % (
            tags[0], D.NC, ' message-id="7"' if tags[0][:3] == 'rpc' else ''),
            1)

    def config(self, state, label=None):
        """A Config made from a text rendering."""
        from ncdiff import Config
        text = self.render(state, label) if label is not None else \
            D.plain(self.schema, state)
        return Config(self.m, text)

    def send(self, payload, target=None):
        """edit-config (and commit); returns the history entry if the device
        executed it, plus the client-visible outcome."""
        m, dev = self.m, self.dev
        n0 = len(dev.history)
        kw = {}
        if target is not None:
            kw['target'] = target
        outcome = 'ok'
        err = None
        try:
            m.edit_config(payload, **kw)
        except Exception as e:
            err = e
            if transport_failure(e):
                outcome = 'lost'
            elif rpc_error(e):
                outcome = 'rejected'
            else:
                raise
        ents = dev.history[n0:]
        ent = ents[-1] if ents else None
        if outcome == 'ok' and ent is not None and \
                ent['target'] == 'candidate':
            try:
                m.commit()
            except Exception as e:
                if not transport_failure(e):
                    raise
                outcome = 'lost'
        if outcome == 'lost':
            self.recover()
        return ent, outcome, err

    def discard(self):
        if self.dev.candidate:
            self.attempt(lambda: self.m.discard_changes())


def transport_failure(e):
    import ncclient
    from ncclient.operations.rpc import RPCError
    from ncclient.operations.errors import TimeoutExpiredError
    from ncclient.transport.errors import TransportError
    if isinstance(e, RPCError):
        return 'injected' in str(e.message or '')
    return isinstance(e, (TimeoutExpiredError, TransportError))


def rpc_error(e):
    from ncclient.operations.rpc import RPCError
    return isinstance(e, RPCError)


# ------------------------------------------------------------------- options
def options(r):
    o = {'preferred_create': r.choice(('merge', 'create', 'replace')),
         'preferred_replace': r.choice(('merge', 'replace')),
         'preferred_delete': r.choice(('delete', 'remove'))}
    if r.random() < 0.4:
        o['diff_type'] = 'replace'
        o['replace_depth'] = r.choice((0, 1, 2, 3))
    return o


def to_el(x):
    """A payload as the device would see it: serialised and parsed again."""
    return etree.fromstring(etree.tostring(x))


def next_state(w, r, cur, seen):
    x = r.random()
    w.st.r = r
    if x < 0.6:
        return w.st.mutate(cur)
    if x < 0.75:
        return w.st.state()
    if x < 0.85 and seen:
        return S.clone(r.choice(seen))
    if x < 0.9:
        return {}
    if x < 0.95:
        return S.clone(cur)
    return permute(w.schema, cur, r)


def permute(schema, st, r):
    """Only the order of user-ordered entries changes."""
    def f(kids, st):
        out = {}
        for n in kids:
            if n.q not in st:
                continue
            v = S.clone(st[n.q])
            if n.kind == 'container':
                v = f(n.data_children(), v)
            elif n.kind == 'list':
                v = [f(n.data_children(), e) for e in v]
            if n.user:
                r.shuffle(v)
            out[n.q] = v
        return out
    return S.canon(schema, f(schema.roots, st))


# ---------------------------------------------------------- random payloads
class Payload:
    """A random edit-config payload, written straight from the schema: any
    mixture of operations and insertions, aimed at a state near `near`."""

    def __init__(self, w, r, near):
        self.w = w
        self.r = r
        self.near = near
        self.n = 0

    def build(self):
        w = self.w
        st = S.States(w.schema, self.r)
        content = st.mutate(self.near) if self.r.random() < 0.8 else \
            st.state()
        ren = D.Renderer(w.schema,
                         lambda l, n: 1 if l == 'overdecl' else 0)
        text = '<config xmlns="%s" xmlns:nc="%s" xmlns:yang="%s">%s</config>' \
            % (D.NC, D.NC, D.YANG, ren.document(content))
        root = etree.fromstring(text)
        self.children(root, w.schema.roots, self.near, False)
        if self.r.random() < 0.15:
            for e in list(root.iter()):
                if len(e) and self.r.random() < 0.4:
                    e.insert(self.r.randrange(len(e) + 1),
                             etree.Comment(' note '))
                elif e.text and self.r.random() < 0.2:
                    i = self.r.randrange(len(e.text) + 1)
                    c = etree.Comment(' note ')
                    e.text, c.tail = e.text[:i], e.text[i:]
                    e.append(c)
        return root

    def children(self, el, kids, near, inside):
        r = self.r
        for c in list(el):
            n = D.find(kids, c.tag)
            if S.is_key(n):
                continue
            if not inside and r.random() < 0.35:
                el.remove(c)
                continue
            self.node(c, n, near, inside)
        if not inside:
            self.missing(el, kids, near)

    def missing(self, el, kids, near):
        """Deletions of things that are (or are not) there."""
        r = self.r
        for n in kids:
            if not n.config or S.is_key(n) or r.random() > 0.15:
                continue
            if el.find(n.q) is not None:
                continue
            op = r.choice(('delete', 'remove'))
            have = isinstance(near, dict) and n.q in near
            if not have and r.random() < 0.6:
                continue
            if n.kind in ('leaf', 'container'):
                c = etree.SubElement(el, n.q, nsmap={None: n.mod.ns})
                c.set(D.OP, op)
                continue
            st = S.States(self.w.schema, r)
            if n.kind == 'leaf-list':
                v = r.choice(near[n.q]) if have else st.value(n.type)
                self.value_el(el, n, v).set(D.OP, op)
            else:
                e = r.choice(near[n.q]) if have else st.entry(n)
                c = etree.SubElement(el, n.q, nsmap={None: n.mod.ns})
                c.set(D.OP, op)
                for k in n.keys:
                    kn = D.find(n.children, '{%s}%s' % (n.mod.ns, k))
                    self.value_el(c, kn, e[kn.q])

    def value_el(self, el, n, v):
        ns = {None: n.mod.ns}
        text = v
        if isinstance(v, tuple) and v[0] == 'iid':
            for u in sorted({u for u, _, _ in v[1]}):
                ns['i%d' % self.n] = u
                self.n += 1
            text = self.iid(v, {u: p for p, u in ns.items() if p})
        elif isinstance(v, tuple):
            ns['i%d' % self.n] = v[0]
            text = 'i%d:%s' % (self.n, v[1])
            self.n += 1
        c = etree.SubElement(el, n.q, nsmap=ns)
        c.text = text
        return c

    def node(self, el, n, near, inside):
        r = self.r
        have = near.get(n.q) if isinstance(near, dict) else None
        op = None
        if not inside:
            x = r.random()
            if x < 0.2:
                op = 'replace'
            elif x < 0.35:
                op = 'create'
            elif x < 0.4:
                op = 'merge'
            elif x < 0.5 and n.kind != 'leaf-list':
                op = r.choice(('delete', 'remove'))
            elif x < 0.6 and n.kind == 'leaf-list':
                op = r.choice(('delete', 'remove'))
            elif x > 0.992:
                op = 'update'       # there is no such operation
        if op is not None:
            el.set(D.OP, op)
        if n.user and not inside and op not in ('delete', 'remove') and \
                r.random() < 0.6:
            self.insertion(el, n, near)
        if op in ('delete', 'remove'):
            if n.kind == 'list':
                keys = ['{%s}%s' % (n.mod.ns, k) for k in n.keys]
                for c in list(el):
                    if c.tag not in keys:
                        el.remove(c)
            elif n.kind == 'container':
                for c in list(el):
                    el.remove(c)
            return
        if n.kind == 'container':
            if op == 'replace' and r.random() < 0.25:
                return              # by nothing
            self.children(el, n.data_children(), have or {},
                          inside or op in ('replace', 'create'))
        elif n.kind == 'list':
            sub = {}
            k = self.key(el, n)
            for e in (have or ()):
                if S.keyof(n, e) == k:
                    sub = e
            self.children(el, n.data_children(), sub,
                          inside or op in ('replace', 'create'))

    def key(self, el, n):
        out = {}
        for k in n.keys:
            c = el.find('{%s}%s' % (n.mod.ns, k))
            out[c.tag] = D.decode(D.find(n.children, c.tag), c)
        return S.keyof(n, out)

    def insertion(self, el, n, near):
        r = self.r
        how = r.choice(('first', 'last', 'before', 'after'))
        if r.random() < 0.01:
            how = 'middle'          # there is no such place
        el.set(D.INSERT, how)
        if how in ('first', 'last') or r.random() < 0.01:
            return
        have = near.get(n.q) if isinstance(near, dict) else None
        # other entries of the same payload may serve as anchors too
        par = el.getparent()
        peers = [c for c in par if c.tag == el.tag and c is not el and
                 c.get(D.OP) not in ('delete', 'remove')]
        if n.kind == 'leaf-list':
            vals = [v for v in (have or ())]
            vals += [D.decode(n, c) for c in peers]
            me = D.decode(n, el)
            vals = [v for v in vals if v != me]
            st = S.States(self.w.schema, r)
            v = r.choice(vals) if vals and r.random() < 0.9 else \
                st.value(n.type)
            el.set(D.VALUE, self.word(v, el))
        else:
            ents = [{k: e[k] for k in self.ktags(n)} for e in (have or ())]
            for c in peers:
                ents.append({k: D.decode(D.find(n.children, k), c.find(k))
                             for k in self.ktags(n)})
            me = self.key(el, n)
            ents = [e for e in ents if S.keyof(n, e) != me]
            st = S.States(self.w.schema, r)
            e = r.choice(ents) if ents and r.random() < 0.9 else st.entry(n)
            if any("'" in str(e[k]) and '"' in str(e[k])
                   for k in self.ktags(n)):
                el.set(D.INSERT, 'last')
                return
            pfx = self.prefix(el, n.mod.ns)
            out = ''
            for k in n.keys:
                v = self.word(e['{%s}%s' % (n.mod.ns, k)], el)
                q = '"' if "'" in v else "'"
                out += '[%s:%s=%s%s%s]' % (pfx, k, q, v, q)
            el.set(D.KEY, out)

    def ktags(self, n):
        return ['{%s}%s' % (n.mod.ns, k) for k in n.keys]

    def prefix(self, el, ns):
        for p, u in el.nsmap.items():
            if u == ns and p is not None:
                return p
        raise NoPrefix(ns)

    @staticmethod
    def iid(v, prefixes):
        out = ''
        for ns, name, preds in v[1]:
            out += '/%s:%s' % (prefixes[ns], name)
            for kns, kname, kv in preds:
                if not kname:
                    out += '[%s]' % kv
                    continue
                q = '"' if "'" in kv else "'"
                out += '[%s=%s%s%s]' % (
                    kname if kname == '.' else
                    '%s:%s' % (prefixes[kns], kname), q, kv, q)
        return out

    def word(self, v, el):
        if isinstance(v, tuple) and v[0] == 'iid':
            return self.iid(v, {ns: self.prefix(el, ns)
                                for ns, _, _ in v[1]})
        if isinstance(v, tuple):
            return '%s:%s' % (self.prefix(el, v[0]), v[1])
        return v


class NoPrefix(Exception):
    pass


def pretty(el):
    return etree.tostring(el, encoding='unicode', pretty_print=True)


def show(st):
    return json.dumps(st, sort_keys=True, ensure_ascii=False)[:900]
