"""C07: what callers pass is what the device receives, and what comes back
reaches the caller that asked."""
import threading

from lxml import etree

from . import device as D
from . import schema as S
from .world import (World, Payload, NoPrefix, base_cfg, net_faults, options,
                    next_state, pretty, show, transport_failure, rpc_error)

SPECIAL = ('nc', 'yang', 'tailf', 'ncEvent')
UNKNOWN = ['urn:other:one', 'http://other.org/two', 'urn:other:three']


def plan(prop, r, tier):
    cfg = base_cfg(r, tier)
    cfg['faults'] = net_faults(r, 0.05)
    cfg['callers'] = r.choice((1, 2, 3, 4))
    cfg['preempt'] = r.choice((0, 200, 600))
    cfg['timeout'] = r.choice((5, 10, 30))
    cfg['raise_mode'] = r.choice((0, 1, 2))
    cfg['clash'] = r.random() < 0.3
    cfg['notify'] = r.random() < 0.5
    cfg['fault_budget'] = r.choice((2, 4, 8))
    n = r.randrange(4, 9) if tier == 'quick' else r.randrange(6, 20)
    kinds = ['edit'] * 6 + ['get', 'get', 'get-config', 'get-config', 'bad',
                            'other', 'refused', 'close']
    return {'cfg': cfg,
            'ops': [{'k': r.choice(kinds), 's': r.randrange(1 << 30),
                     'c': r.randrange(4)} for _ in range(n)]}


def run(run):
    status, val = run.sim.incarnation(lambda: client(run), 'client')
    if status == 'raised':
        raise val


def rename_prefix(run, schema):
    """Two modules that nobody imports both use one prefix."""
    r = run.rng('clash')
    ms = [m for m in schema.modules]
    if len(ms) < 2:
        return
    a, b = r.sample(ms, 2)
    if a.prefix in b.imports.values():
        return
    b.prefix = r.choice((a.prefix, a.prefix, 'ns00', 'nc'))
    run.probe('prefix_clash')


class Wire(World):
    def __init__(self, run):
        schema = S.Gen(run.rng('schema'), run.cfg.get('gen')).schema()
        if run.cfg['clash']:
            rename_prefix(run, schema)
        super().__init__(run, schema=schema)
        self.payloads = {}


def client(run):
    w = Wire(run)
    cfg = run.cfg
    w.dev.running = w.st.state()
    w.dev.cand = S.clone(w.dev.running)
    w.dev.error_mid = True
    w.dev.extra_caps.append('urn:ietf:params:netconf:capability:validate:1.1')
    w.norollback = run.rng('caps').random() < 0.5
    if not w.norollback:
        w.dev.extra_caps.append(
            'urn:ietf:params:netconf:capability:rollback-on-error:1.0')
    w.connect()
    w.m.timeout = cfg['timeout']
    w.m.raise_mode = cfg['raise_mode']
    sim = run.sim
    notes = []
    if cfg['notify']:
        listen(run, w, notes)
    nc = cfg['callers']

    def caller(k):
        for op in run.plan['ops']:
            if op['c'] % nc == k:
                one(run, w, op, k)
    if nc == 1:
        caller(0)
    else:
        ts = [sim.spawn(lambda k=k: caller(k), name='caller%d' % k)
              for k in range(nc)]
        for t in ts:
            sim.join(t)
            if t.exc is not None:
                raise t.exc
    if cfg['notify']:
        check_notes(run, w, notes)
    w.dev.quiet = True
    w.sim.sleep(200)      # late replies must not disturb a later request
    if w.m.connected:
        w.m.timeout = 30
        rep = w.m.get_config(models=w.with_config)
        check_reply(run, w, rep, 'get-config', {r.q for r in w.schema.roots
                                                if r.config})


# ------------------------------------------------------------- notifications
def listen(run, w, notes):
    r = run.rng('notify')
    sim = run.sim

    def fire(i):
        urls = [m.ns for m in w.schema.modules] + UNKNOWN
        u = [r.choice(urls) for _ in range(3)]
        body = '<event xmlns="%s" id="%d"><p:x xmlns:p="%s"/><y xmlns="%s"/>' \
               '</event>' % (u[0], i, u[1], u[2])
        if w.dev.socks:
            notes.append((i, set(u)))
            w.dev.notify(body)
    for i in range(r.randrange(1, 4)):
        sim.at(r.choice((0.01, 0.5, 3, 20)), lambda i=i: fire(i))


def check_notes(run, w, notes):
    got = []
    if not w.m.connected:
        return
    w.sim.sleep(60)
    while True:
        n = w.m.take_notification(block=True, timeout=1)
        if n is None:
            break
        root = n._root_ele
        check_ns(run, w, n.ns, root)
        got.append(int(root[-1].get('id')))
    sent = [i for i, _ in notes]
    if w.m.connected:
        run.check(sorted(got) == sorted(sent), 'notification lost or repeated',
                  lambda: 'sent %s taken %s' % (sent, got))
    run.saw('notifications', tuple(got))


# ------------------------------------------------------------------- reading
def read(run, w, r, kind, k):
    m = w.m
    readable = sorted({x.mod.name for x in w.schema.roots})
    models = r.sample(w.with_config, r.randrange(1, len(w.with_config) + 1))
    if kind == 'get' and r.random() < 0.5:
        models = r.sample(readable, r.randrange(1, len(readable) + 1))
    want = {x.q for x in w.schema.roots if x.mod.name in models and
            (x.config or kind == 'get')}
    kw, args, source = {}, (), None
    form = r.choice(('list', 'list', 'tuple', 'set', 'one', 'none', 'filter',
                     'both'))
    if form == 'one':
        models = models[:1]
        want = {x.q for x in w.schema.roots if x.mod.name in models and
                (x.config or kind == 'get')}
        kw['models'] = models[0]
    elif form == 'none':
        want = None
    if form in ('filter', 'both'):
        tags = r.sample(sorted(x.q for x in w.schema.roots if x.config),
                        1)
        el = etree.Element('{%s}filter' % D.NC, type='subtree')
        for t in tags:
            etree.SubElement(el, t)
        kw['filter'] = el
        if form == 'filter':
            want = set(tags)
    if form in ('list', 'both'):
        kw['models'] = list(models)
    elif form == 'tuple':
        kw['models'] = tuple(models)
    elif form == 'set':
        kw['models'] = set(models)
    if kind == 'get-config':
        source = 'running'
        x = r.random()
        if x < 0.5:
            source = r.choice(('running', 'candidate')) \
                if w.dev.candidate else 'running'
            if x < 0.25:
                args = (source,)
            else:
                kw['source'] = source
    name = kind.replace('-', '_')
    how = r.choice(('method', 'method', 'execute', 'class'))
    if how == 'method':
        fn = lambda: getattr(m, name)(*args, **kw)
    elif how == 'execute':
        fn = lambda: m.execute(name, *args, **kw)
    else:
        from ncclient import operations
        cls = {'get': operations.retrieve.Get,
               'get_config': operations.retrieve.GetConfig}[name]
        fn = lambda: m.execute(cls, *args, **kw)
    rep = call(run, w, fn, k)
    if rep is not None and rep.ok:
        check_reply(run, w, rep, kind, want, source)
        run.saw('read', kind, form, how, source)


def other(run, w, r, k):
    """Operations that ncdiff passes through."""
    m = w.m
    name = r.choice(('lock', 'unlock', 'validate', 'commit',
                     'discard_changes'))
    if name in ('commit', 'discard_changes') and not w.dev.candidate:
        name = 'lock'
    args = ()
    if name in ('lock', 'unlock', 'validate'):
        args = ('candidate' if w.dev.candidate and r.random() < 0.5
                else 'running',)
    if r.random() < 0.5:
        fn = lambda: getattr(m, name)(*args)
    else:
        fn = lambda: m.execute(name, *args)
    rep = call(run, w, fn, k)
    if rep is None:
        return
    ent = w.dev.served.get(rep._root.get('message-id'))
    if ent is None and not rep.ok:
        return
    run.check(ent is not None and ent['op'] == name.replace('_', '-') and
              ent.get('store') == (args[0] if args else None),
              'reply of another request',
              lambda: '%s %s answered with %s' % (name, args, ent))
    check_ns(run, w, rep.ns, rep._root)
    run.saw('other', name)


def refused(run, w, r):
    """Requests that must not leave the client."""
    from ncdiff.errors import ModelMissing
    m = w.m
    state_only = sorted({x.mod.name for x in w.schema.roots} -
                        set(w.with_config))
    rootless = sorted(set(w.models) - {x.mod.name for x in w.schema.roots})
    name = r.choice(('get', 'get_config'))
    bad = r.choice(('nosuch', 'state', 'operation'))
    if bad == 'nosuch':
        ms = ['no-such-model'] + r.sample(w.with_config, r.randrange(
            0, len(w.with_config)))
        r.shuffle(ms)
        err = ModelMissing
        fn = lambda: m.execute(name, models=ms)
    elif bad == 'state':
        # nothing to configure, or nothing at all, in these models
        ms = rootless + (state_only if name == 'get_config' else [])
        if not ms:
            return
        ms = r.sample(ms, r.randrange(1, len(ms) + 1))
        err = ValueError
        fn = lambda: m.execute(name, models=ms)
    else:
        err = ValueError
        fn = lambda: m.execute(r.choice(('get-config', 'put', 'edit')))
    n = len(w.dev.requests) if run.cfg['callers'] == 1 else None
    try:
        fn()
    except err as e:
        run.probe('refused_' + bad)
        if bad == 'nosuch':
            run.check('no-such-model' in str(e), 'error without the model',
                      lambda: str(e))
    except Exception as e:
        run.fail('wrong refusal', lambda: '%s: %s: %s' % (
            bad, type(e).__name__, e))
    else:
        run.fail('request not refused', bad)
    if n is not None:
        w.sim.sleep(5)
        run.check(len(w.dev.requests) == n, 'refused request was sent',
                  lambda: str(w.dev.requests[n:]))


# -------------------------------------------------------------- one request
def one(run, w, op, k):
    r = run.rng('op/%s' % op['s'])
    sim = run.sim
    kind = op['k']
    if kind == 'close':
        # the session drops under everybody
        if r.random() < 0.3:
            w.dev.drop_all()
            sim.fault('device_restart')
        else:
            kind = 'edit'
    if kind == 'close':
        return
    m = w.m
    if not m.connected:
        t0 = sim.now - sim.computed
        try:
            m.get(models=w.with_config)
        except Exception as e:
            run.check(transport_failure(e), 'wrong error on a closed session',
                      lambda: '%s: %s' % (type(e).__name__, e))
            run.check(sim.now - sim.computed - t0 <= m.timeout + 1, 'caller waits too long',
                      lambda: '%.1f s on a closed session' % (sim.now - sim.computed - t0))
            run.saw('closed', type(e).__name__)
            return
        run.fail('reply on a closed session')
    if kind in ('get', 'get-config'):
        read(run, w, r, kind, k)
        return
    if kind == 'other':
        other(run, w, r, k)
        return
    if kind == 'refused':
        refused(run, w, r)
        return
    # edits
    w.st.r = r
    kw = {}
    near = w.dev.running
    if kind == 'bad' or r.random() < 0.4:
        try:
            el = Payload(w, r, near).build()
        except NoPrefix:
            return
        form = r.choice(('element', 'kwarg'))
    else:
        dst = next_state(w, r, near, [])
        cfg = w.config(dst, 'w/%s' % op['s'])
        x = r.random()
        if x < 0.35:
            from ncdiff import ConfigDelta
            src = w.config(near, 'src/%s' % op['s'])
            el = ConfigDelta(src, cfg, **options(r)).nc
            form = r.choice(('element', 'kwarg', 'text'))
        else:
            el = cfg.ele
            form = r.choice(('config', 'config', 'kwconfig', 'element', 'text'))
            if 'config' in form:
                kw['_config'] = cfg
    mark = '%d' % op['s']
    for e in el.iter():      # make the payload recognisable
        if len(e) == 0 and e.text and isinstance(e.tag, str) and \
                r.random() < 0.2:
            pass
    want = canon_payload(el)
    if r.random() < 0.4:
        kw['target'] = r.choice(('running', 'candidate'))
    extra = {}
    if r.random() < 0.3:
        extra['default_operation'] = r.choice(('merge', 'replace', 'none'))
    if r.random() < 0.3:
        extra['error_option'] = r.choice((
            'stop-on-error', 'continue-on-error', 'rollback-on-error'))
    if r.random() < 0.2:
        extra['test_option'] = r.choice(('test-then-set', 'set'))
    cfgobj = kw.pop('_config', None)
    arg = cfgobj if form == 'config' else el
    if form == 'text':
        arg = etree.tostring(el, encoding='unicode')
    if 'target' in kw and form != 'kwarg' and form != 'kwconfig' and \
            r.random() < 0.3:
        fn = lambda: m.edit_config(arg, 'xml', kw['target'], **extra)
        if r.random() < 0.3:
            fn = lambda: m.edit_config(
                arg, 'xml', kw['target'], extra.get('default_operation'),
                extra.get('test_option'), extra.get('error_option'))
    elif form in ('element', 'text', 'config') and r.random() < 0.2:
        fn = lambda: m.edit_config(arg, 'xml', **kw, **extra)
    elif form == 'kwconfig':
        fn = lambda: m.edit_config(config=cfgobj, **kw, **extra)
    elif form == 'kwarg':
        fn = lambda: m.edit_config(config=arg, **kw, **extra)
    else:
        fn = lambda: m.edit_config(arg, **kw, **extra)
    if r.random() < 0.15 and form not in ('kwarg', 'kwconfig'):
        from ncclient import operations
        what = r.choice(('edit_config', operations.edit.EditConfig))
        fn = lambda: m.execute(what, arg, **kw, **extra)
    n0 = len(w.dev.history)
    rollback = extra.get('error_option') == 'rollback-on-error' and \
        w.norollback
    rep = call(run, w, fn, k, want, kw.get('target'), rollback)
    run.check(not rollback or rep is None, 'request not refused',
              lambda: 'rollback-on-error')
    # what the device saw
    mine = [e for e in w.dev.history[n0:]
            if canon_payload(etree.fromstring(e['config'])) == want]
    if rep is not None:
        mid = rep._root.get('message-id')
        e = w.dev.served.get(mid)
        if e is None and not rep.ok:
            check_target(run, str(rep.error and rep.error.message or ''),
                         kw.get('target'))
            run.probe('error_reply')
            return
        run.check(e is not None and e.get('op') == 'edit',
                  'reply of another request',
                  lambda: 'edit answered with %s' % (e and e.get('op')))
        got = canon_payload(etree.fromstring(e['config']))
        run.check(got == want, 'payload changed on the way',
                  lambda: 'passed %s\nreceived %s' % (want, got))
        run.check((e['error'] is None) == rep.ok, 'outcome differs',
                  lambda: 'device %s reply.ok %s' % (e['error'], rep.ok))
        exp = kw.get('target')
        if exp is None:
            exp = 'running' if w.dev.writable_running and \
                not w.dev.candidate else 'candidate'
        run.check(e['target'] == exp, 'wrong datastore',
                  lambda: 'wanted %s, device got %s (candidate %s writable '
                  '%s)' % (exp, e['target'], w.dev.candidate,
                           w.dev.writable_running))
        raw = etree.fromstring(e['raw_op'])
        for x in ('default', 'test', 'error'):
            x += '-operation' if x == 'default' else '-option'
            d = raw.findtext('{%s}%s' % (D.NC, x))
            run.check(d == extra.get(x.replace('-', '_')), 'option lost',
                      lambda: '%s %s' % (extra, d))
        check_ns(run, w, rep.ns, rep._root)
        run.saw('edit', form, exp, want)
        run.sample('%s to %s: %s' % (form, exp, pretty(el)[:400]))
    elif not mine and len(w.dev.history) > n0:
        run.probe('other_requests_only')


def call(run, w, fn, k, want=None, target=None, rollback=False):
    """Issue one request; the outcome must arrive in time."""
    sim = run.sim
    m = w.m
    t0 = sim.now - sim.computed
    try:
        rep = fn()
        run.probe('replied')
    except Exception as e:
        run.check(sim.now - sim.computed - t0 <= m.timeout + 1, 'caller waits too long',
                  lambda: '%.1f s, timeout %s' % (sim.now - sim.computed - t0, m.timeout))
        if transport_failure(e):
            run.probe('transport_failure')
            return None
        if rpc_error(e):
            check_error(run, w, e, want)
            check_target(run, str(e.message or ''), target)
            run.probe('rpc_error')
            return None
        if e.__class__.__name__ == 'MissingCapabilityError':
            # ncclient knows what the device cannot do
            run.check(rollback and 'rollback-on-error' in str(e) or
                      target == 'candidate' and not w.dev.candidate or
                      target == 'running' and not w.dev.writable_running,
                      'request refused',
                      lambda: '%s; target %s, candidate %s, writable %s' % (
                          e, target, w.dev.candidate,
                          w.dev.writable_running))
            run.probe('refused')
            return None
        raise
    run.check(sim.now - sim.computed - t0 <= m.timeout + 1, 'caller waits too long',
              lambda: '%.1f s, timeout %s' % (sim.now - sim.computed - t0, m.timeout))
    return rep


def check_target(run, text, target):
    """A device does not miss a datastore that nobody asked it to edit."""
    for name, says in (('candidate', 'no candidate'),
                       ('running', 'running is not writable')):
        run.check(says not in text or target == name, 'wrong datastore',
                  lambda: 'target %s: %s' % (target, text))


def check_error(run, w, e, want):
    """An rpc-error carries the id of the request it answers."""
    text = str(e.message or '')
    if 'mid=' not in text:
        return
    mid = text.split('mid=')[1].split()[0]
    ent = w.dev.served.get(mid)
    if ent is None or want is None or 'config' not in ent:
        return
    got = canon_payload(etree.fromstring(ent['config']))
    run.check(got == want, 'reply of another request',
              lambda: 'the error answers %s\nnot %s' % (got, want))
    run.saw('error', text.split('mid=')[0], want)


def check_reply(run, w, rep, kind, want, source=None):
    mid = rep._root.get('message-id')
    ent = w.dev.served.get(mid)
    run.check(ent is not None and ent['op'] == kind,
              'reply of another request',
              lambda: '%s answered with %s' % (kind, ent and ent['op']))
    have = None if ent['filter'] is None else set(ent['filter'])
    run.check(have == want, 'reply of another request',
              lambda: 'asked %s, reply answers %s' % (
                  want and sorted(want), ent['filter']))
    if source is not None:
        run.check(ent['source'] == source, 'wrong datastore',
                  lambda: 'asked for %s, device read %s' % (
                      source, ent['source']))
    sent = etree.fromstring('<data xmlns="%s">%s</data>' % (D.NC, ent['doc']))
    got = rep._root.find('{%s}data' % D.NC)
    run.check(got is not None and canon_payload(got) == canon_payload(sent),
              'reply changed on the way',
              lambda: 'sent %s\ngot %s' % (pretty(sent)[:1500],
                                           pretty(rep._root)[:1500]))
    check_ns(run, w, rep.ns, rep._root)
    run.saw(kind, tuple(sorted(want or ())), ent['state'])


def check_ns(run, w, ns, root):
    urls = set()
    for n in root.iter():
        if isinstance(n.tag, str):
            urls.update(u for u in n.nsmap.values())
    missing = urls - set(ns.values())
    run.check(not missing, 'namespace unreachable',
              lambda: '%s not in %s' % (sorted(missing), ns))
    claimed = {m.ns: m.prefix for m in w.schema.modules}
    for p, u in ns.items():
        run.check(isinstance(p, str) and p, 'bad prefix', lambda: repr(ns))
    for u in sorted(urls):
        if u in claimed and claimed[u] not in SPECIAL and \
                sum(claimed[x] == claimed[u] for x in claimed) == 1:
            run.check(ns.get(claimed[u]) == u, 'wrong prefix',
                      lambda: '%s is %s in the model, mapping %s'
                      % (u, claimed[u], ns))
    # usable for xpath
    t = root.xpath('//*', namespaces=ns)
    run.check(len(t) > 0, 'mapping unusable')


def canon_payload(el):
    """Element for element content, prefixes in text resolved."""
    def text(e):
        t = (e.text or '') + ''.join(
            c.tail or '' for c in e if not isinstance(c.tag, str))
        if any(isinstance(c.tag, str) for c in e):
            t = t.strip()
        if ':' in t:
            p, rest = t.split(':', 1)
            if p in e.nsmap:
                return '{%s}%s' % (e.nsmap[p], rest)
        elif t and len(e) == 0 and not t[0].isdigit():
            return t
        return t
    return (el.tag, text(el), tuple(sorted(el.attrib.items())),
            tuple(canon_payload(c) for c in el if isinstance(c.tag, str)))
