"""C18: discovery of loadable models over a device whose sources fail in every
combination, with retries, reconnects and several threads asking at once."""
from lxml import etree

from . import device as D
from . import net

HOW = ('ok', 'ok', 'ok', 'error', 'silent', 'late', 'drop', 'drop_after',
       'okonly', 'warn')
NAMES = ['m', 'a-b', 'a_b', 'a.b', 'Z9', '_x', 'ietf-ip', 'Cisco-IOS-XE_x.y',
         'openconfig-acl', 'module', 'x-module', 'yang', 'n0', 'n1', 'n2',
         'revision', 'features', 'q.r_s-t', 'A', 'aa', 'ab', 'a']
VENDOR = ['http://sim.net/ns/x?submodule=not-a-module&revision=2020-01-01',
          'urn:ietf:params:netconf:capability:xpath:1.0',
          'urn:ietf:params:netconf:capability:with-defaults:1.0'
          '?basic-mode=trim&also-supported=report-all',
          'http://sim.net/path/module-list?revision=2020-02-02',
          'urn:x:supermodule=abc']


def plan(prop, r, tier):
    names = r.sample(NAMES, r.randrange(1, 9))
    caps = [n for n in names if r.random() < 0.8] or names[:1]
    lib = [n for n in names if r.random() < 0.8]
    cfg = {'preempt': r.choice((10, 40, 200)),
           'monitoring': r.random() < 0.75, 'yanglib': r.random() < 0.6,
           'base11': r.random() < 0.3}
    ops = []
    for _ in range(r.randrange(1, 4)):
        ops.append({'mon': r.choice(HOW), 'lib': r.choice(HOW),
                    'threads': r.choice((1, 1, 1, 2, 3)),
                    'mode': r.choice((0, 1, 2)),
                    'again': r.random() < 0.5})
    extra = [v for v in VENDOR if r.random() < 0.4]
    return {'cfg': cfg, 'names': names, 'lib': lib, 'caps': caps,
            'form': r.randrange(6), 'vendor': extra, 'ops': ops}


class Device(D.SimDevice):
    behave = None

    def source(self, rpc):
        for e in rpc.iter('{%s}netconf-state' % D.NCM):
            return 'mon'
        for e in rpc.iter('{%s}modules-state' % D.YLIB):
            return 'lib'
        return None

    def arrive(self, sock, msg):
        if sock.eof or sock.closed:
            return
        rpc = etree.fromstring(msg)
        src = self.source(rpc)
        if src is None:
            return super().arrive(sock, msg)
        how = self.behave[src]
        self.asked.append((src, how))
        if how != 'ok':
            self.sim.fault('discovery_' + how)
        if how == 'drop':
            return self.drop(sock)
        lst = self.plan['names' if src == 'mon' else 'lib']
        body = self.schemas(lst) if src == 'mon' else self.modules(lst)
        if how == 'error':
            body = self.error('operation-failed', 'sim')
        elif how == 'okonly':
            body = '<ok/>'
        elif how == 'warn':
            # a reply that carries an error next to data is an error
            body = self.error('partial-operation', 'sim') + body
        if how == 'drop_after':
            return self.drop(sock)
        if how == 'silent':
            return
        d = self.lat('rep') + (40 if how == 'late' else 0)
        rep = self.wrap(rpc, body)
        self.sim.at(d, lambda: sock.deliver(rep))

    def schemas(self, names):
        pf = self.pick('pf', 2)
        sp = '\n   ' if self.pick('sp', 2) else ''
        t = (lambda x: 'ncm:' + x) if pf else (lambda x: x)
        out = ''
        for n in self.order_names(names):
            out += ('%s<%s><%s>%s</%s><%s>2020-01-01</%s><%s>yang</%s></%s>'
                    % (sp, t('schema'), t('identifier'), n, t('identifier'),
                       t('version'), t('version'), t('format'), t('format'),
                       t('schema')))
        return '<data><%s xmlns%s="%s">%s<%s>%s</%s></%s></data>' % (
            t('netconf-state'), ':ncm' if pf else '', D.NCM, sp,
            t('schemas'), out, t('schemas'), t('netconf-state'))

    def modules(self, names):
        sp = '\n   ' if self.pick('sp', 2) else ''
        out = ''
        for n in self.order_names(names):
            sub = ''
            if self.pick('sub', 2):
                sub = ('<submodule><name>%s-sub</name><revision/></submodule>'
                       % n)
            out += ('%s<module><name>%s</name><revision>2020-01-01'
                    '</revision>%s</module>' % (sp, n, sub))
        return '<data><modules-state xmlns="%s">%s</modules-state></data>' \
            % (D.YLIB, out)

    def capabilities(self):
        base = super().capabilities()
        out = []
        for n in self.plan['caps']:
            i = self.plan['form']
            ns = ('urn:sim:%s', 'http://sim.net/%s')[i % 2] % n
            q = ['module=%s' % n, 'revision=2020-01-01', 'features=f-1,f_2']
            if i // 2 == 1:
                q = [q[1], q[0]]
            elif i // 2 == 2:
                q = [q[0]]
            out.append(ns + '?' + '&'.join(q))
        return base + out + self.plan['vendor']


def run(run):
    status, val = run.sim.incarnation(lambda: client(run), 'client')
    if status == 'raised':
        raise val


def named(caps):
    """Modules the hello names: the module parameter of a capability."""
    out = set()
    for c in caps:
        if '?' in c:
            for p in c.split('?', 1)[1].split('&'):
                if p.startswith('module='):
                    out.add(p[7:])
    return out


def client(run):
    sim, plan = run.sim, run.plan
    dev = Device(sim, None, monitoring=run.cfg['monitoring'],
                 yanglib=run.cfg['yanglib'], base11=run.cfg['base11'],
                 render=True, texts={})
    dev.plan = plan
    for i, op in enumerate(plan['ops']):
        dev.behave = {'mon': op['mon'], 'lib': op['lib']}
        dev.asked = []
        m = net.connect(sim, dev, timeout=30, raise_mode=op['mode'])
        clean = op['mon'] == 'ok' and op['lib'] == 'ok'
        nthr = op['threads'] if clean else 1
        res = []

        def ask():
            got = m.models_loadable
            res.append((list(got), dev.asked[:]))
            if op['again']:
                res.append((list(m.models_loadable), None))
        if nthr == 1:
            ask()
        else:
            ts = [sim.spawn(ask, name='asker') for _ in range(nthr)]
            for t in ts:
                sim.join(t)
                if t.exc is not None:
                    raise t.exc
        dead = False
        want, src = None, 'hello'
        for s in ('mon', 'lib'):
            if not run.cfg['monitoring' if s == 'mon' else 'yanglib']:
                continue
            how = op[s]
            if not dead and (how == 'ok' or (how == 'warn' and
                                             op['mode'] == 0 and False)):
                want, src = set(plan['names' if s == 'mon' else 'lib']), s
                break
            if how in ('drop', 'drop_after'):
                dead = True
        if want is None:
            want = named(dev.capabilities())
        run.probe('source_' + src)
        for got, asked in res:
            run.check(set(got) == want, 'wrong list of models',
                      lambda: 'round %d from %s: %s\nexpected %s (%s)'
                      % (i, src, got, sorted(want), op))
            run.check(got == sorted(got), 'list of models not sorted',
                      lambda: str(got))
            run.check(len(got) == len(set(got)), 'repeated models',
                      lambda: str(got))
            run.saw(src, sorted(want), op['mon'], op['lib'], op['mode'],
                    nthr)
        if op['again'] and m.connected:
            # the answer stays, whatever the sources do later
            dev.behave = {'mon': 'error', 'lib': 'error'}
            got = list(m.models_loadable)
            run.check(set(got) == want, 'list of models changed',
                      lambda: '%s\nexpected %s' % (got, sorted(want)))
        dev.drop_all()
