"""Scanning: C08 (a folder is reused only when complete), C09 (every schema
exactly once), C10 (scanning always returns).

One simulated device that may be upgraded, a folder on a simulated disk, and a
history of client processes that connect, scan and load, and may crash."""
import copy
import os

from lxml import etree

from . import core
from . import device as D
from . import disk
from . import net
from . import schema as S
from . import yangtext as Y

GOODNAME = 'abcdefghijklmnopqrstuvwxyz'


# ------------------------------------------------------------------ versions
class Version:
    """What a device runs: schema texts and the modules in its hello."""

    def __init__(self, schema, texts=None):
        self.schema = schema
        self.texts = dict(schema.texts() if texts is None else texts)
        self.listed = None
        self.refused = set()
        self.caps = []

    def install(self, dev):
        dev.schema = self.schema
        dev.texts = {k: v for k, v in self.texts.items()
                     if k not in self.refused}
        dev.listed = self.names()
        dev.extra_caps = list(self.caps)

    def names(self):
        return sorted(self.texts if self.listed is None else self.listed)

    def closure(self):
        """Every name a scan has to ask for."""
        todo, seen = list(self.names()), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in self.texts and n not in self.refused:
                try:
                    todo.extend(Y.refers(self.texts[n]))
                except Y.BadYang:
                    pass
        return seen


def upgrade(v, r, i, seen=()):
    """Another software release of the same device."""
    s = copy.deepcopy(v.schema)
    mods = s.modules
    k = r.randrange(1, len(mods) + 1)
    less = r.random() < 0.3
    for m in [] if less else r.sample(mods, k):
        m.revs.insert(0, '203%d-0%d-0%d' % (i, r.randrange(1, 9),
                                            r.randrange(1, 9)))
        x = r.random()
        if x < 0.6:
            m.extra += '\n  container new%d-%d { leaf a { type string; } }' \
                % (i, r.randrange(100))
        elif x < 0.8:
            m.prefix = m.prefix + 'x'
    if (less or r.random() < 0.4) and len(mods) > 1:
        used = {n for m in mods for n in m.imports}
        free = [m for m in mods if m.name not in used]
        if free and len(free) < len(mods):
            if less:
                # a release that only lacks a module, at best one that
                # augments what stays
                free = [m for m in free if any(
                    x.mod is m and x.parent is not None and
                    x.parent.mod is not m for x in s.walk())] or free
            drop = r.choice(free)
            s.modules = [m for m in mods if m is not drop]
            s.roots = [x for x in s.roots if x.mod is not drop]
            for n in list(s.walk()):
                n.children = [c for c in n.children if c.mod is not drop]
    # another release has another hello
    if (not less or s.modules == mods or hello(s) in seen) and not any(
            m.revs[0].startswith('203%d' % i) for m in s.modules):
        s.modules[0].revs.insert(0, '203%d-09-09' % i)
    return Version(s)


def hello(s):
    return sorted((m.name, m.revs[0]) for m in s.modules)


UNICODE = '\n// caf\u00e9 \u4e2d\u6587 \U0001f600 & < > " \'\n'


def spice(v, r):
    """Legal variety in the texts."""
    for n in sorted(v.texts):
        x = r.random()
        if x < 0.2:
            v.texts[n] = UNICODE + v.texts[n]
        elif x < 0.3:
            v.texts[n] += UNICODE
        elif x < 0.35:
            v.texts[n] = v.texts[n].replace('\n', '\n\t \n')
        elif x < 0.4:
            # large enough for several writes
            v.texts[n] += '\n'.join('// line %d' % i for i in range(1500))


def library_modules(v, r):
    """Modules only reachable through references, a web of them."""
    k = r.randrange(0, 5)
    names = ['lib-%s' % c for c in 'abcdefgh'[:k]]
    for i, n in enumerate(names):
        imps = [x for x in names[i + 1:] if r.random() < 0.6]
        body = ''.join('  import %s { prefix p%s; }\n' % (x, x[-1])
                       for x in imps)
        v.texts[n] = ('module %s {\n  namespace "urn:lib:%s";\n'
                      '  prefix p%s;\n%s  revision 2020-01-01;\n'
                      '  typedef t { type string; }\n}\n'
                      % (n, n, n[-1], body))
    if not names:
        return
    hidden = [n for n in names if r.random() < 0.8]
    # refer to the hidden ones from several listed modules
    listed = [m.name for m in v.schema.modules]
    for h in hidden:
        for n in listed:
            if r.random() < 0.6:
                v.texts[n] = v.texts[n].replace(
                    '  organization "sim";',
                    '  import %s { prefix hid%s; }\n  organization "sim";'
                    % (h, h[-1]), 1)
    order = [n for n in sorted(v.texts) if n not in hidden]
    subs = [n for n in order if n.endswith(('-sub', '-sub2'))]
    drop = [n for n in subs if r.random() < 0.5]
    v.listed = [n for n in order if n not in drop]


BAD = {
    'empty': '',
    'blank': '  \n \n',
    'garbage': 'this is not yang at all } { ;;',
    'open': 'module open {\n  namespace "urn:open";\n  prefix o;\n'
            '  container c {\n    leaf x { type string; }\n',
    'noarg': 'module {\n  namespace "urn:noarg"; prefix n;\n}\n',
    'wrongkw': 'container wrongkw { leaf x { type string; } }\n',
    'othername': 'module othername-really {\n  namespace "urn:other";\n'
                 '  prefix oth;\n  revision 2020-01-01;\n}\n',
    'noprefix': 'module noprefix {\n  namespace "urn:noprefix";\n'
                '  prefix np;\n  import bare;\n}\n',
    'absent': 'module absent {\n  namespace "urn:absent";\n  prefix ab;\n'
              '  import not-there { prefix nt; }\n'
              '  include nor-there;\n  revision 2020-01-01;\n'
              '  leaf x { type nt:foo; }\n}\n',
    'cyc-a': 'module cyc-a {\n  namespace "urn:cyc-a";\n  prefix ca;\n'
             '  import cyc-b { prefix cb; }\n  revision 2020-01-01;\n'
             '  container a { leaf x { type cb:t; } }\n'
             '  typedef t { type string; }\n}\n',
    'cyc-b': 'module cyc-b {\n  namespace "urn:cyc-b";\n  prefix cb;\n'
             '  import cyc-a { prefix ca; }\n  revision 2020-01-01;\n'
             '  container b { leaf x { type ca:t; } }\n'
             '  typedef t { type string; }\n}\n',
    'selfimp': 'module selfimp {\n  namespace "urn:self";\n  prefix s;\n'
               '  import selfimp { prefix me; }\n  revision 2020-01-01;\n}\n',
    'inc-a': 'submodule inc-a {\n  belongs-to inc-m { prefix im; }\n'
             '  include inc-b;\n  revision 2020-01-01;\n}\n',
    'inc-b': 'submodule inc-b {\n  belongs-to inc-m { prefix im; }\n'
             '  include inc-a;\n  revision 2020-01-01;\n}\n',
    'inc-m': 'module inc-m {\n  namespace "urn:inc-m";\n  prefix im;\n'
             '  include inc-a;\n  include inc-b;\n'
             '  revision 2020-01-01;\n}\n',
    'norev': 'module norev {\n  namespace "urn:norev";\n  prefix nr;\n'
             '  leaf x { type string; }\n}\n',
    'nons': 'module nons {\n  prefix nn;\n  leaf x { type string; }\n}\n',
    'nul': 'module nul {\n  namespace "urn:nul"; prefix nl;\n'
           '  description "\u200b\ufeff";\n}\n',
    'badtype': 'module badtype {\n  namespace "urn:bt"; prefix bt;\n'
               '  leaf x { type missing-type; }\n}\n',
    'badaug': 'module badaug {\n  namespace "urn:ba"; prefix ba;\n'
              '  augment "/ba:nothing/ba:there" { leaf y { type string; } }\n'
              '}\n',
    'quote': 'module quote {\n  namespace "urn:quote;\n prefix q;\n}\n',
}


# -------------------------------------------------------------------- plans
def plan(prop, r, tier):
    cfg = {
        'gen': {'status': False, 'iid': False, 'depth': r.choice((1, 2)),
                'modules': r.choice((1, 2, 3, 4)),
                'width': r.choice((2, 3))},
        'preempt': r.choice((15, 40, 100, 300)),
        'stall_p': r.choice((0, 0, 0.05)),
        'base11': r.random() < 0.2,
        'fault_budget': r.randrange(0, 6),
    }
    if prop == 'C08':
        return plan_c08(cfg, r, tier)
    if prop == 'C09':
        cfg['refuse'] = r.random() < 0.3
        cfg['gen']['modules'] = r.choice((2, 3, 4, 5))
        cfg['preempt'] = r.choice((2, 3, 5, 10, 20, 40))
        cfg['stall_p'] = r.choice((0, 0.05, 0.2, 0.4))
        cfg['stall_d'] = r.choice(((1, 5, 20, 100), (20, 100, 500)))
        return {'cfg': cfg, 'ops': [
            {'how': r.choice(('download', 'download', 'reread')),
             'seed': r.randrange(1 << 30)}
            for _ in range(r.randrange(3, 6))]}
    cfg['net'] = {k: r.choice((0.02, 0.05, 0.1)) for k in r.sample(
        ('drop_before', 'drop_after', 'no_reply', 'late', 'rpc_error'),
        r.randrange(0, 4))}
    cfg['disk'] = {k: r.choice((0.02, 0.05)) for k in r.sample(
        ('enospc', 'eio', 'read_eio', 'open_fail', 'remove_eio'),
        r.randrange(0, 4))}
    clean = r.random() < 0.5
    if clean:
        cfg['net'], cfg['disk'] = {}, {}
    bad = r.sample(sorted(BAD), r.randrange(1, 6))
    return {'cfg': cfg, 'bad': bad, 'ops': [
        {'how': r.choice(('check', 'force', 'check', 'folder')),
         'junk': r.random() < 0.3, 'bytes': r.randrange(6)}
        for _ in range(r.randrange(1, 4))]}


def plan_c08(cfg, r, tier):
    cfg['net'] = {k: r.choice((0.02, 0.05, 0.1)) for k in r.sample(
        ('drop_before', 'drop_after', 'no_reply', 'late'),
        r.randrange(0, 4))}
    cfg['disk'] = {k: r.choice((0.02, 0.05)) for k in r.sample(
        ('enospc', 'eio', 'open_fail', 'remove_eio'), r.randrange(0, 4))}
    ops = []
    nv = r.choice((1, 2, 2, 3))
    cfg['versions'] = nv
    for _ in range(r.randrange(2, 7)):
        if nv > 1 and r.random() < 0.3:
            ops.append({'op': 'install', 'v': r.randrange(nv)})
            continue
        op = {'op': 'scan', 'how': r.choice(('check', 'check', 'check',
                                             'force')),
              'load': r.choice((0, 1, 3)), 'faults': r.random() < 0.5}
        x = r.random()
        if x < 0.3:
            op['crash_line'] = int(r.choice((10, 100, 1000, 4000)) *
                                   r.random()) + 1
        elif x < 0.4:
            op['crash_write'] = r.randrange(1, 12)
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


# ------------------------------------------------------------------- helpers
def tree_text(model):
    """Schema tree of a loaded model as comparable data."""
    def f(e):
        return (e.tag, sorted(e.attrib.items()), [f(c) for c in e])
    return repr((model.name, model.prefix, model.url,
                 sorted(model.prefixes.items()), f(model.tree)))


def loadable(v):
    out = []
    for n in sorted(v.texts):
        if n in v.refused:
            continue
        try:
            if Y.header(v.texts[n])['type'] == 'module':
                out.append(n)
        except Y.BadYang:
            pass
    return [n for n in out if n in v.names()]


def stored(folder):
    """{name: bytes} of the schema files."""
    out = {}
    if os.path.isdir(folder):
        for f in sorted(disk._listdir(folder)):
            if f.endswith('.yang'):
                with disk._open(os.path.join(folder, f), 'rb') as fd:
                    out[f[:-5]] = fd.read()
    return out


def outcome_ok(e):
    """Is the exception a legitimate report of an injected fault?"""
    from ncclient.operations.errors import OperationError
    from ncclient.operations.rpc import RPCError
    from ncclient.transport.errors import TransportError
    return isinstance(e, (OperationError, TransportError, RPCError, OSError,
                          ValueError, AttributeError))


class Bench:
    def __init__(self, run, v):
        self.run = run
        self.sim = run.sim
        cfg = run.cfg
        self.dev = D.SimDevice(run.sim, v.schema, rng=None, render=True,
                               base11=cfg.get('base11', False),
                               faults=cfg.get('net'))
        self.dev.fault_budget = cfg.get('fault_budget', 3)
        self.v = v
        v.install(self.dev)
        self.disk = disk.Disk(run.sim, run.tmp, cfg.get('disk'))
        self.disk.budget = cfg.get('fault_budget', 3)
        disk.use(self.disk)
        self.quiet(True)

    def quiet(self, q):
        self.dev.quiet = q
        self.disk.quiet = q

    def process(self, fn, crash_line=None):
        st, val = self.sim.incarnation(fn, 'proc', crash_line=crash_line)
        self.disk.crash_after = None
        self.dev.drop_all()
        return st, val

    def connect(self):
        return net.connect(self.sim, self.dev, timeout=30)


def reference(b, folder, names):
    """Schemas from a fault-free scan into an empty folder."""
    def go():
        m = b.connect()
        m.scan_models(folder=folder, download='force')
        return ({n: tree_text(m.load_model(n)) for n in names},
                sorted(m.namespaces))
    b.sim.nopreempt += 1
    try:
        st, val = b.process(go)
    finally:
        b.sim.nopreempt -= 1
    if st == 'raised':
        raise val
    return val


# ----------------------------------------------------------------------- C08
def run(run):
    prop = run.plan['prop']
    try:
        {'C08': run_c08, 'C09': run_c09, 'C10': run_c10}[prop](run)
    finally:
        disk.use(None)


def make_versions(run):
    r = run.rng('versions')
    s = S.Gen(run.rng('schema'), run.cfg['gen']).schema()
    vs = [Version(s)]
    plain = [dict(vs[0].texts)]
    spice(vs[0], r)
    for i in range(1, run.cfg.get('versions', 1)):
        j = i - 1 if r.random() < 0.7 else 0
        v = upgrade(vs[j], r, i, [hello(x.schema) for x in vs])
        vs.append(v)
        plain.append(dict(v.texts))
        spice(v, r)
        # the text of a module that was not revised stays as it was
        for n in v.texts:
            if plain[i][n] == plain[j].get(n):
                v.texts[n] = vs[j].texts[n]
    return vs


def run_c08(run):
    sim = run.sim
    vs = make_versions(run)
    b = Bench(run, vs[0])
    folder = os.path.join(run.tmp, 'yang')
    refs = {}

    def scan(op):
        v = b.v
        log = {'skipped': False, 'done': False}

        def go():
            m = b.connect()
            n0 = len(b.dev.get_schema_log)
            served = len(b.dev.requests)
            f0 = sum(sim.faults.get(k, 0) for k in
                     ('drop_before', 'drop_after', 'no_reply', 'late'))
            m.scan_models(folder=folder, download=op['how'])
            f1 = sum(sim.faults.get(k, 0) for k in
                     ('drop_before', 'drop_after', 'no_reply', 'late'))
            log['done'] = True
            if op['how'] == 'check' and f0 == f1 and m.connected and \
                    len(b.dev.get_schema_log) == n0 and \
                    len(b.dev.requests) == served:
                log['skipped'] = True
                verify_skip(run, b, folder)
            for n in loadable(v)[:op['load']]:
                m.load_model(n)
            return 'ok'
        b.quiet(not op.get('faults'))
        b.disk.crash_after = None
        if 'crash_write' in op:
            b.disk.writes = 0
            b.disk.crash_after = op['crash_write']
            b.disk.quiet = False
        try:
            st, val = b.process(go, op.get('crash_line'))
        finally:
            b.quiet(True)
        run.probe('scan_' + st)
        if log['skipped']:
            run.probe('skipped')
        if st == 'raised':
            if isinstance(val, core.Violation):
                raise val
            run.probe('raised_' + type(val).__name__)
        return st, log

    for op in run.plan['ops']:
        if op['op'] == 'install':
            b.v = vs[op['v']]
            b.v.install(b.dev)
            sim.note('install', op['v'])
        else:
            scan(op)
    # faults stop
    b.quiet(True)
    names = loadable(b.v)
    ref = reference(b, os.path.join(run.tmp, 'fresh'), names)

    def last():
        m = b.connect()
        n0 = len(b.dev.get_schema_log)
        m.scan_models(folder=folder, download='check')
        if len(b.dev.get_schema_log) == n0:
            run.probe('final_skipped')
            verify_skip(run, b, folder)
        return ({n: tree_text(m.load_model(n)) for n in names},
                sorted(m.namespaces))
    st, val = b.process(last)
    if st == 'raised':
        raise val
    run.saw('final', repr(run.plan['ops']), sorted(val[0]))
    for n in names:
        run.check(val[0][n] == ref[0][n], 'stale schema',
                  lambda: 'module %s after the last scan\n%s\nin a fresh '
                  'folder\n%s' % (n, val[0][n][:1200], ref[0][n][:1200]))
    run.check(val[1] == ref[1], 'stale namespaces',
              lambda: '%s\nfresh: %s' % (val[1], ref[1]))


def verify_skip(run, b, folder):
    v = b.v
    have = stored(folder)
    for n in sorted(v.closure()):
        if n not in v.texts or n in v.refused:
            continue
        want = v.texts[n].encode('utf-8')
        run.check(n in have, 'incomplete folder reused',
                  lambda: 'schema %s is missing, folder has %s'
                  % (n, sorted(have)))
        run.check(have[n] == want, 'unfaithful folder reused',
                  lambda: 'schema %s: %d bytes, device publishes %d'
                  % (n, len(have[n]), len(want)))
    run.saw('skip', sorted(have))


# ----------------------------------------------------------------------- C09
def run_c09(run):
    r = run.rng('c09')
    vs = make_versions(run)
    v = vs[0]
    library_modules(v, r)
    add_headers(v, r)
    if run.cfg.get('refuse'):
        free = [n for n in v.names() if n.endswith('-sub2')]
        v.refused = set(free)
    b = Bench(run, v)
    want = {}
    for n in sorted(v.closure()):
        if n in v.texts and n not in v.refused:
            want[n] = Y.header(v.texts[n])
    folder = os.path.join(run.tmp, 'yang')
    for i, op in enumerate(run.plan['ops']):
        if op['how'] == 'download' or i == 0:
            n0 = len(b.dev.get_schema_log)

            def go():
                m = b.connect()
                m.scan_models(folder=folder, download='force')
                return facts(m, want)
            st, val = b.process(go)
            if st == 'raised':
                raise val
            asked = sorted(b.dev.get_schema_log[n0:])
            exp = sorted(v.closure())
            run.check(asked == exp, 'schemas not requested exactly once',
                      lambda: 'requested %s\nexpected %s' % (asked, exp))
            have = stored(folder)
            run.check(sorted(have) == sorted(want), 'wrong files stored',
                      lambda: 'stored %s expected %s'
                      % (sorted(have), sorted(want)))
            for n in want:
                run.check(have[n] == v.texts[n].encode('utf-8'),
                          'schema stored wrongly', n)
        else:
            try:
                os.remove(os.path.join(folder, 'dependencies.xml'))
            except OSError:
                pass

            def go():
                m = b.connect()
                m.scan_models(folder=folder, download=None)
                return facts(m, want)
            st, val = b.process(go)
            if st == 'raised':
                raise val
        check_record(run, folder, want, val, op['how'])
        run.saw(op['how'], sorted(want), sorted(v.names()))


def add_headers(v, r):
    """Several augments, deviations and revisions, written in many ways."""
    for n in sorted(v.texts):
        t = v.texts[n].rstrip()
        if not t.endswith('}'):
            continue
        t = t[:-1]
        for k in range(r.choice((0, 0, 1, 2, 3))):
            t += r.choice((
                '  augment "/x:a/x:b%d" { leaf y%d { type string; } }\n',
                "  augment '/x:c%d' { /* in } a comment */\n"
                '    leaf z%d { type uint8; } }\n',
                '  augment "/x:long/" +\n    "x:path%d" '
                '{ leaf q%d { type string; } }\n')) % (k, k)
        for k in range(r.choice((0, 0, 1, 2))):
            t += r.choice((
                '  deviation "/x:a/x:d%d" { deviate not-supported; }\n',
                '  deviation /x:e%d { // a comment }\n'
                '    deviate replace { type string; } }\n')) % k
        v.texts[n] = t + '}\n'
        if r.random() < 0.3:
            v.texts[n] = v.texts[n].replace(
                '  revision ', '  revision "2031-01-01" { description '
                '"module fake { prefix fake; }"; }\n  revision ', 1)
        if r.random() < 0.3:
            v.texts[n] = v.texts[n].replace(
                '; }\n  organization',
                '; revision-date 2020-01-01; }\n  organization', 1)


def facts(m, want):
    """What the scanned device answers about its modules."""
    out = {'namespaces': sorted(m.namespaces)}
    deps = {}
    for n in want:
        i, d = m.compiler.get_dependencies(n)
        deps[n] = (sorted(i), sorted(d))
    out['deps'] = deps
    return out


def check_record(run, folder, want, val, how):
    path = os.path.join(folder, 'dependencies.xml')
    with disk._open(path, 'rb') as f:
        root = etree.fromstring(f.read())
    got = {}
    for el in root.findall('module'):
        rec = Y.record(el)
        run.check(rec['id'] not in got, 'module recorded twice',
                  lambda: '%s after %s' % (rec['id'], how))
        got[rec['id']] = rec
    run.check(sorted(got) == sorted(want), 'modules not recorded once each',
              lambda: '%s: recorded %s expected %s'
              % (how, sorted(got), sorted(want)))
    for n in want:
        run.check(got[n] == want[n], 'wrong record',
                  lambda: '%s: %s\nexpected %s' % (how, got[n], want[n]))
    ns = sorted((n, h['prefix'], h['namespace']) for n, h in want.items()
                if h['type'] == 'module')
    run.check(val['namespaces'] == ns, 'wrong namespaces',
              lambda: '%s: %s\nexpected %s' % (how, val['namespaces'], ns))
    for n in want:
        imports = sorted({a for a, _ in want[n]['imports']})
        depends = sorted(k for k, h in want.items()
                         if n in h['includes'] or
                         n in [a for a, _ in h['imports']])
        run.check(val['deps'][n] == (imports, depends),
                  'wrong dependencies',
                  lambda: '%s: %s %s\nexpected %s' % (
                      how, n, val['deps'][n], (imports, depends)))


# ----------------------------------------------------------------------- C10
JUNK = [b'\xff\xfe\x00bad', b'module caf\xe9 { }', b'', b'\x00' * 64,
        b'module x {\xed\xa0\x80}', b'{' * 400]


def run_c10(run):
    sim = run.sim
    vs = make_versions(run)
    v = vs[0]
    good = {n for n in v.texts}
    goodm = loadable(v)
    for n in run.plan['bad']:
        v.texts[n] = BAD[n]
    b = Bench(run, v)
    folder = os.path.join(run.tmp, 'yang')
    want = {n: Y.header(v.texts[n]) for n in good}
    clean = not run.cfg['net'] and not run.cfg['disk']
    for i, op in enumerate(run.plan['ops']):
        how = op['how']
        junk = {}
        if how == 'folder':
            # an existing folder, whatever is in it
            os.makedirs(folder, exist_ok=True)
            for f in disk._listdir(folder):
                disk._remove(os.path.join(folder, f))
            for n, t in v.texts.items():
                with disk._open(os.path.join(folder, n + '.yang'),
                                'wb') as f:
                    f.write(t.encode('utf-8'))
            if op['junk']:
                junk['junk'] = JUNK[op['bytes']]
                with disk._open(os.path.join(folder, 'junk.yang'),
                                'wb') as f:
                    f.write(junk['junk'])
        t0, c0 = sim.now, sim.computed
        res = {}

        def go():
            m = b.connect()
            m.scan_models(folder=folder,
                          download=None if how == 'folder' else how)
            res['scanned'] = True
            res['t'] = sim.now
            loaded = {}
            for n in goodm + [x for x in run.plan['bad']]:
                try:
                    loaded[n] = m.load_model(n).name
                except Exception as e:
                    if isinstance(e, (MemoryError, RecursionError)):
                        raise
                    loaded[n] = e
            return loaded
        b.quiet(False)
        try:
            st, val = b.process(go)
        finally:
            b.quiet(True)
        n = len(v.closure()) + 8
        took = sim.now - t0 - (sim.computed - c0)
        run.check(took <= 31 * n + 60 + 0.2 * sim.switches,
                  'scan takes too long', '%s s for %d names' % (took, n))
        run.probe('scan_' + st)
        if st == 'raised':
            run.probe('raised_' + type(val).__name__)
            if clean:
                raise val
            if not outcome_ok(val):
                raise val
        run.saw(how, sorted(run.plan['bad']), st, i)
        if not clean:
            continue
        have = stored(folder)
        for g in sorted(good):
            run.check(have.get(g) == v.texts[g].encode('utf-8'),
                      'good schema not stored', lambda: '%s after %s with '
                      'bad schemas %s' % (g, how, run.plan['bad']))
        with disk._open(os.path.join(folder, 'dependencies.xml'), 'rb') as f:
            root = etree.fromstring(f.read())
        got = {}
        for el in root.findall('module'):
            got.setdefault(el.get('id'), []).append(Y.record(el))
        for g in sorted(good):
            run.check(got.get(g) == [want[g]], 'good schema not recorded',
                      lambda: '%s after %s with bad schemas %s: %s\n'
                      'expected %s' % (g, how, run.plan['bad'], got.get(g),
                                       want[g]))
        for g in goodm:
            run.check(val[g] == g, 'good schema not loadable',
                      lambda: '%s: %r %s' % (
                          g, val[g], run.plan['bad']))
