"""C13: snapshots combine only across devices with identical schemas.

Several devices running releases of one schema, each scanned and loaded in its
own way; snapshots of all of them are combined pairwise."""
import copy
import os

from lxml import etree

from . import core
from . import device as D
from . import disk
from . import net
from . import schema as S
from .scen_comp import Exp, iskey
from .scen_scan import Version


# ----------------------------------------------------------------- mutations
def nodes_of(s, m, kinds, own=True):
    return [n for rt in s.roots if rt.mod is m for n in rt.walk()
            if n.kind in kinds and (n.mod is m) == own]


def plain_leaf(n):
    return n.kind == 'leaf' and not iskey(n) and \
        not any(p.kind == 'choice' for p in up(n))


def up(n):
    out = []
    while n is not None:
        out.append(n)
        n = n.parent
    return out


def mut_add(s, m, r):
    c = r.choice(nodes_of(s, m, ('container', 'list')))
    n = S.SN('leaf', 'added%d' % r.randrange(1 << 40), m, type=S.Type('string'),
             config=c.config)
    c.add(n)


def mut_add_deep(s, m, r):
    c = nodes_of(s, m, ('container', 'list'))[-1]
    k = S.SN('container', 'cadd%d' % r.randrange(100), m, config=c.config)
    k.add(S.SN('leaf', 'x', m, type=S.Type('uint8'), config=c.config))
    c.add(k)


def mut_del(s, m, r):
    ls = [n for n in nodes_of(s, m, ('leaf', 'leaf-list'))
          if not iskey(n) and not any(p.kind == 'choice' for p in up(n)) and
          n.parent is not None and len(n.parent.children) > 1]
    n = r.choice(ls)
    n.parent.children.remove(n)


def mut_type(s, m, r):
    ls = [n for n in nodes_of(s, m, ('leaf', 'leaf-list'))
          if n.type.base == 'string' and n.default is None and
          not n.type.typedef]
    r.choice(ls).type = S.Type('uint8')


def mut_enum(s, m, r):
    ls = [n for n in nodes_of(s, m, ('leaf', 'leaf-list'))
          if n.type.base == 'enumeration' and not n.type.typedef]
    n = r.choice(ls)
    n.type = S.Type('enumeration', n.type.values + ['brandnew'])


def mut_default(s, m, r):
    ls = [n for n in nodes_of(s, m, ('leaf',))
          if n.default is not None and n.type.base == 'string']
    n = r.choice(ls)
    n.default, n.typedefault = 'other default', False


def mut_nodefault(s, m, r):
    ls = [n for n in nodes_of(s, m, ('leaf',))
          if n.default is not None and not n.typedefault and
          not iskey(n) and not any(p.kind == 'choice' for p in up(n))]
    r.choice(ls).default = None


def mut_setdefault(s, m, r):
    ls = [n for n in nodes_of(s, m, ('leaf',))
          if n.default is None and plain_leaf(n) and n.config and
          n.type.base == 'string']
    r.choice(ls).default = 'newly given'


def mut_user(s, m, r):
    n = r.choice([n for n in nodes_of(s, m, ('list', 'leaf-list'))
                  if n.config])
    n.user = not n.user


def mut_presence(s, m, r):
    ls = [n for n in nodes_of(s, m, ('container',))]
    n = r.choice(ls)
    n.presence = not n.presence


def mut_keys(s, m, r):
    ls = [n for n in nodes_of(s, m, ('list',)) if len(n.keys) > 1]
    n = r.choice(ls)
    if r.random() < 0.5:
        n.keys.reverse()
    else:
        n.keys.pop()


def mut_config(s, m, r):
    ls = [n for n in nodes_of(s, m, ('leaf', 'leaf-list'))
          if not iskey(n) and not any(p.kind == 'choice' for p in up(n)) and
          n.config and n.parent.config and not n.typedefault]
    n = r.choice(ls)
    n.config = False
    n.default = None


def mut_prefix(s, m, r):
    m.prefix += 'z'


def mut_ns(s, m, r):
    old, new = m.ns, m.ns + ':z'

    def moved(d):
        if isinstance(d, list):
            return [moved(x) for x in d]
        return (new,) + d[1:] if isinstance(d, tuple) and d[0] == old else d
    m.ns = new
    # defaults that are identities of this module
    for o in s.modules:
        for t in o.typedefs:
            t[1].default = moved(t[1].default)
        o.typedefs[:] = [t[:2] + tuple(map(moved, t[2:]))
                         for t in o.typedefs]
    for rt in s.roots:
        for n in rt.walk():
            n.default = moved(n.default)
            if n.type is not None:
                n.type.default = moved(n.type.default)


def mut_aug(s, m, r):
    """A node another module hangs into this one."""
    ns = nodes_of(s, m, ('leaf',), own=False)
    n = r.choice([n for n in ns if n.default is None and
                  n.type.base not in ('identityref', 'uint8')])
    n.type = S.Type('uint8')


def mut_rev(s, m, r):
    m.revs.insert(0, '2035-01-0%d' % r.randrange(1, 9))


def mut_text(s, m, r):
    m.extra += '\n  // another comment\n  typedef unused%d { type string; }' \
        % r.randrange(1000)


MUTS = [mut_add, mut_add_deep, mut_del, mut_type, mut_enum, mut_default,
        mut_nodefault, mut_setdefault, mut_user, mut_presence, mut_keys,
        mut_config, mut_prefix, mut_prefix, mut_prefix, mut_ns, mut_ns,
        mut_aug, mut_rev, mut_text]


def mutated(s, r):
    """Another release: usually one small change, sometimes invisible."""
    for _ in range(30):
        t = copy.deepcopy(s)
        f = r.choice(MUTS)
        ms = [m for m in t.modules if any(x.mod is m for x in t.roots)]
        m = r.choice(ms)
        try:
            f(t, m, r)
        except IndexError:
            continue
        return t, f.__name__
    return copy.deepcopy(s), 'none'


# ------------------------------------------------------------------ oracle
def signature(v, name):
    """(what a model is, what its identity types allow)."""
    s = v.schema
    m = s.module(name)
    if m is None:
        return None
    exp = Exp(s, [], {})
    ids = []

    def vals(x):
        if isinstance(x, tuple):
            if x[0] == 'ids':
                a, b = exp.ids(name, x[1])
                ids.append((sorted(a), sorted(b), sorted(
                    {(o.name, o.ns) for o, _ in s.derived(x[1])})))
                return ('ids',)
            return ('union', [vals(y) for y in x[1]])
        return x

    def f(n):
        return (n['tag'], n['type'], n['access'],
                sorted((k, vals(x) if k == 'values' else x)
                       for k, x in n['attrs'].items()),
                sorted(f(c) for c in n['children']))
    tree = sorted(f(n) for n in exp.module(name))
    # keys may be written with the prefix of the module
    ids += sorted({(n.mod.name, n.mod.prefix) for x in s.roots
                   if x.mod.name == name for n in x.walk()
                   if n.kind == 'list'})
    return repr((m.prefix, m.ns, tree)), repr(ids)


# --------------------------------------------------------------------- plans
def plan(prop, r, tier):
    cfg = {
        'gen': {'status': False, 'iid': False, 'depth': r.choice((1, 2, 2)),
                'modules': r.choice((1, 2, 3, 3)),
                'width': r.choice((3, 4)),
                'deftype': r.random() < 0.5,
                'leafref': r.random() < 0.5},
        'preempt': 0,
        'density': r.choice((50, 70, 90)), 'maxlist': 2,
        'versions': r.choice((1, 2, 2, 3, 3)),
        'base11': r.random() < 0.2,
    }
    sites = []
    for i in range(r.randrange(2, 5)):
        sites.append({
            'v': r.randrange(cfg['versions']),
            'device': r.choice((i, i, 0)),     # same device: an upgrade
            'folder': r.choice(('own', 'own', 'shared')),
            'mode': r.choice(('check', 'check', 'force', 'ignore')),
            'load': r.choice((100, 100, 100, 60)),
            'how': r.choice(('name', 'name', 'file', 'twice')),
            'first': r.choice((None, None, None, 'other')),
            'order': r.randrange(1 << 20),
            'refuse': r.random() < 0.1,
            'state': r.randrange(1 << 20)})
    ops = []
    for _ in range(r.randrange(6, 14)):
        ops.append({'a': r.randrange(len(sites)),
                    'b': r.randrange(len(sites)),
                    'kind': r.choice(('sub', 'sub', 'add', 'add_delta',
                                      'sub_delta', 'delta_add'))})
    return {'cfg': cfg, 'sites': sites, 'ops': ops}


class Site:
    pass


def run(run):
    try:
        _run(run)
    finally:
        disk.use(None)


def _run(run):
    import random
    r = run.rng('c13')
    base = S.Gen(run.rng('schema'), run.cfg['gen']).schema()
    vs = [Version(base)]
    labels = ['base']
    for i in range(1, run.cfg['versions']):
        t, lab = mutated(vs[r.randrange(len(vs))].schema, r)
        vs.append(Version(t))
        labels.append(lab)
    for i, v in enumerate(vs):
        # capabilities tell releases apart
        v.caps = ['urn:sim:release?n=%d' % i]
    disk.use(disk.Disk(run.sim, run.tmp))
    sites, devs = [], {}
    for i, p in enumerate(run.plan['sites']):
        s = Site()
        s.v = vs[min(p['v'], len(vs) - 1)]
        s.label = labels[vs.index(s.v)]
        d = p['device']
        if d not in devs:
            devs[d] = D.SimDevice(run.sim, s.v.schema, rng=None,
                                  name='dev%d' % d,
                                  base11=run.cfg['base11'])
            devs[d].quiet = True
        dev = devs[d]
        dev.drop_all()
        s.v.install(dev)
        rr = random.Random(p['order'])
        names = [m.name for m in s.v.schema.modules]
        folder = os.path.join(run.tmp, 'shared%d' % vs.index(s.v)
                              if p['folder'] == 'shared' else 'dev%d' % d)
        m = s.m = net.connect(run.sim, dev, timeout=30)
        if p['first'] == 'other' and len(vs) > 1:
            # looked at the schemas of another release before
            other = vs[(vs.index(s.v) + 1) % len(vs)]
            f2 = os.path.join(run.tmp, 'pre%d' % i)
            os.makedirs(f2, exist_ok=True)
            for n, t in sorted(other.texts.items()):
                with disk._open(os.path.join(f2, n + '.yang'), 'wb') as f:
                    f.write(t.encode('utf-8'))
            m.scan_models(folder=f2, download='ignore')
            m.namespaces
            for n in sorted(set(names) & {x.name for x in
                                          other.schema.modules}):
                if rr.random() < 0.5:
                    m.load_model(n)
            run.probe('rescan')
        mode = p['mode']
        if mode == 'ignore':
            folder = os.path.join(run.tmp, 'plain%d' % i)
            os.makedirs(folder, exist_ok=True)
            for n, t in sorted(s.v.texts.items()):
                with disk._open(os.path.join(folder, n + '.yang'),
                                'wb') as f:
                    f.write(t.encode('utf-8'))
        hidden = set()
        if p['refuse'] and p['first'] is None and len(names) > 1:
            # listed, but its schema is not handed out
            used = {x for mm in s.v.schema.modules for x in mm.imports}
            free = [n for n in names if n not in used and
                    not s.v.schema.module(n).identities]
            if free and mode in ('force', 'check'):
                hidden = {rr.choice(free)}
                hidden |= {x for x in s.v.texts
                           if x.startswith(tuple(h + '-sub'
                                                 for h in hidden))}
                for h in hidden:
                    dev.texts.pop(h, None)
                folder += '-refused%d' % i
                run.probe('refused')
        m.scan_models(folder=folder, download=mode)
        order = [n for n in names if n not in hidden]
        rr.shuffle(order)
        order = order[:max(1, len(order) * p['load'] // 100)]
        for n in order:
            f = os.path.join(folder, n + '.xml')
            if p['how'] == 'file' and os.path.isfile(f):
                m.load_model(f)
            else:
                m.load_model(n)
            if p['how'] == 'twice':
                m.load_model(n)
        s.loaded = sorted(order)
        if p['first'] == 'other':
            stale = [n for n in m.models_loaded if n not in order]
            for n in stale:
                m.load_model(n)
                s.loaded = sorted(s.loaded + [n])
        if hidden:
            # what the device really offers
            s.v2 = copy.copy(s.v)
            sch = copy.deepcopy(s.v.schema)
            for h in hidden:
                drop_module(sch, h)
            s.v2.schema = dev.schema = sch
        else:
            s.v2 = s.v
        s.st = S.States(s.v2.schema, random.Random(p['state']),
                        density=run.cfg['density'] / 100.0,
                        maxlist=run.cfg['maxlist'])
        s.cfgs = []
        for k in range(2):
            full = s.st.state()
            keep = {x.q: full[x.q] for x in s.v2.schema.roots
                    if x.q in full and x.config and x.mod.name in s.loaded}
            dev.set_state(S.canon(s.v2.schema, keep))
            models = sorted({x.mod.name for x in s.v2.schema.roots
                             if x.config and x.mod.name in s.loaded})
            if models:
                c = m.extract_config(m.get_config(models=models))
            else:
                from ncdiff import Config
                c = Config(m)
            s.cfgs.append(c)
        s.models = [sorted({x.mod.name for x in s.v2.schema.roots
                            if x.q in {e.tag for e in c.ele}})
                    for c in s.cfgs]
        sites.append(s)
    for op in run.plan['ops']:
        combine(run, sites[op['a'] % len(sites)],
                sites[op['b'] % len(sites)], op['kind'])


def drop_module(sch, name):
    drop = sch.module(name)
    if drop is None:
        return
    sch.modules = [m for m in sch.modules if m is not drop]
    sch.roots = [x for x in sch.roots if x.mod is not drop]
    for n in list(sch.walk()):
        n.children = [c for c in n.children if c.mod is not drop]


def expected(a, b, models):
    """Set of acceptable outcomes."""
    out = set()
    if a.m is b.m:
        return {'ok'}
    for n in models:
        if n not in a.loaded or n not in b.loaded:
            out.add('missing')
            ma, mb = a.v.schema.module(n), b.v.schema.module(n)
            if ma is None or mb is None or (ma.prefix, ma.ns) != \
                    (mb.prefix, mb.ns):
                out.add('incompatible')
            continue
        sa, sb = signature(a.v2, n), signature(b.v2, n)
        if sa[0] != sb[0]:
            out.add('incompatible')
        elif sa[1] != sb[1]:
            out.add('maybe')
    if out == {'maybe'}:
        # identities of another module that differs
        return {'ok', 'incompatible', 'unknown'}
    out.discard('maybe')
    return out or {'ok'}


def twin(a, config):
    """The same content as a snapshot of device a."""
    from ncdiff import Config
    return Config(a.m, copy.deepcopy(config.ele))


def text(x):
    from ncdiff.config import ConfigDelta
    if isinstance(x, ConfigDelta):
        return etree.tostring(x.nc, encoding='unicode')
    return etree.tostring(x.ele, encoding='unicode')


def combine(run, a, b, kind):
    from ncdiff.errors import ModelMissing, ModelIncompatible
    x, y = a.cfgs[0], b.cfgs[1]
    models = sorted(set(a.models[0]) | set(b.models[1]))

    def calc(x, y, z):
        if kind == 'sub':
            return x - y
        if kind == 'add':
            return x + y
        if kind == 'add_delta':
            return x + (y - z)
        if kind == 'delta_add':
            return (y - z) + x
        return x - (y - z)
    z = b.cfgs[0]
    if 'delta' in kind:
        models = sorted(set(models) | set(b.models[0]))
    want = expected(a, b, models)
    from ncdiff.errors import ConfigDeltaError, ConfigError
    res = err = None
    try:
        res = calc(x, y, z)
        t = text(res)
        got = 'ok'
    except ModelMissing as e:
        got, err = 'missing', e
    except ModelIncompatible as e:
        got, err = 'incompatible', e
    except ConfigError as e:
        got, err = 'unknown', e
    except ConfigDeltaError as e:
        got, t, err = 'ok', 'error', e
    run.probe('%s_%s' % (kind, got))
    run.check(got in want, 'wrong verdict on compatibility',
              lambda: '%s of %s (release %s, loaded %s) and %s (release %s, '
              'loaded %s): %s, expected %s; models involved %s\n%r' % (
                  kind, a.m, a.label, a.loaded, b.m, b.label, b.loaded, got,
                  sorted(want), models, err))
    if got != 'ok':
        run.saw(kind, got, models, a.label, b.label)
        return
    # the answer is that of a single device
    try:
        u = text(calc(x, twin(a, y), twin(a, z) if 'delta' in kind else z))
    except ConfigDeltaError:
        u = 'error'
    except ConfigError:
        if 'unknown' not in want:
            raise
        u = t
    run.check(t == u, 'combination differs from the one on one device',
              lambda: '%s\n%s\non one device\n%s' % (kind, t[:1200],
                                                      u[:1200]))
    run.saw(kind, got, t)
