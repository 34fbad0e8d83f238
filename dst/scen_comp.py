"""Compiling: C11 (a compiled schema depends only on its sources) and C12
(crashes and torn caches never corrupt a loaded schema).

A folder of schema texts on a simulated disk and a history of client processes
that load modules in any order, with or without the caches earlier processes
left behind."""
import copy
import hashlib
import os

from lxml import etree

from . import core
from . import device as D
from . import disk
from . import schema as S
from . import yangtext as Y
from .scen_scan import Bench, Version, tree_text, loadable, spice, upgrade


# ---------------------------------------------------------------- the schema
def enrich(s, r, gen):
    """YANG features beyond those of the state generator.  Returns the list
    of (module, expected subtree) of statements outside the data tree."""
    mods = s.modules
    extra = []
    # identities derived from derived ones, some in submodules
    if gen.ids:
        for m in mods:
            for k in range(r.choice((0, 0, 1, 2))):
                cands = [x for b in gen.ids for x in s.derived(b)]
                b = r.choice(cands)
                if mods.index(b[0]) > mods.index(m):
                    continue
                gen.imp(m, b[0])
                m.identities.append(('deep%d' % k, b))
    # typedef of an identityref, used by leaves
    for m in mods:
        if gen.ids and r.random() < 0.4:
            b = r.choice(gen.ids)
            gen.imp(m, b[0])
            m.typedefs.append(('tid', S.Type('identityref', idbase=b)))
            t = S.Type('identityref', idbase=b, typedef='tid')
            for c in [x for rt in m.roots for x in rt.walk()
                      if x.kind == 'container' and x.mod is m and
                      not rt.sub and not x.status][:1]:
                c.add(S.SN('leaf', gen.name('ti'), m, type=t,
                           config=c.config))
                if r.random() < 0.5:
                    c.add(S.SN('leaf', gen.name('tu'), m, config=c.config,
                               type=S.Type('union', [
                                   S.Type('uint8'), t,
                                   S.Type('boolean')])))
    # leafrefs, mandatory leaves, features
    for m in mods:
        if r.random() < 0.5:
            m.features = ['feat-a', 'feat-b'][:r.randrange(1, 3)]
        for n in [x for rt in m.roots for x in rt.walk()]:
            if n.mod is not m:
                continue
            top = n
            while top.parent is not None:
                top = top.parent
            if n.kind == 'leaf' and n.default is None and n.config and \
                    not iskey(n) and not n.extra and r.random() < 0.1:
                n.mandatory = True
            if n.kind == 'choice' and not n.defcase and r.random() < 0.2:
                n.mandatory = True
            if m.features and not top.sub and not iskey(n) and \
                    n.kind != 'case' and r.random() < 0.1:
                n.ifs = r.sample(m.features,
                                 r.randrange(1, len(m.features) + 1))
            if n.kind == 'container' and not n.status and \
                    r.random() < 0.15:
                leaves = [c for c in n.children if c.kind == 'leaf' and
                          c.mod is m and c.config == n.config]
                if leaves:
                    t = r.choice(leaves)
                    path = r.choice((
                        '../' + t.name,
                        '../%s:%s' % (m.prefix, t.name)))
                    n.add(S.SN('leaf', gen.name('lr'), m, config=n.config,
                               type=S.Type('leafref', path)))
    # a grouping of another module, refined and augmented where it is used
    for i, m in enumerate(mods):
        if i and r.random() < 0.4:
            src = mods[r.randrange(i)]
            g = 'grp-%d' % i
            src.extra += (
                '\n  grouping %s {\n    leaf ga%d { type string; '
                'default "from grouping"; }\n    container gc%d {\n'
                '      leaf gx { type enumeration { enum e1; enum e2; } }\n'
                '      leaf-list gl { type uint8; ordered-by user; }\n'
                '    }\n  }' % (g, i, i))
            cs = [x for rt in m.roots for x in rt.walk()
                  if x.kind == 'container' and x.mod is m and x.config and
                  not rt.sub]
            if not cs:
                continue
            gen.imp(m, src)
            c = r.choice(cs)
            a = S.SN('leaf', 'ga%d' % i, m, type=S.Type('string'),
                     default='from grouping', virtual=True)
            gc = S.SN('container', 'gc%d' % i, m, virtual=True)
            gc.add(S.SN('leaf', 'gx', m, virtual=True,
                        type=S.Type('enumeration', ['e1', 'e2'])))
            gc.add(S.SN('leaf-list', 'gl', m, type=S.Type('uint8'),
                        user=True, virtual=True))
            body = ''
            if r.random() < 0.5:
                a.default = 'refined'
                body += 'refine ga%d { default "refined"; } ' % i
            if r.random() < 0.5:
                gc.presence = True
                body += 'refine gc%d { presence "yes"; } ' % i
            if r.random() < 0.5:
                gc.add(S.SN('leaf', 'extra', m, type=S.Type('boolean'),
                            virtual=True))
                body += 'augment gc%d { leaf extra { type boolean; } } ' % i
            c.extra.append('uses %s:%s { %s}' % (m.p(src), g, body)
                           if body else 'uses %s:%s;' % (m.p(src), g))
            c.add(a)
            c.add(gc)
    # a submodule that augments another module; its module may not import it
    for i, m in enumerate(mods):
        if not i or r.random() < 0.55:
            continue
        cands = [x for mm in mods[:i] for rt in mm.roots for x in rt.walk()
                 if x.kind in ('container', 'list') and x.config and
                 not x.status and not x.virtual and x.mod is mm and
                 all(p.mod is mm for p in ups(x))]
        if not cands:
            continue
        t = r.choice(cands)
        if m.submodule is None:
            m.submodule = {'name': m.name + '-sub'}
        sub = m.submodule
        simp = sub.setdefault('imports', dict(m.imports))
        simp.setdefault(t.mod.name, 'sp' + t.mod.prefix)
        k = S.SN('leaf', gen.name('sa'), m, type=S.Type('string'),
                 default='subdef')
        t.add(k)
        sub.setdefault('augments', []).append((t, [k]))
        if gen.ids and r.random() < 0.5:
            b = r.choice(gen.ids)
            if b[0] is not m:
                simp.setdefault(b[0].name, 'sp' + b[0].prefix)
            sub.setdefault('identities', []).append(('subid', b))
    # rpcs and notifications
    for m in mods:
        if r.random() < 0.3:
            m.extra += ('\n  rpc do-it {\n    input { leaf what { type '
                        'enumeration { enum go; enum stop; } mandatory true; '
                        '} }\n    output { container res { leaf code { type '
                        'uint8; } } }\n  }')
            extra.append((m, node(m, 'do-it', 'rpc', 'write', [
                node(m, 'input', 'input', 'write', [
                    node(m, 'what', 'leaf', 'write', datatype='enumeration',
                         values='go|stop', mandatory='true')]),
                node(m, 'output', 'output', 'read-only', [
                    node(m, 'res', 'container', 'read-only', [
                        node(m, 'code', 'leaf', 'read-only',
                             datatype='uint8')])])])))
        if r.random() < 0.3:
            m.extra += ('\n  notification it-happened {\n    leaf-list ev '
                        '{ type string; ordered-by user; }\n  }')
            extra.append((m, node(m, 'it-happened', 'notification',
                                  'read-only', [
                                      node(m, 'ev', 'leaf-list', 'read-only',
                                           **{'ordered-by': 'user',
                                              'datatype': 'string'})])))
    # deviations
    over = {}
    if len(mods) > 1 and r.random() < 0.6:
        for d in r.sample(mods[1:], r.randrange(1, len(mods))):
            cands = [x for mm in mods[:mods.index(d)] for rt in mm.roots
                     for x in rt.walk()
                     if x.mod is mm and not x.virtual and not x.ifs and
                     all(p.mod is mm and not p.virtual for p in ups(x)) and
                     not iskey(x) and not incase(x) and x.parent is not None
                     and x.kind in ('leaf', 'container') and x.config and
                     not used_by_leafref(x) and not aug_below(s, x)]
            r.shuffle(cands)
            for x in cands[:r.randrange(1, 3)]:
                if id(x) in over or any(id(p) in over for p in ups(x)) or \
                        any(id(y) in over for y in x.walk()):
                    continue
                gen.imp(d, x.mod)
                how = r.choice(('not-supported', 'config', 'default', 'type',
                                'mandatory'))
                if how == 'not-supported':
                    txt, ch = 'deviate not-supported;', None
                elif how == 'config' and x.kind == 'leaf' and \
                        x.default is None and not x.mandatory:
                    txt = 'deviate replace { config false; }'
                    ch = {'access': 'read-only'}
                elif how == 'default' and x.kind == 'leaf' and \
                        x.default is None and not x.mandatory and \
                        x.type.base == 'string':
                    txt = 'deviate add { default "deviated"; }'
                    ch = {'default': 'deviated'}
                elif how == 'type' and x.kind == 'leaf' and \
                        x.default is None:
                    txt = 'deviate replace { type int16; }'
                    ch = {'datatype': 'int16', 'values': None,
                          'unionmembertypes': None}
                elif how == 'mandatory' and x.kind == 'leaf' and \
                        x.default is None and not x.mandatory and \
                        not x.extra:
                    txt = 'deviate add { mandatory true; }'
                    ch = {'mandatory': 'true'}
                else:
                    continue
                d.deviations.append((x, txt))
                over[id(x)] = ch
    return extra, over


def ups(x):
    out = []
    while x is not None:
        out.append(x)
        x = x.parent
    return out


def iskey(n):
    return n.parent is not None and n.kind == 'leaf' and \
        n.parent.kind == 'list' and n.name in n.parent.keys and \
        n.mod is n.parent.mod


def incase(n):
    return any(p.kind in ('choice', 'case') for p in ups(n))


def used_by_leafref(x):
    return any(c.type is not None and c.type.base == 'leafref'
               for y in ups(x)[:3] for c in y.children) or \
        any(c.type is not None and c.type.base == 'leafref'
            for c in x.walk())


def aug_below(s, x):
    return any(y.mod is not x.mod for y in x.walk())


# -------------------------------------------------------------- expectations
def node(m, name, type, access, children=(), **attrs):
    return {'tag': '{%s}%s' % (m.ns, name), 'type': type, 'access': access,
            'attrs': {k: v for k, v in attrs.items()},
            'children': list(children)}


def datatype(m, t):
    if t.typedef:
        return t.typedef
    if t.base == 'identityref':
        return 'identityref:' + S._idname(m, t.idbase)
    if t.base == 'iid':
        return 'instance-identifier'
    return t.base


class Exp:
    """What the tree of a module has to say."""

    def __init__(self, s, extra, over):
        self.s = s
        self.extra = extra
        self.over = over

    def values(self, t):
        """None, a string, or a set-like description of identities."""
        if t.base == 'boolean':
            return 'true|false'
        if t.base == 'enumeration':
            return '|'.join(t.values)
        if t.base == 'identityref':
            return ('ids', t.idbase)
        if t.base == 'union':
            parts = [self.values(x) for x in t.values]
            parts = [p for p in parts if p]
            return ('union', parts) if parts else None
        return None

    def node(self, n):
        ch = self.over.get(id(n), {})
        if ch is None:
            return None
        a = {}
        if n.kind == 'list' and n.keys:
            a['key'] = ' '.join(n.keys)
        if n.kind in ('list', 'leaf-list') and n.user:
            a['ordered-by'] = 'user'
        if n.presence:
            a['presence'] = 'true'
        if n.kind == 'leaf' and n.default is not None:
            a['default'] = S.local(n.default)
        if n.kind == 'leaf-list' and n.default:
            a['default'] = ','.join(S.local(d) for d in n.default)
        if n.kind in ('leaf', 'leaf-list') and n.default is None and n.type.default is not None and \
                not n.mandatory and not iskey(n) and \
                'min-elements 1;' not in n.extra and \
                (n.kind == 'leaf' or n.mod.version != '1'):
            # read-only nodes: no data to tell, but the source says so
            a['default'] = S.local(n.type.default)
        if n.kind == 'choice' and n.defcase:
            a['default'] = n.defcase
        if n.status:
            a['status'] = n.status
        if iskey(n):
            a['mandatory'] = 'true'
            a['is_key'] = 'true'
        if n.mandatory:
            a['mandatory'] = 'true'
        if n.ifs:
            a['if-feature'] = ' '.join(n.ifs)
        if n.type is not None:
            if n.type.ref:
                a['datatype'] = '-> ../' + n.type.ref
            elif n.type.base == 'leafref':
                a['datatype'] = '-> ../' + n.type.values.split(':')[-1] \
                    .split('/')[-1]
            else:
                a['datatype'] = datatype(n.mod, n.type)
            a['values'] = None if n.type.ref else self.values(n.type)
            if n.type.base == 'union' and not n.type.typedef and \
                    not n.type.ref:
                a['unionmembertypes'] = '|'.join(
                    (x.typedef or x.base) for x in n.type.values)
        for k, v in ch.items():
            if k != 'access':
                a[k] = v
        kids = [self.node(c) for c in n.children]
        return {'tag': n.q, 'type': n.kind,
                'access': None if n.kind in ('choice', 'case') else
                ch.get('access',
                       'read-write' if n.config else 'read-only'),
                'attrs': {k: v for k, v in a.items() if v is not None},
                'children': [k for k in kids if k is not None]}

    def module(self, name):
        m = self.s.module(name)
        out = [self.node(x) for x in m.roots]
        out += [e for mm, e in self.extra if mm is m]
        return [x for x in out if x is not None]

    # identities
    def ids(self, name, base):
        """(must, may) of an identityref in module `name`."""
        s = self.s
        m = s.module(name)
        near = {m.name} | set(m.imports)
        for o in s.modules:
            imp = set(o.imports)
            if name in imp:
                near.add(o.name)
        may = {(o.name, i): o for o, i in s.derived(base)}
        known = {(base[0].name, base[1])}
        must = {}
        changed = True
        while changed:
            changed = False
            for o in s.modules:
                if o.name not in near:
                    continue
                for n, b in o.identities + (
                        o.submodule or {}).get('identities', []):
                    if b and (b[0].name, b[1]) in known and \
                            (o.name, n) not in known:
                        known.add((o.name, n))
                        must[(o.name, n)] = o
                        changed = True
        return ({'%s:%s' % (o.prefix, k[1]) for k, o in must.items()},
                {'%s:%s' % (o.prefix, k[1]) for k, o in may.items()})


CHECKED = ('key', 'ordered-by', 'presence', 'default', 'status', 'mandatory',
           'is_key', 'datatype', 'unionmembertypes', 'values', 'if-feature')


def diff_tree(exp, name, want, el, path=''):
    """First difference between the expectation and a real node, or None."""
    p = path + '/' + etree.QName(el).localname
    if el.get('type') != want['type']:
        return '%s: type %s, source says %s' % (p, el.get('type'),
                                                want['type'])
    if want['access'] and el.get('access') != want['access']:
        return '%s: access %s, source says %s' % (p, el.get('access'),
                                                  want['access'])
    for k in CHECKED:
        have, w = el.get(k), want['attrs'].get(k)
        if k == 'values':
            if want['type'] == 'choice':
                continue
            d = diff_values(exp, name, w, have)
            if d:
                return '%s: values %s' % (p, d)
            continue
        if k in ('status', 'if-feature') and want['type'] == 'case':
            continue        # of a shorthand case: a matter of taste
        if k == 'key' and have is not None:
            have = ' '.join(x.split(':')[-1] for x in have.split())
        if k == 'default' and have is not None and \
                el.get('default-ns') is not None:
            # identities: the name only
            have = ','.join(x.split(':')[-1] for x in have.split(','))
        if have != w:
            return '%s: %s is %r, source says %r' % (p, k, have, w)
    return diff_children(exp, name, want['children'], el, p)


def diff_values(exp, name, w, have):
    if w is None or isinstance(w, str):
        return None if have == w else '%r, source says %r' % (have, w)
    got = [] if have is None else have.split('|')
    must, may, fixed = set(), set(), []

    def collect(x):
        if isinstance(x, str):
            fixed.extend(x.split('|'))
        elif x[0] == 'ids':
            a, b = exp.ids(name, x[1])
            must.update(a)
            may.update(b)
        else:
            for y in x[1]:
                collect(y)
    collect(w)
    ids = [g for g in got if ':' in g]
    rest = [g for g in got if ':' not in g]
    if rest != fixed:
        return '%r, source says %r' % (rest, fixed)
    if len(set(ids)) != len(ids) and not isinstance(w, tuple):
        return 'repeated %r' % ids
    if not must <= set(ids) or not set(ids) <= may:
        return 'identities %s, derived in the modules involved %s, in all ' \
            'modules %s' % (sorted(ids), sorted(must), sorted(may))
    return None


def diff_children(exp, name, want, el, p):
    have = {}
    for c in el:
        if c.tag == 'namespace':
            continue
        if c.tag in have:
            return '%s: node %s twice' % (p, c.tag)
        have[c.tag] = c
    wt = {w['tag']: w for w in want}
    if set(wt) != set(have):
        return '%s: children missing %s, unexpected %s' % (
            p, sorted(set(wt) - set(have)), sorted(set(have) - set(wt)))
    for t, w in wt.items():
        d = diff_tree(exp, name, w, have[t], p)
        if d:
            return d
    return None


# --------------------------------------------------------------------- plans
def plan(prop, r, tier):
    cfg = {
        'gen': {'status': True, 'iid': True,
                'depth': r.choice((1, 2, 2, 3, 5)),
                'modules': r.choice((1, 2, 3, 3, 4, 5)),
                'width': r.choice((2, 3, 4)),
                'deftype': r.random() < 0.6, 'leafref': r.random() < 0.5,
                'mandatory': r.random() < 0.5},
        'preempt': r.choice((40, 100, 300)),
        'fault_budget': r.randrange(1, 5),
    }
    ops = []
    if prop == 'C11':
        for i in range(r.randrange(2, 6)):
            ops.append({'caches': r.choice(('keep', 'none', 'none', 'some',
                                            'nodeps')),
                        'order': r.randrange(1 << 20),
                        'part': r.choice((100, 100, 50)),
                        'how': r.choice(('name', 'name', 'file', 'twice')),
                        'rescan': r.random() < 0.3})
        return {'cfg': cfg, 'ops': ops}
    cfg['gen']['modules'] = r.choice((1, 2, 2, 3))
    cfg['disk'] = {k: r.choice((0.05, 0.1, 0.3)) for k in r.sample(
        ('enospc', 'eio', 'open_fail', 'rename_eio', 'remove_eio'),
        r.randrange(0, 4))}
    for i in range(r.randrange(2, 7)):
        op = {'order': r.randrange(1 << 20), 'faults': r.random() < 0.5,
              'file': r.random() < 0.15}
        x = r.random()
        if x < 0.45:
            op['crash_line'] = int(r.choice((10, 100, 400, 2000)) *
                                   r.random()) + 1
        elif x < 0.8:
            op['crash_write'] = r.randrange(1, 6)
        ops.append(op)
    return {'cfg': cfg, 'ops': ops}


# ----------------------------------------------------------------------- run
def run(run):
    try:
        {'C11': run_c11, 'C12': run_c12}[run.plan['prop']](run)
    finally:
        disk.use(None)


def make(run):
    gen = S.Gen(run.rng('schema'), run.cfg['gen'])
    s = gen.schema()
    extra, over = enrich(s, run.rng('rich'), gen)
    v = Version(s)
    spice(v, run.rng('spice'))
    b = Bench(run, v)
    folder = os.path.join(run.tmp, 'yang')
    os.makedirs(folder, exist_ok=True)
    for n, t in sorted(v.texts.items()):
        with disk._open(os.path.join(folder, n + '.yang'), 'wb') as f:
            f.write(t.encode('utf-8'))
    return s, v, b, folder, Exp(s, extra, over)


def expect_ok(run, exp, name, model):
    d = diff_children(exp, name, exp.module(name), model.tree, name)
    run.check(d is None, 'schema does not match its source', d)
    m = exp.s.module(name)
    run.check(model.name == name and model.prefix == m.prefix and
              model.url == m.ns, 'module header does not match its source',
              lambda: '%s %s %s' % (model.name, model.prefix, model.url))
    run.saw('tree', name, etree.tostring(model.tree))


def defaults_below(want, path=()):
    """Paths below a node whose defaults apply once the node exists."""
    out = []
    for c in want['children']:
        p = path + (c['tag'],)
        d = c['attrs'].get('default')
        if c['type'] in ('leaf', 'leaf-list'):
            if d is not None:
                out.append(p)
        elif c['type'] == 'choice':
            if d is not None:
                for k in c['children']:
                    if etree.QName(k['tag']).localname == d.split(':')[-1]:
                        q = p + (k['tag'],)
                        out.append(q)
                        out += defaults_below(k, q)
        elif c['type'] == 'container' and not c['attrs'].get('presence'):
            out += defaults_below(c, p)
    return out


def check_nodes(run, m, exp, name, model, fresh):
    """Questions about the nodes of a loaded schema."""
    def rel(top, n):
        p = []
        while n is not top:
            p.append(n.tag)
            n = n.getparent()
        return tuple(reversed(p))

    def walk(want, el):
        kids = {c.tag: c for c in el}
        for w in want:
            c = kids[w['tag']]
            got = sorted(rel(c, n) for n in m.default_in_use(c))
            exp_d = sorted(defaults_below(w))
            run.check(got == exp_d, 'wrong defaults in use',
                      lambda: '%s: %s, source says %s' % (
                          m.get_xpath(c, instance=False), got, exp_d))
            if w['type'] not in ('input', 'output'):
                # sources are only kept for what was compiled last
                st = m.get_statement(c)
                run.check(st is None and not fresh or
                          st is not None and st.arg == etree.QName(
                              c).localname and st.keyword == w['type'] or
                          w['type'] in ('choice', 'case') and st is None,
                          'wrong statement', lambda: '%s: %r, source says %s'
                          % (m.get_xpath(c, instance=False), st, w['type']))
            walk(w['children'], c)
    walk(exp.module(name), model.tree)


def find_nodes(run, m, names, when):
    """Data nodes lead to the schema that is loaded now."""
    top = etree.Element('{%s}config' % D.NC)

    def walk(el, data):
        for c in el:
            t = c.get('type')
            if t in ('choice', 'case'):
                walk(c, data)
            elif t in ('container', 'list', 'leaf', 'leaf-list'):
                e = etree.SubElement(data, c.tag)
                n = m.get_schema_node(e)
                run.check(n is c, 'wrong schema node',
                          lambda: '%s %s: %s' % (when, etree.tostring(c)[:300],
                                                 etree.tostring(n)[:300]))
                walk(c, e)
    for n in names:
        walk(m.models[n].tree, top)


def want_namespaces(s):
    return sorted((m.name, m.prefix, m.ns) for m in s.modules)


def run_c11(run):
    import random
    s, v, b, folder, exp = make(run)
    names = [m.name for m in s.modules]
    ref = {}
    other = os.path.join(run.tmp, 'other')
    if any(op['rescan'] for op in run.plan['ops']):
        v2 = upgrade(v, run.rng('upgrade'), 1)
        os.makedirs(other)
        for n, t in sorted(v2.texts.items()):
            with disk._open(os.path.join(other, n + '.yang'), 'wb') as f:
                f.write(t.encode('utf-8'))
        names2 = [m.name for m in v2.schema.modules]

        def clean():
            m = b.connect()
            m.scan_models(folder=other, download='ignore')
            return ({n: tree_text(m.load_model(n)) for n in names2},
                    sorted(m.namespaces))
        st, ref2 = b.process(clean)
        if st == 'raised':
            raise ref2
        for f in sorted(disk._listdir(other)):
            if f.endswith('.xml'):
                disk._remove(os.path.join(other, f))
    for op in run.plan['ops']:
        r = random.Random(op['order'])
        order = list(names)
        r.shuffle(order)
        order = order[:max(1, len(order) * op['part'] // 100)]
        for f in sorted(disk._listdir(folder)):
            if not f.endswith('.xml'):
                continue
            if op['caches'] == 'none' or \
                    op['caches'] == 'some' and r.random() < 0.5 or \
                    op['caches'] == 'nodeps' and f == 'dependencies.xml':
                disk._remove(os.path.join(folder, f))
        if op['how'] == 'twice':
            order = order + order[:1 + len(order) // 2]

        def go():
            m = b.connect()
            m.scan_models(folder=folder, download='ignore')
            out = []
            for n in order:
                p = os.path.join(folder, n + '.xml')
                if op['how'] == 'file' and os.path.isfile(p):
                    run.probe('by_file')
                    model = m.load_model(p)
                else:
                    model = m.load_model(n)
                expect_ok(run, exp, n, model)
                out.append((n, tree_text(model)))
            ns = sorted(m.namespaces)
            run.check(ns == want_namespaces(s), 'wrong namespaces',
                      lambda: '%s\nsources: %s' % (ns, want_namespaces(s)))
            for n in sorted(set(order[:1] + order[-1:])):
                check_nodes(run, m, exp, n, m.models[n],
                            op['caches'] == 'none' and n == order[-1] and
                            op['how'] == 'name')
            find_nodes(run, m, sorted(set(order)), 'first')
            if op['rescan']:
                # the same device object, other sources
                m.scan_models(folder=other, download='ignore')
                again = [n for n in names2]
                r.shuffle(again)
                for n in again:
                    model = m.load_model(n)
                    t = tree_text(model)
                    run.check(t == ref2[0][n], 'schema of older sources',
                              lambda: '%s\n%s\nin a new process\n%s' % (
                                  n, first_diff(t, ref2[0][n]),
                                  first_diff(ref2[0][n], t)))
                ns = sorted(m.namespaces)
                run.check(ns == ref2[1], 'namespaces of older sources',
                          lambda: '%s\nin a new process: %s' % (ns, ref2[1]))
                find_nodes(run, m, again, 'after another scan')
                run.probe('rescan')
            return out
        st, val = b.process(go)
        if st == 'raised':
            raise val
        for n, t in val:
            if n not in ref:
                ref[n] = t
            run.check(ref[n] == t, 'schema depends on history',
                      lambda: '%s\n%s\nfirst seen as\n%s' % (
                          n, first_diff(t, ref[n]), first_diff(ref[n], t)))
    run.facts = {n: hashlib.md5(t.encode()).hexdigest()
                 for n, t in ref.items()}


def first_diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '...' + a[max(0, i - 200):i + 300]


def run_c12(run):
    import random
    s, v, b, folder, exp = make(run)
    names = [m.name for m in s.modules]
    clean = os.path.join(run.tmp, 'clean')
    os.makedirs(clean)
    for n, t in sorted(v.texts.items()):
        with disk._open(os.path.join(clean, n + '.yang'), 'wb') as f:
            f.write(t.encode('utf-8'))

    def reference():
        m = b.connect()
        m.scan_models(folder=clean, download='ignore')
        out = {}
        for n in names:
            model = m.load_model(n)
            expect_ok(run, exp, n, model)
            out[n] = tree_text(model)
        return out, sorted(m.namespaces)
    st, val = b.process(reference)
    if st == 'raised':
        raise val
    ref, refns = val

    def loads(op, last=False):
        order = list(names)
        random.Random(op['order']).shuffle(order)
        got = []

        def go():
            m = b.connect()
            m.scan_models(folder=folder, download='ignore')
            for n in order:
                p = os.path.join(folder, n + '.xml')
                if op.get('file') and os.path.isfile(p):
                    model = m.load_model(p)
                else:
                    model = m.load_model(n)
                t = tree_text(model)
                got.append(n)
                run.check(t == ref[n], 'corrupt schema loaded',
                          lambda: '%s\n%s\nclean compilation\n%s' % (
                              n, first_diff(t, ref[n]),
                              first_diff(ref[n], t)))
                run.saw('load', n, repr(op))
            ns = sorted(m.namespaces)
            run.check(ns == refns, 'corrupt namespaces',
                      lambda: '%s\nclean: %s' % (ns, refns))
        b.quiet(not op.get('faults') and 'crash_write' not in op)
        b.disk.crash_after = None
        if 'crash_write' in op:
            b.disk.writes = 0
            b.disk.crash_after = op['crash_write']
        try:
            st, val = b.process(go, op.get('crash_line'))
        finally:
            b.quiet(True)
        run.probe('load_' + st)
        if st == 'raised' and (last or isinstance(val, core.Violation)):
            raise val
        if st == 'raised':
            run.probe('raised_' + type(val).__name__)
            b.disk.budget = max(b.disk.budget, 1)

    for op in run.plan['ops']:
        loads(op)
    # the first fault-free load succeeds
    loads({'order': 1}, last=True)
    loads({'order': 2}, last=True)
