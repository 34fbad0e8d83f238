"""C24: what the comparison of two releases of a model says.
C20: the texts of models and of their differences.

One or two devices are upgraded and downgraded again and again; models of
releases seen at any time are compared, by several threads at once."""
import copy
import os
import random
import re
from collections import Counter

from . import device as D
from . import disk
from . import net
from . import schema as S
from .scen_compat import mutated
from .scen_scan import Version

MARKS = ('added', 'deleted', 'modified')
LINE = re.compile(r'\+--(?:rw|ro|-w|-x|-n|--)?\s?:?\(?([\w.:-]+)')


# --------------------------------------------------------------------- plans
def plan(prop, r, tier):
    cfg = {
        'gen': {'status': False, 'iid': r.random() < 0.3,
                'depth': r.choice((1, 2, 2, 3)),
                'modules': r.choice((1, 2, 3)), 'width': r.choice((2, 3, 4)),
                'deftype': r.random() < 0.5, 'leafref': r.random() < 0.5,
                'mandatory': r.random() < 0.5},
        'preempt': r.choice((0, 10, 40, 150)),
        'versions': r.choice((2, 2, 3, 4)),
        'devices': r.choice((1, 1, 2)),
    }
    visits = [{'d': r.randrange(2), 'v': r.randrange(4),
               'how': r.choice(('name', 'name', 'file')),
               'mode': r.choice(('check', 'check', 'force'))}
              for _ in range(r.randrange(2, 6))]
    ops = [{'a': r.randrange(9), 'b': r.randrange(9),
            'threads': r.choice((0, 0, 2, 3)), 's': r.randrange(1 << 30)}
           for _ in range(r.randrange(2, 6))]
    return {'cfg': cfg, 'visits': visits, 'ops': ops}


KIND = re.compile(r'  /\*kind\*/ [\w-]+ (bare-\w+).*\n')
BODIES = (
    'container NAME { }', 'container NAME { presence "x"; }',
    'container NAME { leaf a { type string; } leaf b { type uint8; } }',
    'container NAME { container a { leaf c { type string; } } }',
    'leaf NAME { type string; }', 'leaf NAME { type uint8; default 1; }',
    'leaf-list NAME { type string; ordered-by user; }',
    'list NAME { key a; leaf a { type string; } leaf b { type string; } }',
    'list NAME { key "b a"; leaf a { type string; } leaf b { type string; } }',
    'choice NAME { leaf NAME-x { type string; } case NAME-y { leaf NAME-z '
    '{ type string; } } }',
    'notification NAME { leaf a { type string; } }',
    'rpc NAME { input { leaf a { type string; } } }',
    'rpc NAME { input { leaf a { mandatory true; type string; } } '
    'output { anyxml b; container c { leaf d { type string; } } } }',
    'anyxml NAME;',
    'choice NAME { mandatory true; leaf NAME-x { type string; } }',
    'feature NAME-f; leaf NAME { if-feature NAME-f; type string; }',
    'feature NAME-f; container NAME { if-feature NAME-f; anyxml a; }',
    'container NAME { container p { leaf q { type string; } } '
    'choice r { case s { leaf t { type string; mandatory true; } } '
    'case u { container w { config false; leaf x { type string; } } } } '
    'list y { config false; leaf z { type string; } } anyxml last; }',
)


def kind(r, name):
    return '  /*kind*/ %s\n' % r.choice(BODIES).replace('NAME', name)


def others(s, r, tag):
    """Roots that are no data: operations and notifications."""
    for m in s.modules:
        if r.random() < 0.6:
            continue
        base = '%s%d' % (tag, r.randrange(1 << 20))
        body = ''.join(
            '      leaf i%d { type %s; }\n' % (
                i, r.choice(('string', 'uint8'))) for i in range(
                    r.randrange(0, 3)))
        x = r.random()
        if x < 0.4:
            m.extra += ('\n  rpc do-%s {\n    input {\n%s%s    }\n  }\n' % (
                base, body, '      container deep { leaf y { type string; } }\n'
                if r.random() < 0.5 else ''))
        elif x < 0.8:
            m.extra += '\n  notification on-%s {\n%s  }\n' % (base, body)
        else:
            m.extra += '\n' + kind(r, 'bare-' + base)


def tweak(s, r):
    """The nodes given as text may change as well."""
    for m in s.modules:
        # a node of another kind takes the name
        m.extra = KIND.sub(
            lambda x: kind(r, x.group(1)) if r.random() < 0.5 else x.group(0),
            m.extra)
    ms = [m for m in s.modules if 'leaf i' in m.extra]
    if not ms:
        return
    m = r.choice(ms)
    x = r.choice([f for f in re.findall(r'leaf i\d+ \{ type \w+; \}',
                                        m.extra)])
    m.extra = m.extra.replace(x, r.choice((
        '', x.replace('uint8', 'int32').replace('string', 'uint16'),
        x + '\n      leaf extra%d { type string; }' % r.randrange(1 << 20))),
        1)


# ------------------------------------------------------------------ oracle
def flat(tree):
    """path -> attributes"""
    out = {}

    def go(e, path):
        for c in e:
            p = path + (c.tag,)
            if p in out:
                raise ValueError('node twice: %s' % (p,))
            out[p] = dict(c.attrib)
            go(c, p)
    go(tree, ())
    return out


def local(tag):
    return tag.split('}')[-1]


def expected(f1, f2):
    marks = {}
    for p, a in f2.items():
        if p not in f1:
            marks[p] = 'added'
        elif a != f1[p]:
            marks[p] = 'modified'
    for p in f1:
        if p not in f2:
            marks[p] = 'deleted'
    return marks


def above(paths):
    return {p[:i] for p in paths for i in range(1, len(p))}


def lines(text):
    """[(section, name, mark)]"""
    out, section = [], 'data'
    for x in text.split('\n')[1:]:
        if '+--' not in x:
            if x.strip():
                section = x.strip(' :')
            continue
        x = x[x.index('+--'):]
        name = LINE.match(x).group(1).split(':')[-1]
        end = x.split()[-1]
        out.append((section, name, end if end in MARKS else ''))
    return out


SECTION = {'rpc': 'rpcs', 'notification': 'notifications'}


def shown(paths, marks, types):
    return Counter((SECTION.get(types[p[:1]], 'data'), local(p[-1]),
                    marks.get(p, '')) for p in paths)


def judge(run, d, m1, m2, ask):
    """d: the difference; ask(what): what a caller sees of it."""
    f1, f2 = flat(m1.tree), flat(m2.tree)
    marks = expected(f1, f2)
    types = {p: a['type'] for p, a in list(f1.items()) + list(f2.items())
             if len(p) == 1}
    run.check(bool(d) == (f1 != f2), 'differences overlooked or made up',
              lambda: '%s, but %s' % (bool(d), sorted(
                  p for p in set(f1) | set(f2) if f1.get(p) != f2.get(p))))
    fd = flat(d.tree)
    got = {p: a['diff'] for p, a in fd.items() if a.get('diff')}
    run.check(got == marks, 'wrong differences',
              lambda: 'said %s\nis %s' % (
                  sorted(set(got.items()) - set(marks.items())),
                  sorted(set(marks.items()) - set(got.items()))))
    extra = set(fd) - set(marks) - above(marks)
    run.check(not extra, 'unchanged nodes in the difference',
              lambda: str(sorted(extra)))
    for what in ('all',) + MARKS:
        text = ask(what)
        if what == 'all':
            want = shown(fd, marks, types)
        else:
            ps = {p for p, x in marks.items() if x == what}
            if not ps:
                run.check(text is None, 'nothing to show but shown',
                          lambda: '%s: %s' % (what, text))
                continue
            want = shown(ps | above(ps), {p: what for p in ps}, types)
            run.check(text is not None, 'difference not shown',
                      lambda: '%s: %s' % (what, sorted(ps)))
        have = Counter(lines(text))
        run.check(have == want, 'wrong text',
                  lambda: '%s\nonly in the text %s\nmissing %s\n%s' % (
                      what, sorted((have - want).items()),
                      sorted((want - have).items()), text))
    kinds = Counter(marks.values())
    run.saw('diff', sorted(kinds.items()), bool(d), sorted(marks)[:3])
    for k in kinds:
        run.probe(k)
    if any(f2[p]['type'] not in ('leaf', 'leaf-list')
           for p, x in marks.items() if x == 'modified'):
        run.probe('inner_modified')


# ------------------------------------------------------------------- texts
FLAG = {'write': '-w', 'read-write': 'rw', 'read-only': 'ro', None: ''}


def caption(e, m):
    """How pyang's tree format shows a node."""
    ns, name = e.tag[1:].split('}')
    if ns != m.url:
        name = '%s:%s' % ({v: k for k, v in m.prefixes.items()}[ns], name)
    t = e.get('type')
    flags = {'rpc': '-x', 'action': '-x', 'notification': '-n'}.get(
        t, FLAG.get(e.get('access'), '--'))
    optional = '' if e.get('mandatory') == 'true' else '?'
    if t == 'choice':
        return '%s (%s)%s' % (flags, name, optional)
    if t == 'case':
        return ':(%s)' % name
    if t in ('leaf', 'anyxml', 'anydata'):
        return '%s %s%s' % (flags, name, optional)
    if t == 'leaf-list':
        return '%s %s*' % (flags, name)
    if t == 'list':
        k = e.get('key')
        return '%s %s*%s' % (flags, name, '' if k is None else ' [%s]' % k)
    return '%s %s' % (flags, name)


def render(tree, m1, m2=None):
    """The text of a model, or of a difference of two, in full."""
    def show(e):
        return caption(e, m2 if m2 is not None and e.get('diff') == 'added'
                       else m1)

    def tail(e):
        if m2 is not None:
            return e.get('diff', '')
        t = '<%s>' % e.get('type') if e.get('type') in ('anyxml', 'anydata') \
            else e.get('datatype', '')
        f = e.get('if-feature')
        return t if f is None else '%s {%s}?' % (t, f)

    def column(e):
        n = max(len(show(x)) for x in e.getparent())
        return (n + 3 + 2) // 3 * 3

    def walk(es, bars, out):
        for i, e in enumerate(es):
            line = bars + '+--' + show(e)
            t = tail(e)
            if t and t[0] != ' ':
                line += ' ' * (column(e) - len(show(e)))
            line += t
            out.append(line)
            walk(list(e), bars + ('|  ' if i < len(es) - 1 else '   '), out)
        return out

    def part(title, want):
        out = walk([e for e in tree if want(e.get('type'))], '    ', [])
        return ['', title] + out if out and title else out
    return '\n'.join(
        ['module: ' + tree.tag] +
        part('', lambda t: t not in SECTION) +
        part('  rpcs:', 'rpc'.__eq__) +
        part('  notifications:', 'notification'.__eq__))


def only(tree, mark):
    """The nodes with a mark and what is above them."""
    t = copy.deepcopy(tree)
    for e in list(t.iter())[::-1]:
        if e is t:
            continue
        if e.get('diff') != mark:
            e.attrib.pop('diff', None)
            if not len(e):
                e.getparent().remove(e)
    return t if len(t) else None


def texts(run, r, m1, m2, d, threads):
    """What everybody reads, however often and in whichever order."""
    objs = {'one': m1, 'two': m2, 'diff': d}
    want = {(k, 'all'): render(m.tree, m) for k, m in (('one', m1),
                                                      ('two', m2))}
    want['diff', 'all'] = render(d.tree, m1, m2)
    for x in MARKS:
        t = only(d.tree, x)
        want['diff', x] = None if t is None else render(t, m1, m2)

    def reader(todo):
        for k, what in todo:
            text = show(objs[k], what)
            run.check(text == want[k, what], 'wrong text',
                      lambda: '%s %s\n%s\nexpected\n%s' % (
                          k, what, text, want[k, what]))
            run.saw(text)
            run.probe(what)

    def todo():
        x = [k for k in sorted(want) for _ in range(r.choice((1, 1, 2)))]
        r.shuffle(x)
        return x
    if threads and run.cfg['preempt']:
        ts = [run.sim.spawn(lambda x=todo(): reader(x), name='reader%d' % k)
              for k in range(threads)]
        for t in ts:
            run.sim.join(t)
            if t.exc is not None:
                raise t.exc
        run.probe('shared')
    reader(todo())


def look(run, r, d, m1, m2):
    """compare() tells the attributes of one node on both sides."""
    if m1.prefixes != m2.prefixes:
        return
    f1, f2 = flat(m1.tree), flat(m2.tree)
    ps = sorted(set(f1) | set(f2))
    if not ps:
        return
    pre = {v: k for k, v in m1.prefixes.items()}
    for p in r.sample(ps, min(3, len(ps))):
        if any(t[1:].split('}')[0] not in pre for t in p):
            continue
        xp = '/' + m1.tree.tag + ''.join('/%s:%s' % (
            pre[t[1:].split('}')[0]], local(t)) for t in p)
        text = d.compare(xp)
        parts = re.split(r'-+ MODEL [12] -+\n', text)
        run.check(len(parts) == 3, 'wrong comparison', lambda: text)
        for f, part in ((f1, parts[1]), (f2, parts[2])):
            body = re.sub(r'\n-+\n$', '', part).rstrip('\n')
            if p not in f:
                run.check(body == 'None', 'wrong comparison', lambda: text)
                continue
            want = {"  %s = '%s'" % kv for kv in f[p].items()}
            run.check(want == set(body.split('\n')[3:]) and
                      body.split('\n')[0] == "tag: '%s'" % p[-1],
                      'wrong comparison',
                      lambda: '%s\n%s\nattributes %s' % (xp, text, f[p]))
        run.probe('compared')


# -------------------------------------------------------------------- a run
def run(run):
    try:
        _run(run)
    finally:
        disk.use(None)


def _run(run):
    from ncdiff.model import ModelDiff
    sim = run.sim
    r = run.rng('c24')
    base = S.Gen(run.rng('schema'), run.cfg['gen']).schema()
    others(base, r, 'b')
    vs = [Version(base)]
    while len(vs) < run.cfg['versions']:
        t = vs[r.randrange(len(vs))].schema
        for _ in range(r.choice((1, 1, 2, 4, 8))):
            t, _lab = mutated(t, r)
        if r.random() < 0.6:
            others(t, r, 'v%d' % len(vs))
        if r.random() < 0.5:
            tweak(t, r)
        vs.append(Version(t))
    for i, v in enumerate(vs):
        v.caps = ['urn:sim:release?n=%d' % i]
    disk.use(disk.Disk(sim, run.tmp))
    devs, seen = {}, []
    for i, p in enumerate(run.plan['visits']):
        k = p['d'] % run.cfg['devices']
        v = vs[p['v'] % len(vs)]
        if k not in devs:
            devs[k] = D.SimDevice(sim, v.schema, rng=None, name='dev%d' % k)
            devs[k].quiet = True
        dev = devs[k]
        dev.drop_all()
        v.install(dev)
        sim.nopreempt += 1
        try:
            m = net.connect(sim, dev, timeout=30)
            folder = os.path.join(run.tmp, 'dev%d' % k)
            m.scan_models(folder=folder, download=p['mode'])
            for x in v.schema.modules:
                f = os.path.join(folder, x.name + '.xml')
                m.load_model(f if p['how'] == 'file' and os.path.isfile(f)
                             else x.name)
        finally:
            sim.nopreempt -= 1
        seen.append((v, {x.name: m.models[x.name]
                         for x in v.schema.modules}))
    for op in run.plan['ops']:
        va, a = seen[op['a'] % len(seen)]
        vb, b = seen[op['b'] % len(seen)]
        rr = random.Random(op['s'])
        for name in sorted(set(a) & set(b)):
            one(run, rr, ModelDiff, a[name], b[name], op['threads'])


def show(d, what):
    return str(d) if what == 'all' else getattr(d, what)


def one(run, r, ModelDiff, m1, m2, threads):
    sim = run.sim
    before = [S_tree(m) for m in (m1, m2)]
    d = ModelDiff(m1, m2)
    if run.plan['prop'] == 'C20':
        texts(run, r, m1, m2, d, threads)
        run.check([S_tree(m) for m in (m1, m2)] == before,
                  'printing changed a model', '')
        return
    answers = {}
    if threads and run.cfg['preempt']:
        def caller(k, todo):
            for what in todo:
                answers.setdefault(what, []).append(show(d, what))
        ts = []
        for k in range(threads):
            todo = list(('all',) + MARKS)
            r.shuffle(todo)
            ts.append(sim.spawn(lambda k=k, todo=todo: caller(k, todo),
                                name='caller%d' % k))
        for t in ts:
            sim.join(t)
            if t.exc is not None:
                raise t.exc
        run.probe('shared')
    answers_first = {}

    def ask(what):
        text = show(d, what)
        for x in answers.get(what, ()):
            run.check(x == text, 'threads are told different things',
                      lambda: '%s: %s\n%s' % (what, x, text))
        answers_first[what] = text
        return text
    judge(run, d, m1, m2, ask)
    judge(run, ModelDiff(m2, m1), m2, m1,
          lambda what, e=ModelDiff(m2, m1): show(e, what))
    look(run, r, d, m1, m2)
    run.check([S_tree(m) for m in (m1, m2)] == before,
              'comparison changed a model', '')
    run.check(not ModelDiff(m1, m1), 'a model differs from itself', '')


def S_tree(m):
    from lxml import etree
    return etree.tostring(m.tree)
