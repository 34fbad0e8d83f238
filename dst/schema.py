"""Reference schemas: random module sets, their YANG text, and random states.

Nothing here uses pyang or ncdiff: the reference schema is generated first and
the YANG text is written from it.
"""
import json


class SN:
    """Schema node."""
    __slots__ = ('kind', 'name', 'mod', 'children', 'presence', 'keys',
                 'user', 'default', 'type', 'config', 'status', 'parent',
                 'defcase', 'extra', 'shorthand', 'sub', 'grouping',
                 'mandatory', 'virtual', 'ifs', 'typedefault')

    def __init__(self, kind, name, mod, **kw):
        self.kind = kind
        self.name = name
        self.mod = mod          # Module that owns the namespace
        self.children = []
        self.presence = False
        self.keys = []
        self.user = False
        self.default = None     # leaf: str; leaf-list: list of str
        self.typedefault = False    # the default is the typedef's
        self.type = None
        self.config = True
        self.status = None
        self.parent = None
        self.defcase = None
        self.shorthand = False
        self.sub = None
        self.grouping = None
        self.mandatory = False
        self.extra = []         # extra substatements
        self.virtual = False    # comes out of a uses statement
        self.ifs = []           # if-feature names
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def q(self):
        return '{%s}%s' % (self.mod.ns, self.name)

    def add(self, c):
        c.parent = self
        self.children.append(c)
        return c

    def data_children(self):
        """Data nodes below, choices and cases made transparent."""
        out = []
        for c in self.children:
            if c.kind in ('choice', 'case'):
                out.extend(c.data_children())
            else:
                out.append(c)
        return out

    def cases(self):
        """[(choice, case), ...] between this node and its data parent."""
        out = []
        p = self.parent
        while p is not None and p.kind in ('choice', 'case'):
            if p.kind == 'case':
                out.append((p.parent, p))
            p = p.parent
        return out

    def find(self, q):
        for c in self.data_children():
            if c.q == q:
                return c
        return None

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def path(self):
        p, out = self, []
        while p is not None:
            out.append(p.name)
            p = p.parent
        return '/' + '/'.join(reversed(out))


class Module:
    def __init__(self, name, prefix, ns, rev):
        self.name = name
        self.prefix = prefix
        self.ns = ns
        self.revs = [rev]
        self.imports = {}        # module name -> local prefix
        self.identities = []     # (name, base or None) base: (Module, name)
        self.roots = []
        self.augments = []       # (target SN, [children])
        self.submodule = None    # Submodule
        self.typedefs = []
        self.extra = ''          # extra raw statements
        self.version = '1'
        self.features = []
        self.deviations = []     # (target SN, text of the deviate statement)

    def p(self, other):
        """Prefix under which this module refers to another."""
        return self.prefix if other is self else self.imports[other.name]


IIDVALUES = ['k1', 'k1', 'k2', 'a b', "it's", 'say "hi"', 'a.b', 'x/y[1]=2',
             '', 'a]b', "'", '1']


class Type:
    """base: string, uint8, boolean, enumeration, identityref, empty, iid"""

    def __init__(self, base, values=None, idbase=None, typedef=None,
                 ref=None, default=None):
        self.default = default   # given by the typedef
        self.ref = ref           # name of the sibling a leafref points to
        self.base = base
        self.values = values     # enumeration
        self.idbase = idbase     # (Module, name)
        self.typedef = typedef   # name of a typedef in the same module


class Schema:
    def __init__(self):
        self.modules = []
        self.roots = []          # SN
        self.submodules = []     # (name, text builder)

    def module(self, name):
        for m in self.modules:
            if m.name == name:
                return m
        return None

    def root(self, q):
        for r in self.roots:
            if r.q == q:
                return r
        return None

    def by_ns(self, ns):
        for m in self.modules:
            if m.ns == ns:
                return m

    def derived(self, base):
        """All identities derived (transitively) from base=(Module,name)."""
        out = []
        known = {(base[0].name, base[1])}
        changed = True
        while changed:
            changed = False
            for m in self.modules:
                for n, b in m.identities + (
                        m.submodule or {}).get('identities', []):
                    if b is not None and (b[0].name, b[1]) in known and \
                            (m.name, n) not in known:
                        known.add((m.name, n))
                        out.append((m, n))
                        changed = True
        return out

    def walk(self):
        for r in self.roots:
            yield from r.walk()

    # ------------------------------------------------------------ YANG text
    def texts(self, rng=None):
        """{file stem: YANG text}"""
        out = {}
        for m in self.modules:
            out.update(module_texts(self, m))
        return out


def q(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def _type_text(m, t):
    if t.ref:
        return 'type leafref { path "../%s"; require-instance false; }' % (
            '%s:%s' % (m.p(m), t.ref) if m.version == '1' or
            len(t.ref) % 2 else t.ref)
    if t.typedef:
        return 'type %s;' % t.typedef
    if t.base == 'enumeration':
        return 'type enumeration { %s }' % ' '.join(
            'enum %s;' % v for v in t.values)
    if t.base == 'identityref':
        return 'type identityref { base %s; }' % _idname(m, t.idbase)
    if t.base == 'leafref':
        return 'type leafref { path "%s"; }' % t.values
    if t.base == 'iid':
        return 'type instance-identifier { require-instance false; }'
    if t.base == 'union':
        return 'type union { %s }' % ' '.join(
            _type_text(m, x) for x in t.values)
    return 'type %s;' % t.base


def _value_text(m, v):
    return v if isinstance(v, str) else _idname(
        m, [(x, v[1]) for x in m.known if x.ns == v[0]][0])


def local(v):
    """A default value without the prefix of an identity."""
    return v if isinstance(v, str) else v[1]


def _idname(m, b):
    return b[1] if b[0] is m and not m.extra_prefix_self else \
        '%s:%s' % (m.p(b[0]), b[1])


Module.extra_prefix_self = False


def _node_text(schema, m, n, ind):
    sp = '  ' * ind
    L = []
    if n.virtual:
        return L

    def sub(x):
        L.append('  ' * (ind + 1) + x)
    if n.kind == 'choice':
        L.append(sp + 'choice %s {' % n.name)
        if n.defcase:
            sub('default %s;' % n.defcase)
        if n.mandatory:
            sub('mandatory true;')
        for f in n.ifs:
            sub('if-feature %s;' % f)
        if not n.config and (n.parent is None or n.parent.config):
            sub('config false;')
        for c in n.children:
            if c.mod is not m:
                continue
            if c.shorthand:
                for cc in c.children:
                    L.extend(_node_text(schema, m, cc, ind + 1))
            else:
                sub('case %s {' % c.name)
                for cc in c.children:
                    if cc.mod is m:
                        L.extend(_node_text(schema, m, cc, ind + 2))
                sub('}')
        L.append(sp + '}')
        return L
    L.append(sp + '%s %s {' % (n.kind, n.name))
    if n.kind == 'list' and n.keys:
        ks = n.keys
        if n.mod.extra_prefix_self:
            ks = ['%s:%s' % (m.prefix, k) for k in ks]
        # any white space separates keys
        h = sum(map(ord, n.name)) % 8
        sub('key "%s";' % {0: '  ', 1: '\n      ', 2: '\t', 3: '\n'}.get(
            h, ' ').join(ks))
    if n.kind == 'container' and n.presence:
        sub('presence "present";')
    if n.kind in ('leaf', 'leaf-list'):
        sub(_type_text(m, n.type))
    if n.user:
        sub('ordered-by user;')
    if n.default is not None and not n.typedefault:
        # the default of a leaf-list is several values
        for d in ([n.default] if n.kind == 'leaf' else n.default):
            sub('default %s;' % q(_value_text(m, d)))
    if not n.config and (n.parent is None or n.parent.config):
        sub('config false;')
    if n.status:
        sub('status %s;' % n.status)
    if n.mandatory and n.kind == 'leaf':
        sub('mandatory true;')
    for f in n.ifs:
        sub('if-feature %s;' % f)
    for x in n.extra:
        sub(x)
    for c in n.children:
        if c.mod is m:
            L.extend(_node_text(schema, m, c, ind + 1))
    L.append(sp + '}')
    return L


def module_texts(schema, m):
    out = {}
    sub = m.submodule
    L = ['module %s {' % m.name]
    if m.version != '1':
        L.append('  yang-version %s;' % m.version)
    L.append('  namespace %s;' % q(m.ns))
    L.append('  prefix %s;' % m.prefix)
    for name, pfx in m.imports.items():
        L.append('  import %s { prefix %s; }' % (name, pfx))
    if sub:
        L.append('  include %s;' % sub['name'])
        for extra in sub.get('nested', []):
            L.append('  include %s;' % extra)
    L.append('  organization "sim";')
    for r in m.revs:
        L.append('  revision %s { description "rev %s"; }' % (r, r))
    for f in m.features:
        L.append('  feature %s;' % f)
    for t in m.typedefs:
        L.append('  typedef %s {' % t[0])
        L.append('    ' + _type_text(m, t[1]))
        if len(t) > 2 and t[2] is not None:
            L.append('    default %s;' % q(_value_text(m, t[2])))
        L.append('  }')
    for n, b in m.identities:
        if b is None:
            L.append('  identity %s;' % n)
        else:
            L.append('  identity %s { base %s; }' % (n, _idname(m, b)))
    if m.extra:
        L.append(m.extra)
    subL = []
    for r in m.roots:
        target = subL if r.sub else L
        if r.grouping:
            target.append('  grouping %s {' % r.grouping)
            target.extend(_node_text(schema, m, r, 2))
            target.append('  }')
            target.append('  uses %s;' % r.grouping)
        else:
            target.extend(_node_text(schema, m, r, 1))
    def path_of(p, prefix):
        path = []
        while p is not None:
            path.append('%s:%s' % (prefix(p.mod), p.name))
            p = p.parent
        return '/' + '/'.join(reversed(path))

    def augment(out, target, kids, prefix):
        out.append('  augment "%s" {' % path_of(target, prefix))
        for k in kids:
            out.extend(_node_text(schema, m, k, 2))
        out.append('  }')
    for target, kids in m.augments:
        augment(L, target, kids, m.p)
    for target, text in m.deviations:
        L.append('  deviation "%s" {' % path_of(target, m.p))
        L.append('    %s' % text)
        L.append('  }')
    L.append('}')
    out[m.name] = '\n'.join(L) + '\n'
    if sub:
        S = ['submodule %s {' % sub['name']]
        if m.version != '1':
            S.append('  yang-version %s;' % m.version)
        S.append('  belongs-to %s { prefix %s; }' % (m.name, m.prefix))
        simp = sub.get('imports', m.imports)
        for name, pfx in simp.items():
            S.append('  import %s { prefix %s; }' % (name, pfx))
        for x in sub.get('nested', []):
            S.append('  include %s;' % x)
        S.append('  revision %s;' % m.revs[0])
        for n, b in sub.get('identities', []):
            S.append('  identity %s { base %s:%s; }'
                     % (n, m.prefix if b[0] is m else simp[b[0].name], b[1]))
        S.extend(subL)
        for target, kids in sub.get('augments', []):
            augment(S, target, kids, lambda mm: m.prefix if mm is m
                    else simp[mm.name])
        S.append('}')
        out[sub['name']] = '\n'.join(S) + '\n'
        for x in sub.get('nested', []):
            out[x] = ('submodule %s {\n%s  belongs-to %s { prefix %s; }\n'
                      '  revision %s;\n}\n' % (
                          x, '' if m.version == '1' else
                          '  yang-version %s;\n' % m.version,
                          m.name, m.prefix, m.revs[0]))
    return out


# -------------------------------------------------------------------- random
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta',
         'iota', 'kappa', 'lam', 'mu', 'nu', 'xi', 'omi', 'pi', 'rho', 'sig',
         'tau', 'ups', 'phi', 'chi', 'psi', 'omega']


class Gen:
    """Random schema.  opts: dict of feature switches."""

    def __init__(self, rng, opts=None):
        self.r = rng
        self.o = dict(depth=3, modules=3, width=4, status=True, ro=True,
                      iid=False, choice=True, identity=True, submodule=True,
                      odd_names=True, defaults=True, nested_choice=True,
                      top_leaflist=False, typedef=True, keydef=True,
                      leafref=False, deftype=False, mandatory=False)
        if opts:
            self.o.update(opts)
        self.n = 0
        # real models use the same names again and again
        self.reuse = rng.random() < 0.6
        self.used = ['name', 'config']

    def name(self, base, parent=None, mod=None):
        if self.reuse and mod is not None and self.r.random() < 0.5:
            w = self.r.choice(self.used + (
                [parent.name] if parent is not None else []))
            if (mod, w) not in self.taken(parent, mod):
                return w
        w = self.fresh(base)
        self.used.append(w)
        return w

    def taken(self, parent, mod):
        """Names that a new child of a node may not have."""
        if parent is None:
            return {(n.mod, n.name) for n in mod.roots}
        while parent.kind in ('choice', 'case') and parent.parent is not None:
            parent = parent.parent
        out = set()

        def collect(n):
            for c in n.children:
                out.add((c.mod, c.name))
                if c.kind in ('choice', 'case'):
                    collect(c)
        collect(parent)
        return out

    def fresh(self, base):
        self.n += 1
        w = self.r.choice(WORDS)
        if self.r.random() < 0.15 and self.o['odd_names']:
            w += self.r.choice(['_', '.', '-']) + 'x'
        return '%s%s%d' % (base, w, self.n)

    def schema(self):
        r, o = self.r, self.o
        s = Schema()
        nm = max(1, o['modules'])
        # identity module
        mods = []
        for i in range(nm):
            base = r.choice(['net', 'sys', 'if', 'acl', 'bgp', 'qos'])
            nme = 'm%d-%s' % (i, base)
            if o['odd_names'] and r.random() < 0.3:
                nme = 'm%d_%s.x' % (i, base)
            m = Module(nme, 'p%d%s' % (i, base),
                       r.choice(['urn:sim:%s', 'http://sim.net/yang/%s'])
                       % nme, '20%02d-0%d-1%d' % (r.randrange(10, 25),
                                                  r.randrange(1, 10),
                                                  r.randrange(0, 9)))
            if r.random() < 0.2:
                m.revs.append('2009-01-01')
            if r.random() < 0.25:
                m.version = '1.1'
            if r.random() < 0.2:
                m.extra_prefix_self = True
            mods.append(m)
        s.modules = mods
        self.s = s
        for m in mods:
            m.known = mods
        ids = []
        if o['identity']:
            im = mods[0]
            nb = r.randrange(1, 3)
            for b in range(nb):
                bn = 'base%d' % b
                im.identities.append((bn, None))
                ids.append((im, bn))
            for j in range(r.randrange(2, 5)):
                im.identities.append((r.choice(('idn%d', 'idn%d', 'idx%d'))
                                      % j, r.choice(ids)))
            for m in mods[1:]:
                if r.random() < 0.7:
                    self.imp(m, im)
                    for j in range(r.randrange(1, 3)):
                        m.identities.append(('idx%d' % j, r.choice(ids)))
            # each base needs at least two derived identities
            for b in ids:
                k = 0
                while len(s.derived(b)) < 2:
                    im.identities.append(('fill%d%s' % (k, b[1]), b))
                    k += 1
        self.ids = ids
        for i, m in enumerate(mods):
            for t in range(r.randrange(0, 2) if o['typedef'] else 0):
                m.typedefs.append((
                    'td%d' % t, r.choice([
                        Type('string'), Type('uint8'),
                        Type('enumeration', ['on', 'off', 'auto'])])))
            # the first modules hold data, the last may be import-only
            k = r.randrange(1, 3) if i < max(1, nm - 1) else r.randrange(0, 2)
            if i == 0:
                k = max(k, 1)
            for _ in range(k):
                self.root(s, m)
            if o['submodule'] and m.roots and r.random() < 0.3:
                nested = r.random() < 0.4
                ok = [x for x in m.roots if not any(
                    y.type is not None and (y.type.typedef or
                                            y.default and
                                            y.type.base == 'identityref' or (
                        y.type.base == 'identityref' and
                        y.type.idbase[0] is m)) for y in x.walk())]
                if ok:
                    m.submodule = {'name': m.name + '-sub'}
                    if nested:
                        m.submodule['nested'] = [m.name + '-sub2']
                    r.choice(ok).sub = True
        # augments
        for i, m in enumerate(mods[1:], 1):
            if r.random() < 0.75:
                cands = [x for mm in mods[:i] for rt in mm.roots
                         for x in rt.walk()
                         if x.kind in ('container', 'list', 'case') and
                         x.config and not x.shorthand and not x.status]
                if cands:
                    t = r.choice(cands)
                    # all modules on the path must be imported
                    p = t
                    while p is not None:
                        self.imp(m, p.mod)
                        p = p.parent
                    kids = []
                    for _ in range(r.randrange(1, 3)):
                        k = self.node(s, m, 2, t, in_case=t.kind == 'case')
                        if k is not None:
                            kids.append(k)
                    kids = [k for k in kids if k is not None]
                    if kids:
                        m.augments.append((t, kids))
        for n in s.walk():
            if n.parent is not None and not n.parent.config:
                n.config = False
        for n in s.walk():
            if not n.config:
                n.default = None
        return s

    def imp(self, m, other):
        if other is m or other.name in m.imports:
            return
        pf = other.prefix
        if self.r.random() < 0.3:
            pf = 'i' + other.prefix
        m.imports[other.name] = pf

    def root(self, s, m):
        r = self.r
        if r.random() < 0.75:
            n = SN('container', self.name('c', None, m), m)
            if r.random() < 0.1:
                n.presence = True
            if self.o['ro'] and r.random() < 0.1 and s.roots:
                n.config = False
        else:
            n = SN('list', self.name('l', None, m), m)
        m.roots.append(n)
        s.roots.append(n)
        if n.kind == 'list':
            self.keys(s, m, n)
        if r.random() < 0.15:
            n.grouping = 'g-' + n.name
        self.fill(s, m, n, self.o['depth'] - 1)
        self.shuffle(n)
        return n

    def shuffle(self, n):
        # keys may be defined anywhere, and in another order
        if n.kind == 'list' and self.r.random() < 0.3:
            self.r.shuffle(n.children)

    def keys(self, s, m, n):
        r = self.r
        for i in range(r.choice((1, 1, 1, 1, 2, 2, 3))):
            t = r.choice(['string', 'uint8', 'string'])
            ty = Type(t)
            if self.o['identity'] and r.random() < 0.2:
                b = self.idbase(s, m)
                if b:
                    ty = self.named(m, Type('identityref', idbase=b))
            elif r.random() < 0.15:
                ty = Type('enumeration', ['one', 'two', 'three', 'four'])
            if self.o['deftype'] and r.random() < 0.25:
                # nor do the defaults of their types matter
                ty = self.named(m, ty, nodef=False)
            k = SN('leaf', self.name('k', n, m), m, type=ty)
            if self.o['keydef'] and r.random() < 0.12:
                # RFC 7950 7.8.2: defaults of keys are ignored
                k.default = {'string': 'a', 'uint8': '3',
                             'enumeration': 'two'}.get(ty.base)
            n.add(k)
            n.keys.append(k.name)
        n.user = r.random() < 0.4

    def fill(self, s, m, n, depth):
        for _ in range(self.r.randrange(1, self.o['width'] + 1)):
            self.node(s, m, depth, n)

    def idbase(self, s, m):
        cands = [b for b in self.ids]
        if not cands:
            return None
        b = self.r.choice(cands)
        self.imp(m, b[0])
        return b

    def type(self, s, m, nodef=True):
        r = self.r
        t = self.type_(s, m, nodef)
        if t.typedef is None and (t.base in ('identityref', 'iid') or
                                  not nodef and self.o['deftype'] and
                                  t.base != 'empty'):
            t = self.named(m, t, nodef)
        return t

    def type_(self, s, m, nodef):
        r = self.r
        x = r.random()
        if x < 0.3:
            return Type('string')
        if x < 0.45:
            return Type('uint8')
        if x < 0.55:
            return Type('boolean')
        if x < 0.65:
            return Type('enumeration', ['red', 'green', 'blue'])
        if x < 0.7:
            return Type('empty')
        if x < 0.75:
            ts = [t for t in m.typedefs if t[1].base not in
                  ('identityref', 'iid') and
                  not (nodef and (t[1].default is not None or
                                  len(t) > 2 and t[2] is not None))]
            if ts:
                t = r.choice(ts)
                u = t[1]
                return Type(u.base, u.values, u.idbase, t[0],
                            default=t[2] if len(t) > 2 and t[2] is not None
                            else u.default)
        if x < 0.8:
            return Type('union', [Type('uint8'),
                                  Type('enumeration', ['any', 'none'])])
        if x < 0.83 and self.o['iid']:
            return Type('iid')
        if self.o['identity']:
            b = self.idbase(s, m)
            if b:
                return Type('identityref', idbase=b)
        return Type('string')

    def named(self, m, t, nodef=True):
        """The type itself, or a typedef of it."""
        r = self.r
        if not self.o['typedef'] or r.random() > 0.3:
            return t
        for _ in range(r.choice((1, 1, 2))):
            n = 'tr%d' % len(m.typedefs)
            d = None
            if self.o['deftype'] and not nodef and r.random() < 0.5:
                d = self.defval(t, m)
            m.typedefs.append((n, t, d))
            t = Type(t.base, t.values, t.idbase, n,
                     default=t.default if d is None else d)
        return t

    def node(self, s, m, depth, parent, in_case=False, nodefault=False):
        r, o = self.r, self.o
        x = r.random()
        ro = o['ro'] and r.random() < 0.08 and parent.config
        nodef = nodefault or in_case or not o['defaults']
        if x < 0.4 or depth <= 0:
            n = SN('leaf', self.name('f', parent, m), m,
                   type=self.type(s, m, nodef))
            if n.type.default is not None:
                n.default = n.type.default
                n.typedefault = True
            if o['leafref'] and n.default is None and \
                    r.random() < 0.2 and m.version == '1.1':
                to = [c for c in parent.children if c.kind == 'leaf' and
                      c.config and not c.status and c.mod is m and
                      c.type.base != 'empty']
                q = [c for c in to if c.type.base in ('identityref', 'iid')]
                if to:
                    c = r.choice(q or to)
                    n.type = Type(c.type.base, c.type.values, c.type.idbase,
                                  ref=c.name)
            if r.random() < 0.35 and not nodef:
                d = self.defval(n.type, m)
                if d is not None:
                    n.default = d
                    n.typedefault = False
            if o['mandatory'] and (n.default is None or n.typedefault) and \
                    not in_case and not nodefault and parent.mod is m and \
                    r.random() < 0.3:
                # RFC 7950 7.6.1: the default of the type is of no use
                n.default, n.typedefault = None, False
                n.mandatory = True
            elif o['deftype'] and r.random() < 0.1:
                n.extra.append('mandatory false;')
        elif x < 0.52:
            nd = nodef or m.version == '1' and not o['deftype']
            n = SN('leaf-list', self.name('ll', parent, m), m,
                   type=self.type(s, m, nd))
            while n.type.base == 'empty':
                n.type = self.type(s, m, nd)
            if n.type.default is not None and m.version != '1':
                # in YANG 1 it is the values of leaves alone that types
                # have defaults for
                n.default = [n.type.default]
                n.typedefault = True
            n.user = r.random() < 0.5
            b = self.idbase(s, m) if o['deftype'] and not nodef and \
                m.version == '1.1' and r.random() < 0.3 else None
            ds = list(dict.fromkeys(
                self.defval(Type('identityref', idbase=b), m)
                for _ in range(5))) if b else []
            if ds and ds[0] is not None:
                # identities of several modules
                n.type = Type('identityref', idbase=b)
                n.default, n.typedefault = ds[:3], False
            elif n.typedefault and r.random() < 0.25:
                if r.random() < 0.6:
                    n.default, n.typedefault = None, False
                    n.extra.append('min-elements 1;')
                else:
                    n.extra.append('min-elements 0;')
            elif r.random() < (0.6 if n.type.base == 'identityref' else
                               0.25) and not nodef and m.version == '1.1':
                d = self.defval(n.type, m)
                if d is not None:
                    n.default = [d]
                    n.typedefault = False
                    e = self.defval(n.type, m)
                    if isinstance(d, tuple):
                        # identities of one name in two modules
                        e = next((x for x in (self.defval(n.type, m)
                                              for _ in range(9))
                                  if x[1] == d[1] and x != d), e)
                    if e != d and r.random() < 0.7:
                        n.default.append(e)
        elif x < 0.68:
            n = SN('list', self.name('l', parent, m), m)
            parent.add(n)
            self.keys(s, m, n)
            self.fill(s, m, n, depth - 1)
            self.shuffle(n)
            if o['ro'] and o['iid'] and parent.config and r.random() < 0.15:
                ro = True
            if ro and not in_case and r.random() < 0.5:
                n.keys, n.user = [], False
            parent.children.remove(n)
        elif x < 0.85 or not o['choice'] or (in_case and
                                             not o['nested_choice']):
            n = SN('container', self.name('c', parent, m), m)
            n.presence = r.random() < 0.3
            parent.add(n)
            # a non-presence container in a case may not hide defaults:
            # whether they apply depends on the case being selected
            kids = r.randrange(1, o['width'])
            for _ in range(kids):
                self.node(s, m, depth - 1, n,
                          nodefault=(in_case or nodefault) and
                          not n.presence)
            parent.children.remove(n)
        else:
            n = SN('choice', self.name('ch', parent, m), m)
            parent.add(n)
            nc = r.randrange(2, 4)
            withdef = r.random() < 0.3 and not nodef
            for i in range(nc):
                c = SN('case', self.name('cs', n, m), m)
                n.add(c)
                if r.random() < 0.3 and m.version == '1' or \
                        r.random() < 0.15:
                    # shorthand: the case takes the name of its only node
                    k = self.node(s, m, depth - 1, c, in_case=True)
                    if k.kind == 'choice':
                        pass
                    else:
                        c.shorthand = True
                        c.name = k.name
                else:
                    for _ in range(r.randrange(1, 3)):
                        self.node(s, m, depth - 1, c, in_case=True)
                    if withdef and i == 0:
                        f = SN('leaf', self.name('f', c, m), m,
                               type=Type('string'))
                        f.default = 'dflt'
                        c.add(f)
                        n.defcase = c.name
            parent.children.remove(n)
        parent.add(n)
        if n.kind in ('leaf', 'leaf-list', 'container', 'list') and ro and \
                not in_case:
            n.config = False
        if n.kind in ('leaf', 'container', 'list', 'leaf-list') and \
                o['status'] and r.random() < 0.08 and not in_case and \
                n.config:
            n.status = r.choice(['deprecated', 'obsolete'])
            # what is below may say so itself, or not
            p = r.choice((0, 0.5, 1))
            for d in n.walk():
                if d is not n and d.kind not in ('choice', 'case') and \
                        r.random() < p:
                    d.status = n.status
        return n

    def defval(self, t, m):
        b = t.base
        if b == 'identityref' and self.o['deftype']:
            ok = [(x, n) for x, n in self.s.derived(t.idbase)
                  if self.s.modules.index(x) <= self.s.modules.index(m)]
            if ok:
                x, n = self.r.choice(ok)
                self.imp(m, x)
                return (x.ns, n)
        if b == 'string':
            return self.r.choice(['dv', 'default value', 'x', 'x', ''])
        if b == 'uint8':
            return self.r.choice(['7', '7', '3'])
        if b == 'boolean':
            return self.r.choice(['false', 'true'])
        if b == 'enumeration':
            return self.r.choice(t.values)
        if b == 'union':
            return 'any'
        return None


# -------------------------------------------------------------------- states
STR = ['a', 'b', 'c', 'x y', 'é', "it's", '<&>', 'say "hi"', '10.0.0.1',
       'Gi0/0/1', '1', 'a/b', '[z]', 'n=1', 'p:q', 'urn:a:b', 'm0:alpha',
       'A', '01', 'a,b', '{x}', 'a|b', ' pad ', '', '\u4e2d' * 40]


class States:
    """Random states of a schema.  A state is a dict: q-name -> value, where
    value is str / (ns, name) for leaves, list of those for leaf-lists, dict
    for containers, list of dict for lists."""

    def __init__(self, schema, rng, strings=None, density=0.6, maxlist=4):
        self.s = schema
        self.r = rng
        self.strings = strings or STR
        self.density = density
        self.maxlist = maxlist
        self._keyless = None

    def value(self, t):
        r = self.r
        b = t.base
        if b == 'string':
            return r.choice(self.strings)
        if b == 'uint8':
            return str(r.randrange(0, 12))
        if b == 'boolean':
            return r.choice(['true', 'false'])
        if b == 'enumeration':
            return r.choice(t.values)
        if b == 'empty':
            return ''
        if b == 'union':
            return r.choice(['any', 'none', '3', '4'])
        if b == 'identityref':
            m, n = r.choice(self.s.derived(t.idbase))
            return (m.ns, n)
        if b == 'iid':
            return self.iid()
        raise AssertionError(b)

    def iid(self):
        """Canonical instance identifier: tuple of steps
        (ns, name, ((keyns, keyname, value), ...))."""
        r = self.r
        n = r.choice([x for x in self.s.roots if x.config] or self.s.roots)
        todo = []
        if r.random() < 0.25 and self.keyless():
            # on the way to a list without keys
            todo = list(r.choice(self.keyless()))
            n = todo.pop(0)
        steps = []
        while True:
            preds = ()
            if n.kind == 'list' and n.keys:
                preds = tuple((n.mod.ns, k, r.choice(IIDVALUES))
                              for k in n.keys)
            elif n.kind == 'list':
                # entries without keys are counted
                preds = (('', '', str(r.choice((1, 2, 3, 10)))),)
            steps.append((n.mod.ns, n.name, preds))
            if n.kind == 'leaf-list':
                steps[-1] = steps[-1][:2] + ((('', '.', r.choice(
                    IIDVALUES)),),)
                return ('iid', tuple(steps))
            kids = [c for c in n.data_children() if c.kind in
                    ('container', 'list', 'leaf', 'leaf-list')]
            if todo:
                n = todo.pop(0)
                continue
            if not kids or r.random() < 0.4 or n.kind == 'leaf':
                return ('iid', tuple(steps))
            n = r.choice(kids)

    def keyless(self):
        """The paths to the lists without keys."""
        if self._keyless is None:
            self._keyless = []

            def go(n, path):
                path = path + [n]
                if n.kind == 'list' and not n.keys:
                    self._keyless.append(path)
                if n.kind in ('container', 'list'):
                    for c in n.data_children():
                        go(c, path)
            for n in self.s.roots:
                go(n, [])
        return self._keyless

    def fill(self, kids, config=True, density=None):
        """Random content for the given (choice-transparent) children."""
        r = self.r
        density = self.density if density is None else density
        out = {}
        blocked = set()
        chosen = {}
        order = list(kids)
        r.shuffle(order)
        for n in order:
            if config and not n.config:
                continue
            if r.random() > density:
                continue
            ok = True
            for ch, cs in n.cases():
                if chosen.get(id(ch), cs) is not cs:
                    ok = False
            if not ok:
                continue
            v = self.node(n, config)
            if v is None:
                continue
            if n.kind == 'container' and not n.presence and not v:
                continue
            for ch, cs in n.cases():
                chosen[id(ch)] = cs
            out[n.q] = v
        return out

    def node(self, n, config=True):
        r = self.r
        if n.kind == 'leaf':
            return self.value(n.type)
        if n.kind == 'leaf-list':
            vals = []
            for _ in range(r.randrange(1, self.maxlist + 1)):
                v = self.value(n.type)
                if v not in vals:
                    vals.append(v)
            return vals
        if n.kind == 'container':
            return self.fill(n.data_children(), config)
        if n.kind == 'list':
            ents, seen = [], set()
            for _ in range(r.randrange(1, self.maxlist + 1)):
                e = self.entry(n, config)
                k = keyof(n, e)
                if n.keys and k in seen:
                    continue
                seen.add(k)
                ents.append(e)
            return ents
        raise AssertionError(n.kind)

    def entry(self, n, config=True):
        e = {}
        for k in n.keys:
            kn = [c for c in n.children if c.name == k and c.mod is n.mod][0]
            e[kn.q] = self.value(kn.type)
        rest = [c for c in n.data_children()
                if not (c.kind == 'leaf' and c.name in n.keys and
                        c.mod is n.mod)]
        e.update(self.fill(rest, config, self.density * 0.7))
        return e

    def state(self):
        return canon(self.s, self.fill(self.s.roots))

    def mutate(self, state, k=None):
        """A nearby state: a few random local edits."""
        r = self.r
        st = clone(state)
        for _ in range(k or r.choice((1, 1, 2, 3, 5, 8))):
            self._mutate_in(self.s.roots, st)
        return canon(self.s, st)

    def _mutate_in(self, kids, d):
        r = self.r
        present = [n for n in kids if n.q in d and n.config]
        # descend?
        deep = [n for n in present if n.kind in ('container', 'list')]
        if deep and r.random() < 0.75:
            n = r.choice(deep)
            if n.kind == 'container':
                self._mutate_in(n.data_children(), d[n.q])
                return
            ents = d[n.q]
            x = r.random()
            if x < 0.5 and ents:
                e = r.choice(ents)
                rest = [c for c in n.data_children()
                        if not (c.name in n.keys and c.mod is n.mod)]
                self._mutate_in(rest, e)
                return
            if x < 0.65 and len(ents) > 1 and n.user:
                r.shuffle(ents)
                return
            if x < 0.8 and len(ents) > 1:
                ents.pop(r.randrange(len(ents)))
                return
            e = self.entry(n)
            if keyof(n, e) not in [keyof(n, y) for y in ents]:
                ents.insert(r.randrange(len(ents) + 1), e)
            return
        x = r.random()
        if present and x < 0.35:
            n = r.choice(present)
            if n.kind == 'leaf-list' and len(d[n.q]) > 1 and r.random() < .7:
                if r.random() < 0.5:
                    r.shuffle(d[n.q])
                else:
                    d[n.q].pop(r.randrange(len(d[n.q])))
            else:
                del d[n.q]
            return
        kids = [n for n in kids if n.config]
        if not kids:
            return
        n = r.choice(kids)
        if n.kind == 'leaf-list' and n.q in d and r.random() < 0.6:
            v = self.value(n.type)
            if v not in d[n.q]:
                d[n.q].insert(r.randrange(len(d[n.q]) + 1), v)
            return
        v = self.node(n)
        for ch, cs in n.cases():
            for o in ch.data_children():
                if o.q in d and not any(c2 is cs for _, c2 in o.cases()):
                    del d[o.q]
        d[n.q] = v


def clone(v):
    if isinstance(v, dict):
        return {k: clone(x) for k, x in v.items()}
    if isinstance(v, list):
        return [clone(x) for x in v]
    return v


def keyof(n, e):
    out = []
    for k in n.keys:
        out.append(json.dumps(e.get('{%s}%s' % (n.mod.ns, k))))
    return tuple(out)


def _sk(v):
    return json.dumps(v, sort_keys=True)


def canon(schema, state, kids=None):
    """Canonical form: defaults and empty non-presence containers dropped,
    system-ordered entries sorted, keys of dicts sorted."""
    kids = schema.roots if kids is None else kids
    out = {}
    for n in sorted(kids, key=lambda n: n.q):
        if n.q not in state:
            continue
        v = state[n.q]
        if n.kind == 'leaf':
            if n.default is not None and v == n.default and \
                    not is_key(n):
                continue
            out[n.q] = v
        elif n.kind == 'leaf-list':
            v = list(v)
            if not n.user:
                v = sorted(v, key=_sk)
            if not v:
                continue
            if n.default is not None:
                d = list(n.default) if n.user else sorted(n.default, key=_sk)
                if v == d:
                    continue
            out[n.q] = v
        elif n.kind == 'container':
            c = canon(schema, v, n.data_children())
            if not c and not n.presence:
                continue
            out[n.q] = c
        elif n.kind == 'list':
            ents = [canon(schema, e, n.data_children()) for e in v]
            if not ents:
                continue
            if not n.user and n.keys:
                ents.sort(key=lambda e: keyof(n, e))
            elif not n.keys:
                ents.sort(key=_sk)
            out[n.q] = ents
    return out


def is_key(n):
    p = n.parent
    return p is not None and p.kind == 'list' and n.name in p.keys and \
        n.mod is p.mod


def writable(schema, state, kids=None, drop=('obsolete',)):
    """The configuration part of a full (config + state data) tree."""
    kids = schema.roots if kids is None else kids
    out = {}
    for n in kids:
        if n.q not in state or not n.config or n.status in drop:
            continue
        v = state[n.q]
        if n.kind == 'container':
            out[n.q] = writable(schema, v, n.data_children(), drop)
        elif n.kind == 'list':
            out[n.q] = [writable(schema, e, n.data_children(), drop)
                        for e in v]
        else:
            out[n.q] = v
    return out


def dump(state):
    return json.dumps(state, sort_keys=True, ensure_ascii=False)


def contains(schema, a, b, kids=None):
    """a <= b: every node of a is in b, user-ordered entries keep their
    relative order."""
    kids = schema.roots if kids is None else kids
    for n in kids:
        if n.q not in a:
            continue
        if n.q not in b:
            return False
        va, vb = a[n.q], b[n.q]
        if n.kind == 'leaf':
            if va != vb:
                return False
        elif n.kind == 'leaf-list':
            if n.user:
                idx = [vb.index(x) if x in vb else -1 for x in va]
                if -1 in idx or idx != sorted(idx):
                    return False
            elif any(x not in vb for x in va):
                return False
        elif n.kind == 'container':
            if not contains(schema, va, vb, n.data_children()):
                return False
        elif n.kind == 'list':
            kb = [keyof(n, e) for e in vb]
            idx = []
            for e in va:
                k = keyof(n, e)
                if k not in kb:
                    return False
                i = kb.index(k)
                idx.append(i)
                if not contains(schema, e, vb[i], n.data_children()):
                    return False
            if n.user and idx != sorted(idx):
                return False
    return True
