"""The simulated NETCONF device: reference semantics of edit-config, rendering
of replies with every legal variation, schema publishing and misbehaviour.

Written from the RFCs (6241, 6022, 7950, 7895, 6243 trim mode); shares no code
with ncdiff.
"""
import random
import re
from xml.sax.saxutils import escape, quoteattr

from lxml import etree

from . import schema as S

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YANG = 'urn:ietf:params:xml:ns:yang:1'
NCM = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
YLIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
NOTIF = 'urn:ietf:params:xml:ns:netconf:notification:1.0'
OP = '{%s}operation' % NC
INSERT = '{%s}insert' % YANG
KEY = '{%s}key' % YANG
VALUE = '{%s}value' % YANG


class RpcError(Exception):
    def __init__(self, tag, info=''):
        super().__init__('%s %s' % (tag, info))
        self.tag = tag
        self.info = info


class BadData(Exception):
    """The tree does not fit the schema."""


# ------------------------------------------------------------------ parsing
def ename(el):
    return el.tag


def decode(n, el, text=None, nsmap=None):
    """Value of a leaf element."""
    t = el.xpath('string()') if text is None else text
    t = '' if t is None else t
    nsmap = el.nsmap if nsmap is None else nsmap
    return decode_text(n.type, t, nsmap)


def decode_text(ty, t, nsmap):
    b = ty.base
    if b == 'identityref':
        t = t.strip()
        if ':' in t:
            p, name = t.split(':', 1)
            if p not in nsmap:
                raise BadData('prefix %r of identity %r is not declared'
                              % (p, t))
            return (nsmap[p], name)
        return (nsmap.get(None, ''), t)
    if b == 'iid':
        return decode_iid(t.strip(), nsmap)
    if b in ('uint8', 'boolean', 'enumeration', 'union'):
        return t.strip()
    return t


_STEP = re.compile(r'/(?:([^:/\[\]]+):)?([^:/\[\]]+)')
_NTH = re.compile(r'\[\s*([1-9][0-9]*)\s*\]')
_PRED = re.compile(r'''\[\s*(?:([^:/\[\]=]+):)?([^:/\[\]=\s]+)\s*=\s*'''
                   r'''("([^"]*)"|'([^']*)')\s*\]''')


def decode_iid(t, nsmap):
    steps = []
    i = 0
    while i < len(t):
        m = _STEP.match(t, i)
        if not m:
            raise BadData('instance-identifier %r' % t)
        i = m.end()
        if m.group(1) not in nsmap or m.group(1) is None:
            raise BadData('instance-identifier %r' % t)
        ns = nsmap[m.group(1)]
        preds = []
        while i < len(t) and t[i] == '[':
            k = _NTH.match(t, i)
            if k:
                i = k.end()
                preds.append(('', '', k.group(1)))
                continue
            k = _PRED.match(t, i)
            if not k:
                raise BadData('instance-identifier %r' % t)
            i = k.end()
            v = k.group(4) if k.group(4) is not None else k.group(5)
            preds.append((nsmap.get(k.group(1), '') if k.group(1) else '',
                          k.group(2), v))
        steps.append((ns, m.group(2), tuple(preds)))
    return ('iid', tuple(steps))


def is_el(x):
    return isinstance(x.tag, str)


def parse(schema, el, kids=None, strict=True):
    """Tree under el (config or data element) as a state."""
    kids = schema.roots if kids is None else kids
    out = {}
    for c in el:
        if not is_el(c):
            continue
        n = find(kids, c.tag)
        if n is None:
            raise BadData('unexpected element %s in %s' % (c.tag, el.tag))
        if strict:
            for a in c.attrib:
                if a.startswith('{%s}' % NC) or a.startswith('{%s}' % YANG):
                    raise BadData('leftover attribute %s on %s' % (a, c.tag))
        if n.kind == 'leaf':
            if n.q in out:
                raise BadData('two instances of leaf %s' % n.q)
            out[n.q] = decode(n, c)
        elif n.kind == 'leaf-list':
            v = decode(n, c)
            if v in out.setdefault(n.q, []) and n.config:
                raise BadData('duplicate entry %r of %s' % (v, n.q))
            out[n.q].append(v)
        elif n.kind == 'container':
            if n.q in out:
                raise BadData('two instances of container %s' % n.q)
            out[n.q] = parse(schema, c, n.data_children(), strict)
        else:
            e = parse(schema, c, n.data_children(), strict)
            k = S.keyof(n, e)
            if n.keys and 'null' in k:
                raise BadData('missing key in %s' % n.q)
            if n.keys and k in [S.keyof(n, x) for x in out.get(n.q, ())]:
                raise BadData('duplicate entry %s of %s' % (k, n.q))
            out.setdefault(n.q, []).append(e)
    return out


def find(kids, tag):
    for n in kids:
        if n.q == tag:
            return n
    return None


# ------------------------------------------------------------------ editing
OPS = ('merge', 'replace', 'create', 'delete', 'remove', 'none')


def edit(schema, state, config, default_op='merge'):
    """Apply an edit-config payload (the config element) to a state; returns
    the new canonical state or raises RpcError."""
    st = S.clone(state)
    op = config.get(OP) or default_op
    if config.get(OP) is not None:
        raise RpcError('bad-attribute', 'operation on config')
    Editor(schema).children(config, schema.roots, st, op)
    return S.canon(schema, st)


class Editor:
    def __init__(self, schema):
        self.s = schema

    def children(self, el, kids, d, op, skip=()):
        for c in el:
            if not is_el(c) or c.tag in skip:
                continue
            n = find(kids, c.tag)
            if n is None:
                raise RpcError('unknown-element', c.tag)
            if not n.config:
                raise RpcError('invalid-value', 'config false %s' % n.q)
            self.node(c, n, d, op)

    def clear(self, n, d):
        """A node of a case now exists: nodes of other cases go away."""
        for ch, cs in n.cases():
            for o in ch.data_children():
                if o.q in d and not any(c2 is cs for _, c2 in o.cases()):
                    del d[o.q]

    def node(self, el, n, d, inherited):
        op = el.get(OP)
        if op is None:
            op = inherited
        if op not in OPS:
            raise RpcError('bad-attribute', 'operation %s' % op)
        ins = el.get(INSERT)
        if ins is not None and not (
                n.user and n.kind in ('list', 'leaf-list')):
            raise RpcError('bad-attribute', 'insert on %s' % n.q)
        getattr(self, n.kind.replace('-', '_'))(el, n, d, op, ins)

    def leaf(self, el, n, d, op, ins):
        has = n.q in d and not (n.default is not None and
                                d[n.q] == n.default and not S.is_key(n))
        if op == 'delete':
            if not has:
                raise RpcError('data-missing', n.q)
            d.pop(n.q)
        elif op == 'remove':
            d.pop(n.q, None)
        elif op == 'none':
            pass
        else:
            if op == 'create' and has:
                raise RpcError('data-exists', n.q)
            d[n.q] = decode(n, el)
            self.clear(n, d)

    def leaf_list(self, el, n, d, op, ins):
        cur = d.get(n.q, [])
        v = decode(n, el)
        if op in ('delete', 'remove'):
            if v not in cur:
                if op == 'delete':
                    raise RpcError('data-missing', '%s=%r' % (n.q, v))
                return
            cur.remove(v)
            if not cur:
                d.pop(n.q, None)
            return
        if op == 'none':
            return
        if op == 'create' and v in cur:
            raise RpcError('data-exists', '%s=%r' % (n.q, v))
        anchor = None
        if ins in ('before', 'after'):
            a = el.get(VALUE)
            if a is None:
                raise RpcError('bad-attribute', 'value missing on %s' % n.q)
            anchor = decode_text(n.type, a, el.nsmap)
            if anchor not in cur:
                raise RpcError('bad-attribute', 'missing-instance %r of %s'
                               % (anchor, n.q))
        self.place(cur, v, lambda x: x == v, ins,
                   lambda x: x == anchor)
        d[n.q] = cur
        self.clear(n, d)

    @staticmethod
    def place(cur, item, same, ins, is_anchor):
        at = [i for i, x in enumerate(cur) if same(x)]
        if ins is None:
            if not at:
                cur.append(item)
            return
        if ins in ('before', 'after'):
            if at and is_anchor(cur[at[0]]):
                return
        if at:
            item = cur.pop(at[0])
        if ins == 'first':
            cur.insert(0, item)
        elif ins == 'last':
            cur.append(item)
        elif ins in ('before', 'after'):
            i = [k for k, x in enumerate(cur) if is_anchor(x)][0]
            cur.insert(i if ins == 'before' else i + 1, item)
        else:
            raise RpcError('bad-attribute', 'insert %s' % ins)

    def container(self, el, n, d, op, ins):
        has = n.q in d and (n.presence or
                            bool(S.canon(self.s, d[n.q], n.data_children())))
        if op == 'delete':
            if not has:
                raise RpcError('data-missing', n.q)
            d.pop(n.q)
        elif op == 'remove':
            d.pop(n.q, None)
        else:
            if op == 'create' and has:
                raise RpcError('data-exists', n.q)
            cur = {} if op in ('replace', 'create') else \
                d.get(n.q, {})
            fresh = n.q not in d
            if op == 'none' and fresh and n.presence:
                raise RpcError('data-missing', n.q)
            d[n.q] = cur
            self.children(el, n.data_children(), cur,
                          'merge' if op in ('replace', 'create') else op)
            if not cur and not n.presence:
                d.pop(n.q, None)
            else:
                self.clear(n, d)

    def list(self, el, n, d, op, ins):
        cur = d.get(n.q, [])
        key = {}
        ktags = ['{%s}%s' % (n.mod.ns, k) for k in n.keys]
        for c in el:
            if is_el(c) and c.tag in ktags:
                kn = find(n.children, c.tag)
                if c.tag in key:
                    raise RpcError('bad-element', c.tag)
                key[c.tag] = decode(kn, c)
        if len(key) != len(ktags):
            raise RpcError('missing-element', 'key of %s' % n.q)
        k = S.keyof(n, key)
        hit = [e for e in cur if S.keyof(n, e) == k]
        if op in ('delete', 'remove'):
            if not hit:
                if op == 'delete':
                    raise RpcError('data-missing', '%s%s' % (n.q, k))
                return
            cur.remove(hit[0])
            if not cur:
                d.pop(n.q, None)
            return
        if op == 'create' and hit:
            raise RpcError('data-exists', '%s%s' % (n.q, k))
        if op == 'none' and not hit:
            raise RpcError('data-missing', '%s%s' % (n.q, k))
        ak = None
        if ins in ('before', 'after'):
            a = el.get(KEY)
            if a is None:
                raise RpcError('bad-attribute', 'key missing on %s' % n.q)
            ak = self.key_predicate(n, a, el)
            if ak not in [S.keyof(n, e) for e in cur]:
                raise RpcError('bad-attribute', 'missing-instance %s of %s'
                               % (a, n.q))
        ent = hit[0] if hit else dict(key)
        if op in ('replace', 'create'):
            new = dict(key)
            if hit:
                cur[[i for i, e in enumerate(cur) if e is ent][0]] = new
            ent = new
        self.place(cur, ent, lambda x: S.keyof(n, x) == k, ins,
                   lambda x: S.keyof(n, x) == ak)
        d[n.q] = cur
        self.children(el, n.data_children(), ent,
                      'merge' if op in ('replace', 'create') else op,
                      skip=ktags)
        self.clear(n, d)

    def key_predicate(self, n, text, el):
        got = {}
        i = 0
        text = text.strip()
        while i < len(text):
            m = _PRED.match(text, i)
            if not m:
                raise RpcError('bad-attribute', 'key %s' % text)
            i = m.end()
            v = m.group(4) if m.group(4) is not None else m.group(5)
            p = m.group(1)
            if p is not None and el.nsmap.get(p) != n.mod.ns:
                raise RpcError('bad-attribute', 'key prefix %s' % text)
            kn = find(n.children, '{%s}%s' % (n.mod.ns, m.group(2)))
            if kn is None:
                raise RpcError('bad-attribute', 'key %s' % text)
            got[kn.q] = decode_text(kn.type, v, el.nsmap)
        if len(got) != len(n.keys):
            raise RpcError('bad-attribute', 'key %s' % text)
        return S.keyof(n, got)


# ---------------------------------------------------------------- rendering
class Renderer:
    """Serialise a state with the variations a device may legally choose.
    pick(label, n) -> int decides; 0 is the plain rendering."""

    def __init__(self, schema, pick, style=None):
        self.s = schema
        self.pick = pick
        # style of this reply
        self.prefixed = pick('style', 3) if style is None else style
        self.pretty = pick('pretty', 2)
        self.shuffle = pick('shuffle', 2)
        self.report = pick('defaults', 3)      # 0 none 1 some 2 all
        # 0 module, 1 generic, 2 rotated, 3 names of other modules
        self.names = pick('names', 4)
        self.empty = pick('empties', 2)
        self.over = pick('overdecl', 2)
        self.notes = pick('notes', 4) == 3     # comments, CDATA

    def prefix(self, m):
        mods = self.s.modules
        i = mods.index(m)
        if self.names == 1:
            return 'n%d' % i
        j = i if self.names == 0 else (i + 1) % len(mods)
        if self.names == 3:
            return mods[j].name
        p = mods[j].prefix
        if any(o.prefix == p for o in mods[:j]):
            p = '%s.%d' % (p, j)
        return p

    def document(self, state, kids=None):
        """Children of <data>."""
        return self.body(kids or self.s.roots, state, {}, 1, None)

    def order(self, items):
        """items: [(node, value)].  Shuffle, keeping user order."""
        if not self.shuffle or len(items) < 2:
            return items
        # shuffle positions, then refill user-ordered groups in order
        idx = list(range(len(items)))
        for i in range(len(idx) - 1, 0, -1):
            j = i - self.pick('perm', i + 1)
            idx[i], idx[j] = idx[j], idx[i]
        out = [items[i] for i in idx]
        for n in {id(n): n for n, _ in items if n.user}.values():
            pos = [i for i, (x, _) in enumerate(out) if x is n]
            vals = [it for it in items if it[0] is n]
            for p, it in zip(pos, vals):
                out[p] = it
        return out

    def defaults(self, kids, d):
        """Default leaves the device also reports."""
        out = []
        if not self.report:
            return out
        for n in kids:
            if n.q in d or not n.config:
                continue
            active = True
            for ch, cs in n.cases():
                used = [o for o in ch.data_children() if o.q in d]
                if used:
                    if not any(c2 is cs for o in used for _, c2 in o.cases()):
                        active = False
                elif ch.defcase != cs.name:
                    active = False
            if not active:
                continue
            if n.kind in ('leaf', 'leaf-list') and n.default is not None:
                if self.report == 2 or self.pick('def1', 2):
                    if n.kind == 'leaf':
                        out.append((n, n.default))
                    else:
                        out.extend((n, v) for v in n.default)
        return out

    def body(self, kids, d, scope, depth, lst):
        items, keys = [], []
        for n in kids:
            if n.q in d:
                v = d[n.q]
                if n.kind in ('leaf-list', 'list'):
                    items.extend((n, x) for x in v)
                elif lst is not None and S.is_key(n):
                    keys.append((n, v))
                else:
                    items.append((n, v))
            elif n.kind == 'container' and not n.presence and n.config and \
                    not n.cases():
                dd = self.defaults(n.data_children(), {})
                if dd or (self.empty and self.pick('empty1', 2)):
                    items.append((n, {}))
        if lst is not None:
            keys.sort(key=lambda it: lst.keys.index(it[0].name))
        items.extend(self.defaults(kids, d))
        items = keys + self.order(items)
        ws = '\n' + '  ' * depth if self.pretty else ''
        out = []
        for n, v in items:
            if self.notes and self.pick('note', 4) == 3:
                out.append(ws + (self.pick('notekind', 2) * '<?sim note?>' or
                                 '<!-- %s -->' % n.name))
            out.append(ws + self.element(n, v, scope, depth))
        if out and self.pretty:
            out.append('\n' + '  ' * (depth - 1))
        return ''.join(out)

    def element(self, n, v, scope, depth):
        ns = n.mod.ns
        decl = ''
        scope = dict(scope)
        if self.over and depth == 1:
            # every prefix declared up front
            for m in self.s.modules:
                p = self.prefix(m)
                scope[p] = m.ns
                decl += ' xmlns:%s=%s' % (p, quoteattr(m.ns))
        mode = self.prefixed
        if mode == 2:
            mode = self.pick('mixed', 2)
        if mode == 0:
            tag = n.name
            if scope.get('') != ns:
                decl += ' xmlns=%s' % quoteattr(ns)
                scope[''] = ns
        else:
            p = self.prefix(n.mod)
            if scope.get(p) != ns:
                decl += ' xmlns:%s=%s' % (p, quoteattr(ns))
                scope[p] = ns
            tag = '%s:%s' % (p, n.name)
        if n.kind in ('leaf', 'leaf-list'):
            text, more = self.value(n, v, scope)
            decl += more
            if text == '':
                return '<%s%s/>' % (tag, decl)
            if self.notes and self.pick('cdata', 3) == 2 and \
                    ']]>' not in text:
                return '<%s%s><![CDATA[%s]]></%s>' % (tag, decl, text, tag)
            if self.notes and self.pick('split', 4) == 3:
                i = self.pick('splitat', len(text) + 1)
                if not text[:i].strip() or not text[i:].strip():
                    i = 0       # parsers drop blank pieces of text
                return '<%s%s>%s<!-- c -->%s</%s>' % (
                    tag, decl, escape(text[:i]), escape(text[i:]), tag)
            return '<%s%s>%s</%s>' % (tag, decl, escape(text), tag)
        inner = self.body(n.data_children(), v, scope, depth + 1,
                          n if n.kind == 'list' else None)
        if inner == '' and self.pick('selfclose', 2) == 0:
            return '<%s%s/>' % (tag, decl)
        return '<%s%s>%s</%s>' % (tag, decl, inner, tag)

    def qn(self, ns, name, scope):
        """prefix:name plus the declaration it needs."""
        if scope.get('') == ns and self.pick('bareid', 2):
            return name, ''
        for p, u in scope.items():
            if u == ns and p:
                return '%s:%s' % (p, name), ''
        m = self.s.by_ns(ns)
        p = self.prefix(m) if m is not None else 'x0'
        decl = ' xmlns:%s=%s' % (p, quoteattr(ns))
        scope[p] = ns
        return '%s:%s' % (p, name), decl

    def value(self, n, v, scope):
        if isinstance(v, str):
            return v, ''
        if v[0] == 'iid':
            out, decl = '', ''
            for ns, name, preds in v[1]:
                x, d = self.qn_p(ns, name, scope)
                decl += d
                out += '/' + x
                for kns, kname, kv in preds:
                    if not kname:
                        out += '[%s]' % kv
                        continue
                    x = kname
                    if kname != '.':
                        x, d = self.qn_p(kns, kname, scope)
                        decl += d
                    if "'" in kv:
                        qt = '"'
                    elif '"' in kv:
                        qt = "'"
                    else:
                        qt = '"' if self.pick('quote', 2) else "'"
                    out += '[%s=%s%s%s]' % (x, qt, kv, qt)
            return out, decl
        return self.qn(v[0], v[1], scope)

    def qn_p(self, ns, name, scope):
        for p, u in scope.items():
            if u == ns and p:
                return '%s:%s' % (p, name), ''
        m = self.s.by_ns(ns)
        p = self.prefix(m)
        scope[p] = ns
        return '%s:%s' % (p, name), ' xmlns:%s=%s' % (p, quoteattr(ns))


def plain(schema, state):
    """Deterministic plain rendering: bytes of a config element."""
    r = Renderer(schema, lambda l, n: 0)
    return '<config xmlns="%s">%s</config>' % (NC, r.document(state))


# ---------------------------------------------------------------- operational
def decorate(schema, state, rng, kids=None, st=None, p=0.5):
    """state plus random read-only data."""
    kids = schema.roots if kids is None else kids
    st = st or S.States(schema, rng)
    out = S.clone(state)
    for n in kids:
        if not n.config:
            if rng.random() < p:
                v = st.node(n, config=False)
                if n.kind == 'list' and not n.keys:
                    pass
                if v not in (None, [], {}) or n.kind == 'leaf':
                    out[n.q] = v
        elif n.kind == 'container':
            if n.q in out:
                out[n.q] = decorate(schema, out[n.q], rng, n.data_children(),
                                    st, p)
            elif not n.presence and not n.cases():
                v = decorate(schema, {}, rng, n.data_children(), st, p)
                if v:
                    out[n.q] = v
        elif n.kind == 'list' and n.q in out:
            out[n.q] = [decorate(schema, e, rng, n.data_children(), st, p)
                        for e in out[n.q]]
    return out


# -------------------------------------------------------------------- device
class SimDevice:
    """A NETCONF server.  Requests are executed when they arrive; replies
    travel back with a latency."""

    def __init__(self, sim, schema, name='dev', rng=None, caps=None,
                 candidate=True, writable_running=True, monitoring=True,
                 yanglib=False, base11=False, faults=None, texts=None,
                 render=True):
        self.sim = sim
        self.schema = schema
        self.name = name
        self.rng = rng
        self.fixed_ro = None        # seed: the same data at every read
        self.candidate = candidate
        self.writable_running = writable_running
        self.monitoring = monitoring
        self.yanglib = yanglib
        self.base11 = base11
        self.texts = texts if texts is not None else \
            (schema.texts() if schema else {})
        self.listed = None          # names in the schema list (None: all)
        self.extra_caps = list(caps or [])
        self.running = {}
        self.cand = {}
        self.f = dict(faults or {})
        self.render = render
        self.socks = []
        self.requests = []          # history of (op, detail)
        self.on_edit = None         # hook(before, config element, result)
        self.xpaths = {}         # selection -> function of the state
        self.history = []
        self.fault_budget = None
        self.get_schema_log = []
        self.session_id = 0
        self.last_served = None
        self.served = {}
        self.garble = None       # makes replies contradict the schema
        self.garbled = {}            # message-id -> info about the execution
        self.quiet = False          # faults off
        self.error_mid = False      # errors name the request they answer

    # -- capabilities
    def capabilities(self):
        out = ['urn:ietf:params:netconf:base:1.0']
        if self.base11:
            out.append('urn:ietf:params:netconf:base:1.1')
        if self.candidate:
            out.append('urn:ietf:params:netconf:capability:candidate:1.0')
        if self.writable_running:
            out.append(
                'urn:ietf:params:netconf:capability:writable-running:1.0')
        if self.monitoring:
            out.append(NCM + '?module=ietf-netconf-monitoring&'
                             'revision=2010-10-04')
        if self.yanglib:
            out.append('urn:ietf:params:netconf:capability:yang-library:1.0'
                       '?revision=2016-06-21&module-set-id=7')
        if self.schema:
            for m in self.schema.modules:
                out.append('%s?module=%s&revision=%s'
                           % (m.ns, m.name, m.revs[0]))
        return out + self.extra_caps

    # -- sessions
    def accept(self, sock):
        self.socks.append(sock)

    def client_closed(self, sock):
        if sock in self.socks:
            self.socks.remove(sock)

    def drop_all(self):
        for s in list(self.socks):
            s.drop()
        self.socks = []

    def lat(self, what):
        return (0.001, 0.002, 0.005, 0.05, 0.5)[
            self.sim.choose('lat.' + self.name, 5,
                            weights=(8, 4, 4, 2, 1))]

    def from_client(self, sock, msg):
        if b'hello' in msg and not getattr(sock, 'greeted', False):
            sock.greeted = True
            self.session_id += 1
            caps = ''.join('<capability>%s</capability>' % escape(c)
                           for c in self.capabilities())
            hello = ('<?xml version="1.0" encoding="UTF-8"?>'
                     '<hello xmlns="%s"><capabilities>%s</capabilities>'
                     '<session-id>%d</session-id></hello>'
                     % (NC, caps, self.session_id)).encode()

            def greet():
                sock.deliver(hello)
                sock.base11 = self.base11
            self.sim.at(self.lat('hello'), greet)
            return
        self.sim.at(self.lat('req'), lambda: self.arrive(sock, msg))

    def chance(self, kind):
        p = self.f.get(kind, 0)
        if not p or self.quiet:
            return False
        if self.fault_budget is not None and self.fault_budget <= 0:
            return False
        if self.sim.flip('%s.%s' % (self.name, kind), p):
            if self.fault_budget is not None:
                self.fault_budget -= 1
            self.sim.fault(kind)
            return True
        return False

    def arrive(self, sock, msg):
        if sock.eof or sock.closed:
            return
        if self.chance('drop_before'):
            self.sim.note(self.name, 'drop before execution')
            self.drop(sock)
            return
        rpc = etree.fromstring(msg)
        mid = rpc.get('message-id')
        op = [c for c in rpc if is_el(c)][0]
        opname = etree.QName(op).localname
        if self.chance('rpc_error'):
            body = self.error('operation-failed', 'injected')
            self.sim.note(self.name, 'injected error', opname)
        else:
            try:
                body = self.execute(opname, op, rpc, mid)
            except RpcError as e:
                body = self.error(e.tag, e.info + (
                    ' mid=%s ' % mid if self.error_mid else ''))
        self.sim.note(self.name, 'served', opname)
        if opname == 'close-session':
            sock.deliver(self.wrap(rpc, '<ok/>'))
            self.sim.at(0.001, sock.drop)
            return
        if self.chance('drop_after'):
            self.sim.note(self.name, 'drop after execution')
            self.drop(sock)
            return
        if self.chance('no_reply'):
            self.sim.note(self.name, 'reply lost')
            return
        d = self.lat('rep')
        if self.chance('late'):
            d += 31 + 100 * self.sim.choose('late', 2)
        reply = self.wrap(rpc, body)
        self.sim.at(d, lambda: sock.deliver(reply))

    def drop(self, sock):
        sock.drop()
        if sock in self.socks:
            self.socks.remove(sock)

    def wrap(self, rpc, body):
        mid = rpc.get('message-id')
        extra = ''
        # RFC 6241 4.1: attributes of rpc are returned unchanged
        for k, v in rpc.attrib.items():
            if k != 'message-id':
                q = etree.QName(k)
                if q.namespace:
                    extra += ' xmlns:at=%s at:%s=%s' % (
                        quoteattr(q.namespace), q.localname, quoteattr(v))
        p = self.pick('envelope', 2) if self.render else 0
        if p and body.startswith(('<ok/>', '<data>', '<data/>')):
            body = re.sub(r'^<(ok|data)', r'<nc:\1', body)
            body = re.sub(r'</data>$', '</nc:data>', body)
            # children of data that carry no own namespace do not exist:
            # every top level node declares its own
            return ('<?xml version="1.0" encoding="UTF-8"?>\n'
                    '<nc:rpc-reply xmlns:nc="%s" message-id=%s%s>%s'
                    '</nc:rpc-reply>' % (NC, quoteattr(mid), extra, body)
                    ).encode()
        return ('<?xml version="1.0" encoding="UTF-8"?>\n'
                '<rpc-reply xmlns="%s" message-id=%s%s>%s</rpc-reply>'
                % (NC, quoteattr(mid), extra, body)).encode()

    @staticmethod
    def error(tag, info=''):
        return ('<rpc-error><error-type>application</error-type>'
                '<error-tag>%s</error-tag><error-severity>error'
                '</error-severity><error-message>%s</error-message>'
                '</rpc-error>' % (tag, escape(info)))

    def pick(self, label, n):
        if not self.render:
            return 0
        return self.sim.choose('r.%s.%s' % (self.name, label), n,
                               p=0.5 if n > 1 else None)

    # -- operations
    def execute(self, opname, op, rpc, mid):
        self.requests.append(opname)
        f = getattr(self, 'op_' + opname.replace('-', '_'), None)
        if f is None:
            raise RpcError('operation-not-supported', opname)
        return f(op, mid)

    def store(self, op, which):
        e = op.find('{%s}%s' % (NC, which))
        if e is None or len(e) == 0:
            raise RpcError('missing-element', which)
        name = etree.QName([c for c in e if is_el(c)][0]).localname
        if name == 'candidate' and not self.candidate:
            raise RpcError('invalid-value', 'no candidate')
        if name not in ('running', 'candidate'):
            raise RpcError('invalid-value', name)
        return name

    def op_get_config(self, op, mid):
        which = self.store(op, 'source')
        st = self.running if which == 'running' else self.cand
        return self.reply_data(op, st, mid, False, which)

    def op_get(self, op, mid):
        f = op.find('{%s}filter' % NC)
        if f is not None:
            for c in f:
                if c.tag == '{%s}netconf-state' % NCM:
                    return self.schemas_list()
                if c.tag == '{%s}modules-state' % YLIB:
                    return self.library()
        st = self.running
        if self.rng is not None:
            st = decorate(self.schema, st, self.rng if self.fixed_ro is None
                          else random.Random(self.fixed_ro))
        return self.reply_data(op, st, mid, True)

    def reply_data(self, op, st, mid, full, source=None):
        f = op.find('{%s}filter' % NC)
        sel = None
        if f is not None and f.get('type') == 'xpath':
            text = f.get('select')
            for x in re.findall(r'([\w.-]+):[A-Za-z_]', re.sub(
                    r'"[^"]*"|\'[^\']*\'', '', text)):
                if x not in f.nsmap:
                    raise RpcError('invalid-value', 'prefix ' + x)
            if text not in self.xpaths:
                raise RpcError('invalid-value', text)
            st = self.xpaths[text](S.canon(self.schema, st))
        elif f is not None:
            sel = [c.tag for c in f if is_el(c)]
            st = subtree(self.schema, f, st)
        self.served[mid] = {
            'op': 'get' if full else 'get-config', 'filter': sel,
            'state': S.clone(self.running), 'full': full, 'source': source,
            'filter_el': None if f is None else etree.tostring(f)}
        kids = self.schema.roots
        if sel is not None:
            kids = [k for k in kids if k.q in sel]
        r = Renderer(self.schema, self.pick)
        doc = r.document(st, kids) if kids else ''
        if self.garble is not None:
            doc, self.garbled[mid] = self.garble(doc)
        self.served[mid]['doc'] = doc
        return '<data>%s</data>' % doc if doc else '<data/>'

    def op_edit_config(self, op, mid):
        which = self.store(op, 'target')
        if which == 'running' and not self.writable_running:
            raise RpcError('operation-not-supported', 'running is not writable')
        dop = op.findtext('{%s}default-operation' % NC) or 'merge'
        cfg = op.find('{%s}config' % NC)
        if cfg is None:
            raise RpcError('missing-element', 'config')
        before = self.running if which == 'running' else self.cand
        info = {'op': 'edit', 'target': which, 'before': S.clone(before),
                'config': etree.tostring(cfg), 'error': None, 'after': None,
                'raw_op': etree.tostring(op)}
        self.served[mid] = info
        self.history.append(info)
        try:
            after = edit(self.schema, before, cfg, dop)
        except RpcError as e:
            info['error'] = e.tag
            info['info'] = e.info
            raise
        except BadData as e:
            info['error'] = 'bad-data'
            info['info'] = str(e)
            raise RpcError('invalid-value', str(e))
        info['after'] = S.clone(after)
        if which == 'running':
            self.running = after
            if not self.candidate or self.cand == before:
                self.cand = S.clone(after)
        else:
            self.cand = after
        return '<ok/>'

    def op_commit(self, op, mid):
        self.served[mid] = {'op': 'commit'}
        self.running = S.clone(self.cand)
        return '<ok/>'

    def op_discard_changes(self, op, mid):
        self.served[mid] = {'op': 'discard-changes'}
        self.cand = S.clone(self.running)
        return '<ok/>'

    def op_lock(self, op, mid):
        self.served[mid] = {
            'op': etree.QName(op).localname,
            'store': self.store(op, 'source' if 'validate' in op.tag
                                else 'target')}
        return '<ok/>'

    op_unlock = op_validate = op_lock

    def op_close_session(self, op, mid):
        return '<ok/>'

    def op_create_subscription(self, op, mid):
        return '<ok/>'

    def set_state(self, st):
        """Another operator."""
        self.running = S.canon(self.schema, st)
        self.cand = S.clone(self.running)

    def notify(self, body):
        msg = ('<?xml version="1.0" encoding="UTF-8"?>'
               '<notification xmlns="%s"><eventTime>2024-01-01T00:00:00Z'
               '</eventTime>%s</notification>' % (NOTIF, body)).encode()
        for s in list(self.socks):
            self.sim.at(self.lat('ntf'), lambda s=s: s.deliver(msg))

    # -- schemas
    def published(self):
        return sorted(self.texts if self.listed is None else self.listed)

    def schemas_list(self):
        items = ''.join(
            '<schema><identifier>%s</identifier><version>1</version>'
            '<format>yang</format><namespace>x</namespace>'
            '<location>NETCONF</location></schema>' % escape(n)
            for n in self.order_names(self.published()))
        return ('<data><netconf-state xmlns="%s"><schemas>%s</schemas>'
                '</netconf-state></data>' % (NCM, items))

    def order_names(self, names):
        names = list(names)
        for i in range(len(names) - 1, 0, -1):
            j = i - self.pick('names_perm', i + 1)
            names[i], names[j] = names[j], names[i]
        return names

    def library(self):
        items = ''.join(
            '<module><name>%s</name><revision/><conformance-type>implement'
            '</conformance-type></module>' % escape(n)
            for n in self.order_names(self.published()))
        return ('<data><modules-state xmlns="%s"><module-set-id>7'
                '</module-set-id>%s</modules-state></data>' % (YLIB, items))

    def op_get_schema(self, op, mid):
        ident = op.findtext('{%s}identifier' % NCM)
        self.get_schema_log.append(ident)
        if ident not in self.texts or self.chance('schema_error'):
            raise RpcError('invalid-value', 'no schema %s' % ident)
        text = self.texts[ident]
        return '<data xmlns="%s">%s</data>' % (NCM, escape(text))


def subtree(schema, f, st, kids=None):
    """Subtree filter, selection and containment nodes."""
    kids = schema.roots if kids is None else kids
    out = {}
    for c in f:
        if not is_el(c):
            continue
        n = find(kids, c.tag)
        if n is None or n.q not in st:
            continue
        v = st[n.q]
        if len(c) == 0:
            out[n.q] = S.clone(v)
        elif n.kind == 'container':
            out[n.q] = subtree(schema, c, v, n.data_children())
        elif n.kind == 'list':
            out[n.q] = [subtree(schema, c, e, n.data_children()) for e in v]
    return out
