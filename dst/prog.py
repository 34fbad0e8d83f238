"""Steps a client performs on one device, with results that can be compared
between runs: canonical text, independent of prefixes and layout."""
import random
import re

from lxml import etree

from . import device as D
from . import schema as S
from .world import Payload, NoPrefix, options, transport_failure

KINDS = ['sub', 'sub', 'add', 'sum', 'cmp', 'cmp', 'neg', 'text', 'payload',
         'random', 'xpath', 'tags', 'ns', 'schema', 'bool', 'filter',
         'node', 'unknown', 'wrap', 'models']
NETKINDS = ['read', 'read', 'edit', 'edit', 'refuse']


def canon(el):
    def qtext(t, e):
        if t is not None and t.startswith('/'):
            return preds(t, e)
        if t is not None and ':' in t:
            p, name = t.split(':', 1)
            if p in e.nsmap:
                return '{%s}%s' % (e.nsmap[p], name)
        return t

    def preds(t, e):
        # names of keys, and values that are qualified names
        return re.sub(r'''([\[/]|=['"])([\w.-]+):''', lambda m: '%s{%s}' % (
            m.group(1), e.nsmap.get(m.group(2), m.group(2))), t)

    def f(e):
        kids = [f(c) for c in e if isinstance(c.tag, str)]
        t = e.text
        if kids:
            t = None if t is None or not t.strip() else t
        else:
            t = qtext(t, e)
        at = []
        for k, v in sorted(e.attrib.items()):
            if k == D.KEY:
                v = preds(v, e)
            elif k == D.VALUE:
                v = qtext(v, e)
            at.append((k, v))
        return [e.tag, t or '', at, kids]
    return repr(f(el))


def ordered(text):
    """Tree text of a snapshot whose system-ordered content may be in any
    order: not normalised further, the code under test is deterministic."""
    return text


class Ctx:
    """Inputs of the computations: texts of snapshots and payloads."""

    def __init__(self, schema, r, density, maxlist, n=4):
        self.schema = schema
        self.st = S.States(schema, r, density=density, maxlist=maxlist)
        self.states = []
        for i in range(n):
            x = r.random()
            if i and x < 0.6:
                s = self.st.mutate(r.choice(self.states))
            elif x < 0.1:
                s = {}
            else:
                s = self.st.state()
            self.states.append(S.canon(schema, s))
        self.texts = []
        for s in self.states:
            rr = D.Renderer(schema, lambda l, n: r.randrange(n)
                            if r.random() < 0.6 else 0)
            self.texts.append('<data xmlns="%s">%s</data>'
                              % (D.NC, rr.document(s)))
        self.with_config = sorted({x.mod.name for x in schema.roots
                                   if x.config})
        self.readable = sorted({x.mod.name for x in schema.roots})
        self.payloads = []

        class W:
            pass
        w = W()
        w.schema = schema
        for s in self.states:
            try:
                self.payloads.append(etree.tostring(
                    Payload(w, r, s).build()))
            except NoPrefix:
                self.payloads.append(b'<config xmlns="%s"/>'
                                     % D.NC.encode())


def configs(m, ctx):
    from ncdiff import Config
    return [Config(m, t) for t in ctx.texts]


def compute(m, ctx, cfgs, op):
    """Result of one local step as text."""
    from ncdiff import Config, ConfigDelta
    from ncdiff.composer import Tag
    r = random.Random('op/%s' % op['s'])
    k = op['k']
    a = cfgs[r.randrange(len(cfgs))]
    b = cfgs[r.randrange(len(cfgs))]
    try:
        if k == 'sub':
            return canon(ConfigDelta(a, b, **options(r)).nc)
        if k == 'add':
            return canon((a + (b - a)).ele)
        if k == 'sum':
            return canon((a + b).ele)
        if k == 'cmp':
            return repr((a == b, a != b, a <= b, a >= b, a < b, a > b))
        if k == 'neg':
            return canon((-(a - b)).nc)
        if k == 'text':
            return canon(Config(m, r.choice(ctx.texts)).ele)
        if k == 'payload':
            e = etree.fromstring(r.choice(ctx.payloads))
            return canon((a + e).ele)
        if k == 'random':
            return canon(ConfigDelta(a, b, random_depth=r.randrange(3),
                                     random_seed=r.choice((0, 1, 7, -3, r.randrange(1000)))).nc)
        if k == 'wrap':
            d = ConfigDelta(a, delta=etree.fromstring(
                r.choice(ctx.payloads)))
            return canon(d.nc) + canon(d.config_dst.ele)
        if k in ('xpath', 'node'):
            out = []
            nodes = [e for e in a.ele.iter() if e is not a.ele]
            for e in r.sample(nodes, min(4, len(nodes))):
                if k == 'xpath':
                    out.append(m.get_xpath(
                        e, type=r.choice((Tag.XPATH, Tag.LXML_XPATH,
                                          Tag.JSON_NAME)),
                        instance=r.random() < 0.7))
                else:
                    n = m.get_schema_node(e)
                    out.append((n.tag, sorted(n.attrib.items()),
                                m.get_model_name(e)))
            return repr(out)
        if k == 'tags':
            out = []
            nodes = [e for e in a.ele.iter() if e is not a.ele]
            for e in r.sample(nodes, min(4, len(nodes))):
                for dst in (Tag.XPATH, Tag.JSON_NAME, Tag.JSON_PREFIX,
                            Tag.LXML_XPATH):
                    out.append(m.convert_tag('', e.tag, dst=dst))
            return repr(out)
        if k == 'ns':
            return repr(sorted(a.ns.items())) + repr(sorted(
                a.roots.items()))
        if k == 'schema':
            n = r.choice(sorted(m.models))
            return str(m.models[n]) + repr(sorted(m.namespaces)) + \
                repr(sorted(m.roots.items()))
        if k == 'models':
            return repr((m.models_loadable, m.models_loaded))
        if k == 'bool':
            return repr((bool(a), bool(a - b))) + \
                canon(etree.fromstring(str(a)))
        if k == 'filter':
            nodes = [e for e in a.ele.iter() if e is not a.ele]
            if not nodes:
                return 'nothing'
            e = r.choice(nodes)
            return canon(a.filter(m.get_xpath(e, type=Tag.LXML_XPATH,
                                              instance=False)).ele)
        if k == 'unknown':
            return canon(Config(m, '<data xmlns="%s"><x xmlns="urn:no:such"'
                                '/></data>' % D.NC).ele)
    except Exception as e:
        return 'raised ' + type(e).__name__
    raise AssertionError(k)
