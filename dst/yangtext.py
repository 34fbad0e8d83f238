"""A small YANG reader, independent of pyang: the statement tree of a text and
the header facts a scan has to record."""
import re

_TOK = re.compile(r'''
    (?P<ws>\s+) | (?P<c1>//[^\n]*) | (?P<c2>/\*.*?\*/) |
    (?P<dq>"(?:\\.|[^"\\])*") | (?P<sq>'[^']*') |
    (?P<p>[{};]) | (?P<w>[^\s;{}"']+)''', re.S | re.X)


class BadYang(Exception):
    pass


def tokens(text):
    i = 0
    while i < len(text):
        m = _TOK.match(text, i)
        if not m:
            raise BadYang('at %d' % i)
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'c1', 'c2'):
            continue
        yield k, m.group()


def _string(k, t):
    if k == 'dq':
        return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t'}.get(
            m.group(1), m.group(1)), t[1:-1])
    if k == 'sq':
        return t[1:-1]
    return t


def parse(text):
    """[(keyword, argument, children)]"""
    toks = list(tokens(text))
    pos = 0

    def block(depth):
        nonlocal pos
        out = []
        while pos < len(toks):
            k, t = toks[pos]
            if k == 'p':
                if t == '}' and depth:
                    pos += 1
                    return out
                raise BadYang('unexpected %s' % t)
            kw = t
            pos += 1
            arg = None
            if pos < len(toks) and toks[pos][0] != 'p':
                arg = _string(*toks[pos])
                pos += 1
                while pos < len(toks) and toks[pos] == ('w', '+'):
                    arg += _string(*toks[pos + 1])
                    pos += 2
            if pos >= len(toks):
                raise BadYang('end of text')
            k, t = toks[pos]
            pos += 1
            if (k, t) == ('p', ';'):
                out.append((kw, arg, []))
            elif (k, t) == ('p', '{'):
                out.append((kw, arg, block(depth + 1)))
            else:
                raise BadYang('unexpected %s' % t)
        if depth:
            raise BadYang('end of text')
        return out
    return block(0)


def header(text):
    """The facts of one module or submodule, as comparable data."""
    st = parse(text)
    if len(st) != 1 or st[0][0] not in ('module', 'submodule'):
        raise BadYang('not a module')
    kw, name, kids = st[0]

    def args(k):
        return [a for w, a, _ in kids if w == k]
    out = {'id': name, 'type': kw,
           'imports': sorted(
               (a, dict((w, x) for w, x, _ in c).get('prefix'))
               for w, a, c in kids if w == 'import'),
           'includes': sorted(args('include')),
           'revisions': args('revision'),
           'augments': sorted(args('augment')),
           'deviations': sorted(args('deviation'))}
    if kw == 'module':
        out['prefix'] = (args('prefix') or [None])[0]
        out['namespace'] = (args('namespace') or [None])[0]
    else:
        out['belongs-to'] = (args('belongs-to') or [None])[0]
    return out


def refers(text):
    """Names of the modules and submodules a text imports or includes."""
    h = header(text)
    return set(a for a, _ in h['imports']) | set(h['includes'])


def record(el):
    """The same facts from an element of dependencies.xml."""
    def args(path, attr):
        return [x.get(attr) for x in el.findall(path)]
    out = {'id': el.get('id'), 'type': el.get('type'),
           'imports': sorted((x.get('module'), x.get('prefix'))
                             for x in el.findall('imports/import')),
           'includes': sorted(args('includes/include', 'module')),
           'revisions': args('revisions/revision', 'date'),
           'augments': sorted(args('augments/augment', 'xpath')),
           'deviations': sorted(args('deviations/deviation', 'xpath'))}
    if el.get('type') == 'module':
        out['prefix'] = el.get('prefix')
        out['namespace'] = el.findtext('namespace')
    else:
        b = el.find('belongs-to')
        out['belongs-to'] = None if b is None else b.get('module')
    return out
