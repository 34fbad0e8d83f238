"""A simulated CLI device: grammar, configuration state, printing, execution.

The tables below are the device's own; they repeat what the documentation and
the comments of the code under test say about real devices, not its code.

A state is a dict line -> None (plain command) or dict (section), in insertion
order. Lines of a section are printed slot by slot; within a slot in insertion
order, in slots of orderless commands in any order."""
import re

# keyword -> depths at which the device prints such lines in any order
ORDERLESS = {
    'aaa authentication': (0,), 'aaa group server': (0,),
    'radius server': (0,), 'logging host': (0,), 'flow exporter': (0,),
    'flow monitor': (0,), 'exporter': (1,), 'username': (0,),
    'match ipv4': (1,), 'collect connection': (1,), 'l2nat instance': (0,),
    'inside from host': (1,), 'neighbor': (1, 2), 'ip helper-address': (1,),
    'route-target import': (1,), 'default-router': (1,), 'dns-server': (1,),
    'option': (1,), 'vlan group': (0,), 'router': (0,), 'area': (1,),
    'redistribute': (1, 2, 3), 'ip dns': (0,), 'ip route': (0,),
    'ip access-list': (0,), 'ip dhcp pool': (0,), 'ntp server': (0,),
    'bandwidth remaining ratio': (2,), 'mpls mldp static': (0,),
    'summary-address': (1,), 'member vni': (1,), 'service-template': (0,),
    'parameter-map type': (0,), 'crypto keyring': (0,),
    'ip multicast-routing vrf': (0,), 'device classifier': (0,),
    'mobile-network pool': (4,), 'flow record': (0,),
    'aaa accounting system default': (0,), 'aaa attribute list': (0,),
    'flow file-export': (0,), 'dot1x': (0,), 'match ipv6': (1,),
    'match protocol': (1,), 'outside from host': (1,),
    'inside from network': (1,), 'outside from network': (1,),
    'inside from range': (1,), 'outside from range': (1,),
    'crypto tls-tunnel': (0,), 'route-target export': (1,),
    'domain-name': (1,), 'lease': (1,), 'ip ospf message-digest-key': (1,),
    'ospfv3 neighbor': (1,), 'ospfv3 1 ipv4 neighbor': (1,),
    'ospfv3 20 neighbor': (1,), 'mobile-network v6pool': (4,),
    'distribute-list prefix-list': (1,), 'ipv6 route': (0,),
    'ipv6 multicast-routing vrf': (0,), 'ip pim vrf': (0,),
    'ipv6 pim vrf': (0,), 'ip pim rp-address': (0,),
    'ipv6 pim rp-address': (0,), 'ipv6 access-list': (0,),
    'ipv6 dhcp pool': (0,), 'mpls ldp advertise-labels for': (0,),
    'device-tracking binding': (0,), '10 tlv-type': (1,), 'mac Regex': (1,),
    'netconf-yang': (0,), 'redundancy': (0,),
}
SINGLE = ['license boot level', 'transport input', 'transport output']
PLAIN = ['hostname', 'boot system', 'ip tftp', 'mgcp behavior', 'permit',
         'snmp-server', 'spanning-tree', 'switchport', 'mtu', 'speed',
         'vlan', 'ip nat inside source', 'policy', 'set', 'sequence',
         'tag', 'crypto isakmp key', 'keepalive', 'snmp ifindex']
SECTIONS = ['interface', 'line vty', 'class', 'vrf definition', 'router lisp',
            'locator-set', 'address-family', 'telemetry', 'call-home',
            'control-plane', 'policy-map', 'profile', 'track', 'event']
SECTION_ORDERLESS = ['flow monitor', 'radius server', 'router',
                     'ip access-list', 'ip dhcp pool', 'l2nat instance',
                     'ipv6 access-list', 'ipv6 dhcp pool',
                     'service-template', 'aaa group server', 'flow record',
                     'parameter-map type', 'crypto keyring', 'area']
TOGGLES = ['shutdown', 'ip http server', 'ip redirects', 'negotiation auto',
           'cdp enable', 'logging console', 'mop enabled', 'auto-summary']
# a command and an optional longer one beside it
COEXIST = [('snmp-server manager', 'session-timeout'),
           ('ip multicast-routing', 'distributed'),
           ('ip dhcp relay information option', 'vpn')]
# shown as "no X" unless one or more "X ..." are present
FACES = [('exception crashinfo', ('file bootflash:a', 'file bootflash:ab',
                                  'buffersize 33')),
         ('logging dmvpn', ('rate-limit 2', 'rate-limit 20'))]
EXTENDS = [('service timestamps debug', 'datetime msec'),
           ('aging', 'timeout 300'), ('banner-length', 'extended on')]
# single valued: a new line replaces the present one
OVERWRITE = [('description', re.compile(r'description ')),
             ('password', re.compile(r'password ')),
             ('username', re.compile(
                 r'username \S+ privilege [0-9]+ password ')),
             ('ip address', re.compile(r'ip address ')),
             ('ipv6 address', re.compile(r'ipv6 address '))]
# "no" of these takes no argument and removes what is there
SHORT_NO = ['license boot level', 'transport input', 'transport output',
            'ip address', 'ipv6 address']
VALUES = ['1', '10', '100', '11', '2', '10.0.0.1', '10.0.0.10', '10.0.0.100',
          'abc', 'abcd', 'ab', 'Gi1', 'Gi1/0', 'Gi10', 'x y', 'z', '-1',
          '2 permit', '#1', 'a!b', 'a%b']


class Slot:
    """One place in the printout of a section."""

    def __init__(self, kind, kw, **kw_):
        self.kind = kind
        self.kw = kw
        self.kids = None
        self.exit = None
        self.orderless = False
        self.odd = False
        self.__dict__.update(kw_)

    def __repr__(self):
        return '%s:%s' % (self.kind, self.kw)


class Grammar:
    def __init__(self, r, cfg):
        self.r = r
        self.cfg = cfg
        self.top = self.section(0, set())
        self.ref = None
        if cfg.get('refs'):
            self.refer()

    def refer(self):
        """A command, somewhere after a named section, that needs it."""
        r = self.r
        where = [(i, s) for i, s in enumerate(self.top)
                 if s.kind == 'section' and s.named and not s.exit]
        if not where:
            return
        i, d = r.choice(where)
        later = [s.kids for s in self.top[i + 1:] if s.kind == 'section' and
                 not s.orderless and not s.exit and s.named]
        slots = r.choice(later) if later and r.random() < 0.7 else self.top
        self.ref = Slot('multi', 'service-policy', target=d.kw)
        slots.insert(r.randrange(len(slots) + 1) if slots is not self.top
                     else r.randrange(i + 1, len(slots) + 1), self.ref)

    def refs(self, st, slots=None):
        """(section, line, name) of every reference in a state."""
        slots = self.top if slots is None else slots
        for l, v in st.items():
            s = slot_of(slots, l)[0]
            if s is self.ref:
                yield st, l, l[len(s.kw) + 1:]
            elif v:
                yield from self.refs(v, s.kids)

    def resolve(self, st, r):
        """Only references to what exists."""
        if self.ref is None:
            return st
        names = [l[len(self.ref.target) + 1:] for l in st
                 if l.startswith(self.ref.target + ' ')]
        for where, l, n in list(self.refs(st)):
            if n in names and r.random() < 0.8:
                continue
            del where[l]
            if names:
                where['service-policy ' + r.choice(names)] = None
        return st

    def proxy(self):
        """The section whose clients are printed in odd ways."""
        r = self.r
        kids = [Slot('single', 'session-cache')] * r.randrange(2)
        kids.append(Slot('section', 'client', named=True, odd=True, kids=[
            Slot('multi', 'accounting port'),
            Slot('single', 'timer disconnect acct-stop'),
            Slot('toggle', 'authentication port', both=False)]))
        return Slot('section', 'aaa server radius proxy', named=False,
                    kids=kids)

    def section(self, depth, taken):
        r = self.r
        cfg = self.cfg
        out = []
        n = r.randrange(2, cfg['width'] + 1)
        # a device with modes finds the mode by the keyword
        used = taken if cfg['modes'] else set()

        def take(cands):
            """A keyword no other keyword of the section is a prefix of."""
            c = [k for k in cands
                 if not any((u + ' ').startswith(k + ' ') or
                            (k + ' ').startswith(u + ' ') for u in used)]
            if not c:
                return None
            k = r.choice(c)
            used.add(k)
            return k
        if depth < 2 and r.random() < 0.15 and \
                'aaa server radius proxy' not in used:
            used.update(['aaa server radius proxy', 'client',
                         'session-cache', 'accounting port', 'authentication '
                         'port', 'timer disconnect acct-stop'])
            out.append(self.proxy())
        for _ in range(n):
            x = r.random()
            here = [k for k, d in ORDERLESS.items() if depth in d]
            if x < 0.3 and depth < cfg['depth']:
                sec_o = [k for k in SECTION_ORDERLESS if k in here]
                k = take(sec_o if r.random() < 0.5 and sec_o else
                         SECTIONS + (SECTION_ORDERLESS if
                                     r.random() < 0.2 else []))
                if k is None:
                    continue
                s = Slot('section', k, named=True)
                if k == 'router lisp':
                    s.named = False
                    s.exit = ('exit', 'exit-router-lisp')
                elif k == 'locator-set':
                    s.exit = ('exit', 'exit-locator-set')
                elif k == 'address-family' and cfg['iw'] == 1:
                    s.exit = ('exit-address-family',)
                s.kids = self.section(depth + 1, used)
                s.orderless = k in here and s.named
                out.append(s)
            elif x < 0.55:
                k = take([k for k in here if k not in SECTION_ORDERLESS and
                          k != 'username'])
                if k:
                    out.append(Slot('multi', k, orderless=True))
            elif x < 0.62:
                # orderless elsewhere only
                k = take([k for k in ORDERLESS if k not in here])
                if k:
                    out.append(Slot('multi', k))
            elif x < 0.72:
                k = take(PLAIN)
                if k:
                    out.append(Slot(r.choice(('multi', 'multi', 'single')),
                                    k))
            elif x < 0.75:
                k = take(SINGLE)
                if k:
                    out.append(Slot('single', k))
            elif x < 0.85:
                k = take(TOGGLES)
                if k:
                    out.append(Slot('toggle', k, both=r.random() < 0.4))
            elif x < 0.91:
                c = [e for e in EXTENDS if e[0] not in used]
                if c:
                    k, e = r.choice(c)
                    if take([k]):
                        out.append(Slot('extend', k, ext=e))
            elif x < 0.93:
                k = take([c[0] for c in COEXIST])
                if k:
                    out.append(Slot('coexist', k, ext=dict(COEXIST)[k]))
            elif x < 0.95:
                k = take([c[0] for c in FACES])
                if k:
                    out.append(Slot('face', k, args=dict(FACES)[k]))
            elif x < 0.96 or depth == 2 and x < 0.98:
                k = take(['neighbor'])
                if k:
                    out.append(Slot('faces', k, orderless=depth == 2,
                                    names=r.sample(['1.1.1.1', '1.1.1.11',
                                                    '2.2.2.2'], 2)))
            else:
                k, rx = r.choice(OVERWRITE)
                if take([k]):
                    s = Slot('over', k, rx=rx)
                    if k == 'username':
                        s.orderless = depth == 0
                    s.noip = k == 'ip address' and r.random() < 0.5
                    out.append(s)
        return out


def slot_of(slots, line):
    """(slot, positive) of a line."""
    pos = True
    x = line
    if x.startswith('no '):
        pos, x = False, x[3:]
    best = None
    for s in slots:
        if (x + ' ').startswith(s.kw + ' '):
            if best is None or len(s.kw) > len(best.kw):
                best = s
    return best, pos, x


class Conf:
    """Random states over a grammar."""

    def __init__(self, grammar, r, density, maxlist):
        self.g = grammar
        self.r = r
        self.density = density
        self.maxlist = maxlist

    def state(self, slots=None):
        slots = self.g.top if slots is None else slots
        st = {}
        for s in slots:
            for line, v in self.fill(s).items():
                st[line] = v
        return st

    def fill(self, s):
        r = self.r
        out = {}
        if s.kind == 'toggle':
            if s.both:
                out[s.kw if r.random() < 0.5 else 'no ' + s.kw] = None
            elif r.random() < 0.5:
                out['no ' + s.kw] = None
            return out
        if s.kind == 'faces':
            for n in s.names:
                out['%sneighbor %s activate'
                    % (r.choice(('', 'no ')), n)] = None
            return out
        if s.kind == 'face' or s.kind == 'over' and s.noip:
            out['no ' + s.kw] = None
        if r.random() > self.density:
            return out
        if s.kind == 'extend':
            out[s.kw if r.random() < 0.5 else s.kw + ' ' + s.ext] = None
        elif s.kind == 'coexist':
            out[s.kw] = None
            if r.random() < 0.6:
                out['%s %s %s' % (s.kw, s.ext, r.choice(
                    ('1', '10', '2')))] = None
        elif s.kind == 'face':
            out = {}
            for a in r.sample(s.args, r.randrange(1, len(s.args) + 1)):
                out[s.kw + ' ' + a] = None
        elif s.kind == 'over':
            out = {}
            if s.kw == 'username':
                for v in r.sample(['a', 'ab', 'b'], r.randrange(1, 4)):
                    out['username %s privilege %d password 0 %s' % (
                        v, r.choice((1, 15)), self.value())] = None
            else:
                out['%s %s' % (s.kw, self.value())] = None
        elif s.kind == 'single':
            out['%s %s' % (s.kw, self.value())] = None
        elif s.kind == 'multi':
            for v in self.values():
                out['%s %s' % (s.kw, v)] = None
        elif s.kind == 'section':
            if not s.named:
                out[s.kw] = self.state(s.kids)
            else:
                for v in self.values(False):
                    out['%s %s' % (s.kw, v)] = self.state(s.kids)
        return out

    def value(self):
        return self.r.choice(VALUES)

    def values(self, multi=True):
        # names of sections are one word: an empty section cannot be told
        # from a command
        """Values that can exist side by side: none a word prefix of
        another."""
        r = self.r
        out = []
        for v in r.sample(VALUES, min(len(VALUES),
                                      r.randrange(1, self.maxlist + 1))):
            if not multi:
                v = v.split(' ')[0]
            if r.random() < 0.3 and out and multi:
                v = out[-1].split(' ')[0] + '0'
            if not any((v + ' ').startswith(o + ' ') or
                       (o + ' ').startswith(v + ' ') for o in out):
                out.append(v)
        return out

    def mutate(self, st, slots=None, top=True):
        """A state nearby."""
        r = self.r
        slots = self.g.top if slots is None else slots
        out = {}
        for s in slots:
            mine = {l: v for l, v in st.items()
                    if slot_of(slots, l)[0] is s}
            x = r.random()
            if x < 0.35:
                out.update(self.clone(mine))
            elif x < 0.5:
                out.update(self.fill(s))
            elif s.kind == 'section':
                for l, v in mine.items():
                    y = r.random()
                    if y < 0.3:
                        out[l] = self.clone(v)
                    elif y < 0.8:
                        out[l] = self.mutate(v, s.kids)
                    elif y < 0.9 and s.named:
                        n = '%s %s' % (s.kw, self.value().split(' ')[0])
                        if fits(out, mine, n):
                            out[n] = self.clone(v)
            elif s.kind == 'multi':
                ls = list(mine)
                y = r.random()
                if y < 0.35 and len(ls) > 1:
                    i = r.randrange(len(ls))
                    j = r.randrange(len(ls))
                    ls[i], ls[j] = ls[j], ls[i]
                elif y < 0.6 and ls:
                    del ls[r.randrange(len(ls))]
                else:
                    n = '%s %s' % (s.kw, self.value())
                    if fits(ls, {}, n):
                        ls.insert(r.randrange(len(ls) + 1), n)
                for l in ls:
                    out[l] = None
            else:
                out.update(self.fill(s))
        return out

    def clone(self, st):
        return clone(st)


def fits(lines, more, n):
    return not any((n + ' ').startswith(o + ' ') or
                   (o + ' ').startswith(n + ' ')
                   for o in list(lines) + list(more))


def clone(st):
    return None if st is None else {k: clone(v) for k, v in st.items()}


def canon(slots, st):
    """What the configuration is; the order of orderless lines is not part
    of it."""
    out = []
    for s in slots:
        mine = [(l, v) for l, v in st.items() if slot_of(slots, l)[0] is s]
        if s.orderless:
            mine = sorted(mine, key=lambda x: x[0])
        for l, v in mine:
            out.append((l, None if v is None else canon(s.kids, v)))
    return tuple(out)


def by_order(slots, st):
    """The order-sensitive lines in the order of their text: a device that
    numbers its lines."""
    out = {}
    for s in slots:
        mine = [(l, v) for l, v in st.items() if slot_of(slots, l)[0] is s]
        for l, v in sorted(mine, key=lambda x: x[0]):
            out[l] = None if v is None else by_order(s.kids, v)
    return out


def paths(slots, st, where=()):
    """Multiset of lines with their sections, as printed without layout."""
    out = []
    for s in slots:
        for l, v in st.items():
            if slot_of(slots, l)[0] is not s:
                continue
            out.append(where + (l,))
            if v is not None:
                out += paths(s.kids, v, where + (l,))
                if s.exit:
                    out.append(where + (l, s.exit[0]))
    return out


class Printer:
    """show running-config. pick(label, n) decides the freedoms."""

    def __init__(self, pick, cfg):
        self.pick = pick
        self.cfg = cfg

    def text(self, slots, st):
        out = []
        if self.pick('head', 2):
            out += ['Building configuration...', '',
                    'Current configuration : %d bytes'
                    % (1000 + self.pick('bytes', 5000)), '!']
        w = 1
        if self.cfg['iw'] != 1:
            w = 1 + self.pick('width', 4)
        self.w = w
        out += self.lines(slots, st, 0)
        out = [self.noise(x) for x in out]
        return '\n'.join(y for x in out for y in x) + (
            '\n' if self.pick('nl', 2) else '')

    def noise(self, line):
        out = []
        if line.startswith(QUIET):
            # marks are meaningful here
            return [line[1:]]
        x = self.pick('noise', 12)
        if x == 1:
            out.append('!')
        elif x == 2:
            out.append('')
        elif x == 3:
            out.append(' !')
        elif x == 4:
            out.append('! Last configuration change at 10:%02d'
                       % self.pick('t', 60))
        elif x == 5:
            out.append('% warning')
        elif x == 6:
            line += ' ' * (1 + self.pick('trail', 3))
        elif x == 7:
            out.append('   ')
        return out + [line]

    def lines(self, slots, st, depth):
        pad = ' ' * (self.w * depth)
        out = []
        run = []

        def flush():
            # neighbouring orderless commands in any order
            while run:
                out.extend(run.pop(self.pick('order', len(run))
                                   if len(run) > 1 else 0))
        for s in slots:
            if s.odd:
                flush()
                out += self.clients(s, [
                    (l, v) for l, v in st.items()
                    if slot_of(slots, l)[0] is s], depth)
                continue
            for l, v in st.items():
                if slot_of(slots, l)[0] is not s:
                    continue
                block = [pad + l]
                if v is not None:
                    block += self.lines(s.kids, v, depth + 1)
                    if s.exit == ('exit-address-family',):
                        block.append(pad + 'exit-address-family')
                    elif s.exit:
                        block.append(pad + ' ' * self.w + s.exit[
                            self.pick('exit', len(s.exit))])
                if s.orderless:
                    run.append(block)
                else:
                    flush()
                    out += block
        flush()
        return out


    def clients(self, s, items, depth):
        """Siblings that look like children of the first one."""
        style = self.pick('clients', 4)
        pad, deep = ' ' * (self.w * depth), ' ' * (self.w * (depth + 1))
        out = []
        for i, (l, v) in enumerate(items):
            kids = self.lines(s.kids, v, 0)
            if style in (0, 3):
                out += [pad + l] + [deep + k for k in kids]
                if style == 3:
                    out.append(pad + '!')
                continue
            out.append((deep if i else pad) + l)
            if style == 1:
                out += [deep + k for k in kids] + [deep + '!']
            else:
                out += [deep + (' ' * self.w if i else '') + k for k in kids]
        return [QUIET + x for x in out]


QUIET = '\0'


class Device:
    """Executes command lines."""

    def __init__(self, grammar, modes=False):
        self.g = grammar
        self.modes = modes
        self.st = {}
        self.session()
        self.rejected = 0

    def refuse(self, text):
        self.rejected += 1

    def session(self):
        """A new session starts at the top."""
        self.stack = [(-1, self.g.top, self.st)]

    def enter(self, line):
        text = line.strip()
        ind = len(line) - len(line.lstrip(' '))
        if not text:
            return
        if text[0] == '!':
            if ind == 0:
                self.session()
            return
        if text.startswith('exit'):
            if self.modes and len(self.stack) > 1:
                self.stack.pop()
            return
        if self.modes:
            # the innermost mode that knows the command
            i = len(self.stack) - 1
            while i > 0 and slot_of(self.stack[i][1], text)[0] is None:
                i -= 1
            del self.stack[i + 1:]
        else:
            while ind <= self.stack[-1][0]:
                self.stack.pop()
        _, slots, st = self.stack[-1]
        s, pos, x = slot_of(slots, text)
        if s is None:
            if not pos:
                # the short form of a "no" of longer commands
                for l in [l for l in st if (l + ' ').startswith(x + ' ')]:
                    del st[l]
            else:
                self.rejected += 1
            return
        if s.kind == 'toggle':
            st.pop(s.kw, None)
            st.pop('no ' + s.kw, None)
            if not pos:
                st['no ' + s.kw] = None
            elif s.both:
                st[s.kw] = None
            return
        if s.kind == 'faces':
            st.pop(x, None)
            st.pop('no ' + x, None)
            st[text] = None
            return
        if s.kind == 'face' and pos and text == s.kw:
            return
        ref = self.g.ref
        if ref is not None:
            if s is ref and pos and \
                    '%s %s' % (ref.target, x[len(s.kw) + 1:]) not in self.st:
                self.refuse(text)
                return
            if not pos and len(self.stack) == 1 and s.kw == ref.target and \
                    any('%s %s' % (ref.target, n) == x
                        for _, _, n in self.g.refs(self.st)):
                self.refuse(text)
                return
        if not pos:
            if s.kw in SHORT_NO:
                x = s.kw
            for l in [l for l in st if (l + ' ').startswith(x + ' ')]:
                del st[l]
            if s.kind == 'over' and s.noip or s.kind == 'face' and not any(
                    (l + ' ').startswith(s.kw + ' ') for l in st):
                st['no ' + s.kw] = None
            return
        if s.kind == 'coexist':
            if text != s.kw:
                for l in [l for l in st if l.startswith(s.kw + ' ')]:
                    del st[l]
            st[text] = None
            return
        st.pop('no ' + s.kw, None)
        if s.kind == 'over':
            if text == s.kw:
                return
            st.pop('no ' + s.kw, None)
            m = s.rx.match(text)
            if m:
                for l in [l for l in st if l.startswith(m.group(0))]:
                    del st[l]
            st[text] = None
            return
        if s.kind == 'section':
            if text not in st or st[text] is None:
                st[text] = {}
            self.stack.append((ind, s.kids, st[text]))
            return
        for l in [l for l in st if v_leaf(st, l) and l != text and
                  (text + ' ').startswith(l + ' ')]:
            del st[l]
        if s.kind == 'extend':
            for l in [l for l in st if l.startswith(s.kw)]:
                del st[l]
        st.setdefault(text, None)


def v_leaf(st, l):
    return st[l] is None
