"""Simulated transport under the real ncclient session.

The hello exchange, framing, parsing, message-id matching, listeners and the
session thread are ncclient's own code; only the socket and the selector are
simulated.
"""
import types

from . import core


class OrderedListeners(list):
    """ncclient keeps listeners in a set ordered by object address; keep
    registration order instead so that a run does not depend on addresses."""

    def add(self, x):
        if x not in self:
            self.append(x)

    def discard(self, x):
        if x in self:
            self.remove(x)


class SimSocket:
    def __init__(self, sim, peer):
        self.sim = sim
        self.peer = peer
        self.inbound = []
        self.eof = False
        self.closed = False
        self.waiter = None
        self.buf = b''
        self.base11 = False

    # client side
    def send(self, data):
        if self.closed or self.eof:
            return 0
        self.buf += data
        self._frames()
        return len(data)

    def _frames(self):
        while True:
            i = self.buf.find(b']]>]]>')
            j = self.buf.find(b'\n##\n')
            if i >= 0 and not self.base11:
                msg, self.buf = self.buf[:i], self.buf[i + 6:]
            elif self.base11 and j >= 0:
                raw, self.buf = self.buf[:j], self.buf[j + 4:]
                msg = b''
                while raw:
                    assert raw[:2] == b'\n#', raw[:20]
                    k = raw.index(b'\n', 2)
                    n = int(raw[2:k])
                    msg += raw[k + 1:k + 1 + n]
                    raw = raw[k + 1 + n:]
            else:
                return
            self.peer.from_client(self, msg)

    def recv(self, n):
        if self.inbound:
            return self.inbound.pop(0)
        return b''

    def close(self):
        if not self.closed:
            self.closed = True
            self.peer.client_closed(self)
            self.wake()

    def fileno(self):
        return 3

    # device side
    def deliver(self, msg):
        if self.closed or self.eof:
            return
        if self.base11:
            self.inbound.append(b'\n#%d\n' % len(msg) + msg + b'\n##\n')
        else:
            self.inbound.append(msg + b']]>]]>')
        self.wake()

    def drop(self):
        """The connection breaks."""
        self.eof = True
        self.wake()

    def wake(self):
        if self.waiter is not None:
            self.sim.wake(self.waiter)


class SimSelector:
    def __init__(self):
        self.sock = None

    def register(self, sock, event):
        self.sock = sock

    def select(self, timeout=None):
        s = self.sock
        sim = s.sim
        sim.yield_point('select')
        if s.inbound or s.eof or s.closed:
            return [1]
        if s.session_q is not None and s.session_q.queue:
            return []
        s.waiter = sim.current
        try:
            sim.block('network')
        finally:
            s.waiter = None
        return [1] if (s.inbound or s.eof or s.closed) else []

    def close(self):
        pass


def install():
    import ncclient.transport.session as ses
    ns = types.SimpleNamespace(DefaultSelector=SimSelector, EVENT_READ=1)
    ses.selectors = ns


_cls = None


def session_class():
    global _cls
    if _cls is not None:
        return _cls
    from ncclient.transport.unixSocket import UnixSocketSession

    class SimSession(UnixSocketSession):
        def __init__(self, device_handler):
            super().__init__(device_handler)
            self._listeners = OrderedListeners()

        def connect_sim(self, sim, peer):
            sock = SimSocket(sim, peer)
            sock.session_q = self._q
            self._socket = sock
            self._connected = True
            peer.accept(sock)
            self._post_connect()

        def send(self, message):
            super().send(message)
            self._socket.wake()

    _cls = SimSession
    return _cls


def connect(sim, peer, timeout=30, raise_mode=None):
    """A real ncdiff ModelDevice on a simulated session."""
    from ncclient.devices.default import DefaultDeviceHandler
    from ncdiff import manager
    h = DefaultDeviceHandler()
    s = session_class()(h)
    s.connect_sim(sim, peer)
    kw = {'timeout': timeout}
    if raise_mode is not None:
        kw['raise_mode'] = raise_mode
    return manager.ModelDevice(s, h, **kw)
