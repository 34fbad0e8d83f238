"""The file system seam.

Files live in a real scratch folder of the run.  Calls made by a simulated
process on paths below that folder are scheduling points and may fail, tear or
crash; directory listings come in an order the scheduler picks.  Everything
else goes straight to the operating system.

Semantics: a process crash.  What reached the operating system survives; what
was still in a buffer of the dead process may be lost from any point on.
"""
import builtins
import errno
import io
import os

from . import core

_open = builtins.open
_listdir = os.listdir
_scandir = os.scandir
_remove = os.remove
_unlink = os.unlink
_rename = os.rename
_replace = os.replace
_makedirs = os.makedirs
_mkdir = os.mkdir

DISK = None         # the Disk of the run


class Disk:
    """Fault configuration of one run: probabilities per call."""

    def __init__(self, sim, root, faults=None):
        self.sim = sim
        self.root = os.path.realpath(root) + os.sep
        self.f = dict(faults or {})
        self.quiet = False
        self.budget = 3
        self.ops = 0
        self.crash_after = None      # crash in the middle of the n-th write
        self.writes = 0

    def mine(self, path):
        if isinstance(path, int) or path is None:
            return None
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        if (p + os.sep).startswith(self.root):
            return p
        return None

    def chance(self, kind):
        p = self.f.get(kind, 0)
        if not p or self.quiet or self.budget <= 0:
            return False
        if self.sim.flip('disk.' + kind, p):
            self.budget -= 1
            self.sim.fault('disk_' + kind)
            return True
        return False

    def enter(self, what, path):
        """Common part of every call; raises SimCrash in a dead process."""
        s = self.sim
        self.ops += 1
        if s.current.group.crashed:
            raise core.SimCrash()
        s.yield_point('disk')

    def torn(self, n):
        """How much of n bytes reached the disk."""
        if n == 0:
            return 0
        k = self.sim.choose('disk.torn', 4)
        if k == 0:
            return 0
        if k == 1:
            return n - 1
        return self.sim.choose('disk.tornat', n)

    def write_point(self, data):
        """Called for data that goes to the disk; returns (bytes that arrive,
        exception or None)."""
        self.writes += 1
        if self.crash_after is not None and not self.quiet and \
                self.writes >= self.crash_after:
            self.crash_after = None
            return data[:self.torn(len(data))], 'crash'
        if self.chance('enospc'):
            return data[:self.torn(len(data))], \
                OSError(errno.ENOSPC, 'No space left on device (simulated)')
        if self.chance('eio'):
            return data[:self.torn(len(data))], \
                OSError(errno.EIO, 'Input/output error (simulated)')
        return data, None

    def fail(self, exc):
        if exc == 'crash':
            s = self.sim
            s.fault('crash_in_write')
            s.crash(s.current.group)
            raise core.SimCrash()
        if exc is not None:
            raise exc


def _disk(path):
    d = DISK
    if d is None:
        return None
    s, t = core._sim_task()
    if s is None or t.group.id == 0:
        return None
    return d if d.mine(path) else None


class SimWriter(io.RawIOBase):
    """Raw file opened for writing by a simulated process."""

    def __init__(self, d, raw, name):
        self.d = d
        self.raw = raw
        self._name = name

    @property
    def name(self):
        return self._name

    def writable(self):
        return True

    def readable(self):
        return self.raw.readable()

    def seekable(self):
        return True

    def seek(self, *a):
        return self.raw.seek(*a)

    def tell(self):
        return self.raw.tell()

    def truncate(self, *a):
        return self.raw.truncate(*a)

    def readinto(self, b):
        return self.raw.readinto(b)

    def fileno(self):
        return self.raw.fileno()

    def isatty(self):
        return False

    def write(self, b):
        data = bytes(b)
        s = self.d.sim
        if s.current is not None and s.current.group.crashed:
            return len(data)         # the process is dead
        self.d.enter('write', self._name)
        part, exc = self.d.write_point(data)
        if part:
            self.raw.write(part)
        self.d.fail(exc)
        return len(data)

    def close(self):
        if not self.closed:
            self.raw.close()
            super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    d = _disk(file) if not isinstance(file, int) else None
    if d is None or opener is not None:
        return _open(file, mode, buffering, encoding, errors, newline,
                     closefd, opener)
    d.enter('open', file)
    if not any(c in mode for c in 'wax+'):
        if d.chance('read_eio'):
            raise OSError(errno.EIO, 'Input/output error (simulated)',
                          str(file))
        return _open(file, mode, buffering, encoding, errors, newline)
    if d.chance('open_fail'):
        raise OSError(errno.EMFILE, 'Too many open files (simulated)',
                      str(file))
    rawmode = mode.replace('t', '').replace('b', '') + 'b'
    raw = _open(file, rawmode, 0)
    w = SimWriter(d, raw, file)
    buf = io.BufferedWriter(w) if '+' not in mode else io.BufferedRandom(w)
    if 'b' in mode:
        return buf
    return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)


def shuffled(d, names):
    names = sorted(names)
    s = d.sim
    if len(names) < 2:
        return names
    if s.choose('disk.listing', 2, p=0.7):
        r = s.rng('listing-order') if s.script is None else None
        k = s.choose('disk.listing_seed', 1 << 16)
        import random
        random.Random(k).shuffle(names)
    return names


def sim_listdir(path='.'):
    d = _disk(path)
    if d is None:
        return _listdir(path)
    d.enter('listdir', path)
    return shuffled(d, _listdir(path))


class _Scan:
    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def sim_scandir(path='.'):
    d = _disk(path)
    if d is None:
        return _scandir(path)
    d.enter('scandir', path)
    with _scandir(path) as it:
        ents = {e.name: e for e in it}
    return _Scan([ents[n] for n in shuffled(d, ents)])


def _wrap(orig, name, kinds):
    def f(path, *a, **kw):
        d = _disk(path)
        if d is None:
            return orig(path, *a, **kw)
        d.enter(name, path)
        if d.chance(kinds):
            raise OSError(errno.EIO, 'Input/output error (simulated)',
                          str(path))
        return orig(path, *a, **kw)
    return f


_etree_cls = None


def sim_element_tree(element=None, *, file=None, parser=None):
    """lxml writes files in C; writing goes through the seam instead."""
    from lxml import etree
    global _etree_cls
    if _etree_cls is None:
        class SimTree(etree._ElementTree):
            def write(self, file, *a, **kw):
                d = _disk(file) if isinstance(file, (str, os.PathLike)) \
                    else None
                if d is None:
                    return super().write(file, *a, **kw)
                buf = io.BytesIO()
                super().write(buf, *a, **kw)
                with sim_open(file, 'wb') as f:
                    f.write(buf.getvalue())
        _etree_cls = SimTree
    if file is not None or element is None:
        if element is None:
            return _orig_tree(None, file=file, parser=parser)
        return _orig_tree(element, file=file, parser=parser)
    t = _etree_cls.__new__(_etree_cls)
    t._setroot(element)
    return t


_orig_tree = None
_installed = False


def install():
    """Before ncdiff is imported."""
    global _installed, _orig_tree
    if _installed:
        return
    _installed = True
    from lxml import etree
    _orig_tree = etree.ElementTree
    etree.ElementTree = sim_element_tree
    builtins.open = sim_open
    io.open = sim_open
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.remove = _wrap(_remove, 'remove', 'remove_eio')
    os.unlink = _wrap(_unlink, 'unlink', 'remove_eio')
    os.rename = _wrap(_rename, 'rename', 'rename_eio')
    os.replace = _wrap(_replace, 'replace', 'rename_eio')
    os.makedirs = _wrap(_makedirs, 'makedirs', 'mkdir_eio')
    os.mkdir = _wrap(_mkdir, 'mkdir', 'mkdir_eio')


def use(disk):
    global DISK
    DISK = disk
