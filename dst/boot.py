"""Import the code under test inside the simulator."""
import os
import sys

from . import core

REPO = os.environ.get('VERIF_REPO', '/repo')
_done = False


def boot(instrument=True):
    """Install the seams, then import ncdiff from the working tree."""
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, 'src'))
    core.install()
    from . import disk
    disk.install()
    import ncdiff
    assert os.path.realpath(ncdiff.__file__).startswith(
        os.path.realpath(os.path.join(REPO, 'src'))), ncdiff.__file__
    for m in modules():
        m.id = sim_id
    from . import net
    net.install()
    if instrument:
        import pyang.context
        core.instrument(modules() + [pyang.context])


_ids = {}
_held = []
HOLD = False


def sim_id(x):
    """The identity of an object, as a number that does not depend on where
    the process has its memory: sets of the real ones have another order in
    every process. Where schedules depend on it, objects are kept, so that
    no identity is used again; everywhere else they come and go as they do
    in reality."""
    n = id(x)
    if HOLD:
        _held.append(x)
    return _ids.setdefault(n, len(_ids) + 1)


def modules():
    import ncdiff
    names = sorted(n for n in sys.modules
                   if (n == 'ncdiff' or n.startswith('ncdiff.')) and
                   '.tests' not in n)
    return [sys.modules[n] for n in names]
