"""Deterministic simulator core.

Real Python threads run the real code, but only the thread that holds the
baton executes; a seeded scheduler decides who holds it.  Locks, conditions,
queues, events, timers, sleeping and thread start/join of the code under test
run on top of the scheduler (threading._allocate_lock, threading.Lock,
threading.RLock, threading._start_new_thread, time and queue clocks are
replaced before the code under test is imported).

Every nondeterministic decision is taken by Sim.choose (faults, delays,
renderings) or by the two scheduling decisions.  A decision is identified by
its label and its ordinal under that label; decisions that differ from the
benign default are recorded, so that a run can be replayed from
  (plan, hash seed, {decision: value})
and minimised by removing entries.
"""
import _thread
import hashlib
import heapq
import random
import sys
import threading
import time as _time_mod
import queue as _queue_mod
import types

_real_allocate = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_real_get_ident = _thread.get_ident
_real_monotonic = _time_mod.monotonic
_real_time = _time_mod.time
_real_sleep = _time_mod.sleep
_orig_join = threading.Thread.join
_orig_is_alive = threading.Thread.is_alive

ACTIVE = None          # the Sim being run, if any


class SimCrash(BaseException):
    """The simulated process died."""


class SimAbort(BaseException):
    """The run is over (deadlock, budget or harness shutdown)."""


class Liveness(Exception):
    """No progress: deadlock or step budget exhausted."""


class Violation(Exception):
    def __init__(self, kind, detail=''):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


class Task:
    __slots__ = ('id', 'name', 'baton', 'state', 'deadline', 'timed_out',
                 'group', 'thread', 'exc', 'result', 'joiners', 'on', 'dead',
                 'daemon')

    def __init__(self, id, name, group):
        self.id = id
        self.name = name
        self.group = group
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = 'ready'          # ready, blocked, done
        self.deadline = None
        self.timed_out = False
        self.thread = None
        self.exc = None
        self.result = None
        self.joiners = []
        self.on = None
        self.daemon = False


class Group:
    """One incarnation of a simulated process (or the harness)."""

    def __init__(self, id, name):
        self.id = id
        self.name = name
        self.crashed = False
        self.random_state = None


class Sim:
    def __init__(self, seed, script=None, preempt=0, max_lines=2000000,
                 max_steps=400000, stall_p=0.0):
        self.seed = seed
        self.script = script           # None: random mode
        self.preempt = preempt         # mean lines between preemptions, 0 off
        self.stall_p = stall_p
        self.stall_d = (1, 5, 20, 100)
        self.max_lines = max_lines
        self.max_steps = max_steps
        self.rngs = {}
        self.counts = {}
        self.deviations = {}
        self.log = []
        self.loghash = hashlib.sha256()
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.now = 1000.0
        self.timers = []
        self.timer_seq = 0
        self.lines = 0
        self.steps = 0
        self.switches = 0
        self.next_preempt = None
        self.groups = [Group(0, 'harness')]
        self.aborted = None
        self.schedhash = hashlib.sha256()
        self.faults = {}
        self.nopreempt = 0
        self.uuid = 0
        self.harness_error = None
        self.crash_at = float('inf')   # line at which crash_group dies
        self.crash_group = None
        self.computed = 0.0      # time that passed while threads computed
        self.blocked_info = []
        if preempt:
            self._draw_gap()

    # ------------------------------------------------------------ decisions
    def rng(self, label):
        r = self.rngs.get(label)
        if r is None:
            r = self.rngs[label] = random.Random('%s/%s' % (self.seed, label))
        return r

    def choose(self, label, n, p=None, weights=None):
        """Pick 0..n-1.  0 is the benign default.  p: probability of a
        non-default pick."""
        if n <= 1:
            return 0
        k = self.counts.get(label, 0)
        self.counts[label] = k + 1
        key = '%s#%d' % (label, k)
        if self.script is not None:
            v = self.script.get(key, 0)
            if v >= n:
                v = n - 1
        else:
            r = self.rng(label)
            if p is not None:
                v = r.randrange(1, n) if r.random() < p else 0
            elif weights is not None:
                v = r.choices(range(n), weights)[0]
            else:
                v = r.randrange(n)
        if v:
            self.deviations[key] = v
        return v

    def flip(self, label, p):
        return bool(self.choose(label, 2, p=p))

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def note(self, *what):
        s = ' '.join(str(w) for w in what)
        self.loghash.update(s.encode('utf-8', 'replace') + b'\n')
        if len(self.log) < 20000:
            self.log.append('%.3f %s' % (self.now, s))

    def digest(self):
        h = self.loghash.copy()
        h.update(self.schedhash.digest())
        # without preemption the lines decide nothing
        h.update(b'%d %d %d %d' % (self.lines if self.preempt else 0,
                                   self.steps, self.switches,
                                   int(self.now * 1e6)))
        return h.hexdigest()[:16]

    # ------------------------------------------------------------ scheduling
    def _draw_gap(self):
        if self.script is not None:
            return
        r = self.rng('gap')
        self.next_preempt = self.lines + 1 + int(
            r.expovariate(1.0 / self.preempt))

    def line(self):
        """Called for every source line of the code under test."""
        self.lines += 1
        if self.lines > self.max_lines:
            self._abort('line budget')
        if self.lines >= self.crash_at and \
                self.current.group is self.crash_group:
            self.crash_at = float('inf')
            self.crash(self.crash_group)
            raise SimCrash()
        if self.script is None:
            if self.next_preempt is None or self.lines < self.next_preempt:
                return
            if self.nopreempt:
                return
            self._draw_gap()
            me = self.current
            r = self.rng('pre')
            if self.timers and self.timers[0][0] - self.now < 5 and \
                    r.random() < 0.25:
                self.deviations['a@%d' % self.lines] = 1
                self._advance()
            others = [t for t in self.tasks if t.state == 'ready' and
                      t is not me]
            if self.stall_p and r.random() < self.stall_p:
                d = r.choice(self.stall_d)
                self.deviations['s@%d' % self.lines] = d
                self._stall(d)
                return
            if not others:
                return
            t = others[r.randrange(len(others))]
            self.deviations['p@%d' % self.lines] = t.id
            self._preempt_to(t)
        else:
            if self.script.get('a@%d' % self.lines) and self.timers and \
                    not self.nopreempt:
                self.deviations['a@%d' % self.lines] = 1
                self._advance()
            d = self.script.get('s@%d' % self.lines)
            if d is not None and not self.nopreempt:
                self.deviations['s@%d' % self.lines] = d
                self._stall(d)
            d = self.script.get('p@%d' % self.lines)
            if d is not None and not self.nopreempt:
                for t in self.tasks:
                    if t.id == d and t.state == 'ready' and \
                            t is not self.current:
                        self.deviations['p@%d' % self.lines] = d
                        self._preempt_to(t)
                        break

    def _stall(self, d):
        self.fault('stall')
        self.sleep(d * 0.01)

    def _preempt_to(self, t):
        me = self.current
        self._switch(t)
        self._after(me)

    def _switch(self, t):
        me = self.current
        if t is me:
            return
        self.switches += 1
        self.schedhash.update(b'%d.' % t.id)
        self.current = t
        t.baton.release()
        if me.state != 'done':
            me.baton.acquire()

    def _after(self, me):
        if self.aborted:
            raise SimAbort(self.aborted)
        if me.group.crashed:
            raise SimCrash()

    def _abort(self, why):
        if self.aborted is None:
            self.aborted = why
            self.note('ABORT', why)
            self.blocked_info = [
                (t.name, t.state, str(t.on)) for t in self.tasks
                if t.state != 'done']
        raise SimAbort(why)

    def at(self, delay, fn, what=''):
        """Run fn (harness code: a message arrives) at now + delay."""
        self.timer_seq += 1
        heapq.heappush(self.timers, (self.now + delay, self.timer_seq, fn))

    def _next_time(self):
        t = None
        if self.timers:
            t = self.timers[0][0]
        for x in self.tasks:
            if x.state == 'blocked' and x.deadline is not None and \
                    (t is None or x.deadline < t):
                t = x.deadline
        return t

    def _fire_due(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            self.nopreempt += 1
            try:
                fn()
            except Exception as e:
                import traceback
                if self.harness_error is None:
                    self.harness_error = traceback.format_exc()[-2000:]
            finally:
                self.nopreempt -= 1
        for t in self.tasks:
            if t.state == 'blocked' and t.deadline is not None and \
                    t.deadline <= self.now:
                t.state = 'ready'
                t.timed_out = True
                t.deadline = None

    def _maybe_advance(self, p=0.25):
        """Messages may arrive while threads are still computing."""
        if self.timers and self.timers[0][0] - self.now < 5 and \
                self.choose('adv', 2, p=p):
            self._advance()

    def _advance(self):
        was = self.now
        self.now = max(self.now, self.timers[0][0])
        self.computed += self.now - was
        self._fire_due()

    def _pick(self):
        """Next task to run, advancing the clock when nobody is ready."""
        self._maybe_advance()
        while True:
            self._fire_due()
            ready = [t for t in self.tasks if t.state == 'ready']
            if ready:
                if len(ready) == 1:
                    return ready[0]
                return ready[self.choose('sched', len(ready))]
            t = self._next_time()
            if t is None:
                return None
            self.now = max(self.now, t)

    def _reschedule(self, me):
        self.steps += 1
        if self.steps > self.max_steps:
            self._wake_harness('step budget')
            return
        t = self._pick()
        if t is None:
            self._wake_harness('deadlock')
            return
        self._switch(t)

    def _wake_harness(self, why):
        if self.aborted is None:
            self.aborted = why
            self.note('ABORT', why)
            self.blocked_info = [
                (t.name, t.state, str(t.on)) for t in self.tasks
                if t.state != 'done']
        t = self.tasks[0]
        if t is self.current:
            raise SimAbort(why)
        t.state = 'ready'
        self._switch(t)

    def block(self, on=None, timeout=None):
        """Block the current task until wake() or timeout. True if woken."""
        me = self.current
        me.state = 'blocked'
        me.on = on
        me.timed_out = False
        me.deadline = None if timeout is None else self.now + max(timeout, 0)
        self._reschedule(me)
        me.on = None
        self._after(me)
        return not me.timed_out

    def wake(self, t):
        if t.state == 'blocked':
            t.state = 'ready'
            t.timed_out = False
            t.deadline = None

    def yield_point(self, label='y'):
        """An explicit scheduling point (locks, I/O, network)."""
        me = self.current
        if self.aborted:
            raise SimAbort(self.aborted)
        if me.group.crashed:
            raise SimCrash()
        if self.nopreempt:
            return
        if len(self.tasks) == 1:
            return
        self._maybe_advance(0.1)
        others = [t for t in self.tasks if t.state == 'ready' and t is not me]
        if not others:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._abort('step budget')
        i = self.choose('yield', len(others) + 1, p=0.3)
        if i:
            self._switch(others[i - 1])
            self._after(me)

    def sleep(self, d):
        self.block('sleep', timeout=d)

    # ------------------------------------------------------------ tasks
    def me(self):
        return self.by_ident.get(_real_get_ident())

    def spawn(self, fn, args=(), name=None, group=None, daemon=True):
        cur = self.current
        t = Task(len(self.tasks), name or 'task%d' % len(self.tasks),
                 group or cur.group)
        t.daemon = daemon
        self.tasks.append(t)

        def boot():
            t.baton.acquire()
            self.by_ident[_real_get_ident()] = t
            try:
                try:
                    if self.aborted:
                        raise SimAbort(self.aborted)
                    if t.group.crashed:
                        raise SimCrash()
                    t.result = fn(*args)
                except (SimCrash, SimAbort) as e:
                    t.exc = e
                except BaseException as e:
                    t.exc = e
            finally:
                t.state = 'done'
                for j in t.joiners:
                    self.wake(j)
                self.by_ident.pop(_real_get_ident(), None)
                self._exit_switch(t)
        _real_start_new_thread(boot, ())
        return t

    def _exit_switch(self, me):
        # the thread ends: hand the baton over without waiting for it
        try:
            if self.aborted:
                t = self.tasks[0]
                if t.state == 'done':
                    return
                t.state = 'ready'
            else:
                t = self._pick()
                if t is None:
                    self.aborted = 'deadlock'
                    self.note('ABORT', 'deadlock')
                    self.blocked_info = [
                        (x.name, x.state, str(x.on)) for x in self.tasks
                        if x.state != 'done']
                    t = self.tasks[0]
                    if t.state == 'done':
                        return
                    t.state = 'ready'
            self.current = t
            self.schedhash.update(b'%d.' % t.id)
            t.baton.release()
        except BaseException as e:     # never lose the baton
            self.aborted = 'harness: %r' % (e,)
            t = self.tasks[0]
            t.state = 'ready'
            self.current = t
            t.baton.release()

    def join(self, t, timeout=None):
        while t.state != 'done':
            if self.current not in t.joiners:
                t.joiners.append(self.current)
            if not self.block('join ' + t.name, timeout) and \
                    timeout is not None:
                return False
        return True

    def new_group(self, name):
        g = Group(len(self.groups), name)
        self.groups.append(g)
        return g

    def crash(self, group):
        """Kill an incarnation: every task of it unwinds, only durable state
        survives."""
        if group.crashed:
            return
        self.note('CRASH', group.name)
        self.fault('crash')
        group.crashed = True
        for t in self.tasks:
            if t.group is group and t.state == 'blocked':
                t.state = 'ready'
                t.deadline = None

    def incarnation(self, fn, name='proc', crash_line=None):
        """Run fn as a simulated process; returns (status, value).  When it
        ends, its daemon threads vanish with it."""
        g = self.new_group(name)
        if crash_line is not None:
            self.crash_at = self.lines + crash_line
            self.crash_group = g
        t = self.spawn(fn, name=name, group=g)
        self.join(t)
        self.crash_at = float('inf')
        died = g.crashed
        g.crashed = True
        for x in self.tasks:
            if x.group is g and x.state == 'blocked':
                x.state = 'ready'
                x.deadline = None
        for x in list(self.tasks):
            if x.group is g:
                self.join(x)
        if self.aborted:
            raise SimAbort(self.aborted)
        if died:
            return 'crashed', None
        if t.exc is not None:
            if isinstance(t.exc, SimAbort):
                raise t.exc
            return 'raised', t.exc
        return 'ok', t.result

    # ------------------------------------------------------------ run
    def run(self, fn):
        global ACTIVE
        main = Task(0, 'main', self.groups[0])
        self.tasks.append(main)
        self.by_ident[_real_get_ident()] = main
        self.current = main
        ACTIVE = self
        try:
            return fn(self)
        finally:
            ACTIVE = None


# ---------------------------------------------------------------- primitives
def _sim_task():
    s = ACTIVE
    if s is None:
        return None, None
    t = s.by_ident.get(_real_get_ident())
    if t is None:
        return None, None
    return s, t


class SimLock:
    """threading.Lock on the simulator; outside a run a plain flag."""

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s, t = _sim_task()
        if s is None:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError('deadlock outside simulation')
            self._locked = True
            return True
        s.yield_point('lock')
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = s.now + timeout
        while self._locked:
            self._waiters.append(t)
            try:
                left = None if deadline is None else deadline - s.now
                woken = s.block(self, left)
            finally:
                if t in self._waiters:
                    self._waiters.remove(t)
            if self._locked and not woken:
                return False
        self._locked = True
        return True

    def release(self):
        s, t = _sim_task()
        if not self._locked:
            if t is not None and (t.group.crashed or s.aborted):
                return       # unwinding a dead process
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if s is None:
            return
        for w in list(self._waiters):
            s.wake(w)

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __repr__(self):
        return 'lock'

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def _ident(self):
        return _real_get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != self._ident():
            s, t = _sim_task()
            if t is not None and (t.group.crashed or s.aborted):
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == self._ident()

    def _recursion_count(self):
        return self._count if self._owner == self._ident() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def _alloc():
    return SimLock()


def _sim_time():
    s, t = _sim_task()
    return s.now if s is not None else _real_monotonic()


def _sim_walltime():
    s, t = _sim_task()
    return 1.7e9 + s.now if s is not None else _real_time()


def _sim_sleep(d):
    s, t = _sim_task()
    if s is None:
        return _real_sleep(d)
    s.sleep(d)


def _start_new_thread(fn, args, kwargs={}):
    s, t = _sim_task()
    if s is None:
        return _real_start_new_thread(fn, args, kwargs)
    thr = getattr(fn, '__self__', None)
    name = getattr(thr, 'name', None)
    x = s.spawn(fn, args, name=name)
    x.thread = thr
    if thr is not None:
        thr._sim_task = x
    return 0


def _join(self, timeout=None):
    s, t = _sim_task()
    x = getattr(self, '_sim_task', None)
    if s is None or x is None:
        return _orig_join(self, timeout)
    s.join(x, timeout)


def _is_alive(self):
    x = getattr(self, '_sim_task', None)
    if x is None:
        return _orig_is_alive(self)
    return x.state != 'done'


def _set_tstate_lock(self):
    # the real sentinel is released by the interpreter when the thread ends;
    # joins are simulated, so only keep the attribute
    s, t = _sim_task()
    if s is None:
        return _orig_set_tstate(self)
    self._tstate_lock = None


_orig_set_tstate = getattr(threading.Thread, '_set_tstate_lock', None)
_installed = False


def install():
    """Replace the sources of nondeterminism.  Must run before the code under
    test is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    assert 'ncdiff' not in sys.modules and 'ncclient' not in sys.modules
    import logging
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    threading._allocate_lock = _alloc
    threading.Lock = _alloc
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    if _orig_set_tstate is not None:
        threading.Thread._set_tstate_lock = _set_tstate_lock
    threading._time = _sim_time
    # thread failures are part of the behaviour under test, not console noise
    threading.excepthook = lambda args: _thread_died(args)
    _queue_mod.time = _sim_time
    _queue_mod.SimpleQueue = _queue_mod._PySimpleQueue
    _time_mod.monotonic = _sim_time
    _time_mod.time = _sim_walltime
    _time_mod.sleep = _sim_sleep
    import uuid
    orig_uuid4 = uuid.uuid4

    def sim_uuid4():
        s, t = _sim_task()
        if s is None:
            return orig_uuid4()
        s.uuid += 1
        return uuid.UUID(int=s.uuid)
    uuid.uuid4 = sim_uuid4


def _thread_died(args):
    s = ACTIVE
    if s is not None and not issubclass(args.exc_type, (SimCrash, SimAbort)):
        s.note('thread died', getattr(args.thread, 'name', '?'),
               args.exc_type.__name__)
        import os
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            s.note(''.join(traceback.format_exception(args.exc_value)))


# ---------------------------------------------------------------- preemption
_TOOL = 4
_codes = {}


def _walk_code(co, out):
    if co in out:
        return
    out.add(co)
    for c in co.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, out)


def instrument(modules):
    """Make every source line of the given modules a preemption point."""
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, 'dst')

    def on_line(code, line):
        s = ACTIVE
        if s is None:
            return
        if s.current is not s.by_ident.get(_real_get_ident()):
            return
        s.line()

    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    codes = set()
    for m in modules:
        for v in list(vars(m).values()):
            _collect(v, m.__name__, codes)
    for co in codes:
        mon.set_local_events(_TOOL, co, mon.events.LINE)
    return len(codes)


def _collect(v, modname, codes):
    if isinstance(v, types.FunctionType):
        if v.__module__ == modname:
            _walk_code(v.__code__, codes)
    elif isinstance(v, type):
        if v.__module__ == modname:
            for x in list(vars(v).values()):
                if isinstance(x, (staticmethod, classmethod)):
                    x = x.__func__
                if isinstance(x, property):
                    for f in (x.fget, x.fset, x.fdel):
                        if f is not None:
                            _collect(f, modname, codes)
                elif isinstance(x, types.FunctionType):
                    _walk_code(x.__code__, codes)
                elif isinstance(x, type):
                    _collect(x, modname, codes)
                elif hasattr(x, '__wrapped__'):
                    _collect(x.__wrapped__, modname, codes)
