"""
Deterministic simulator: real OS threads run one at a time under a
cooperative scheduler, in virtual time.

Importing this module patches the process.  It must be imported before
asyncio, concurrent.futures, queue and logging (run.py does that).  Outside a
simulation (i.e. in a thread that the active Sim does not own) every patched
primitive behaves like the original one as far as a single threaded process
can tell.
"""
import _thread
import gc
import operator
import os
import sys
import time as _time_mod
import threading
import errno as _errno
import warnings

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident
_real_time = _time_mod.time
_real_mono = _time_mod.monotonic
_real_perf = _time_mod.perf_counter
_real_sleep = _time_mod.sleep
_real_time_ns = _time_mod.time_ns
_real_mono_ns = _time_mod.monotonic_ns

for _m in ('asyncio', 'concurrent.futures', 'queue', 'logging'):
    assert _m not in sys.modules, f'{_m} imported before vf.sim'

EPOCH = 1_000_000_000.0

NEW, RUNNABLE, BLOCKED, FINISHED = 'new', 'runnable', 'blocked', 'finished'

_threads = {}  # OS ident -> SimThread of a live simulation


class SimAbort(BaseException):
    """Unwinds a simulated thread after the end of its simulation."""


class HarnessError(Exception):
    """The machinery (not the code under test) is at fault."""


def me():
    return _threads.get(_get_ident())


class Blocked(BaseException):
    """A solo history would block forever."""


class Solo:
    """
    Lets one OS thread act as several logical ones, one operation at a time,
    in virtual time: for sequential histories, where nothing can ever wake a
    blocked thread.
    """
    aborting = fine = False
    spin = 0
    jumps = ()

    def __init__(self):
        self.sim = self            # is its own thread object
        self.now = 0.0
        self.faults = None
        self.flock_waiters = []
        self.logical = 1

    def yp(self, t):
        pass

    def wake(self, t):
        pass

    def block(self, t, deadline=None, what=None):
        if deadline is None:
            raise Blocked(what)
        self.now = max(self.now, deadline)
        return False

    def sleep(self, t, d):
        self.now += max(d, 1e-6)
        if self.now > 1e6:
            raise Blocked('polls forever')

    def __enter__(self):
        global _solo
        _threads[_get_ident()] = self
        _solo = self
        return self

    def __exit__(self, *a):
        global _solo
        _solo = None
        del _threads[_get_ident()]


_solo = None


def _v_ident():
    return _get_ident() if _solo is None else 10 ** 9 + _solo.logical


_pri = operator.attrgetter('pri')


# of the threads in the order of their creation, for enumerations
PRIORITIES = ([0, 1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1, 0],
              [3, 0, 2, 1, 4], [0, 5, 1, 4])


class SimThread:
    __slots__ = ('sim', 'id', 'name', 'sem', 'state', 'deadline', 'woken',
                 'what', 'fn', 'root', 'sentinel', 'ident', 'exc', 'abort',
                 'abort_hits', 'abort_steps', 'spin', 'quantum', 'started',
                 'result', 'pri')

    def __init__(self, sim, id_, name, fn, root):
        self.sim = sim
        self.id = id_
        self.name = name
        self.pri = 0
        self.sem = _real_alloc()
        self.sem.acquire()
        self.state = RUNNABLE
        self.deadline = None
        self.woken = False
        self.what = None
        self.fn = fn
        self.root = root
        self.sentinel = None
        self.ident = None
        self.exc = None
        self.abort = False
        self.abort_hits = 0
        self.abort_steps = 0
        self.spin = 0
        self.quantum = 0
        self.started = False
        self.result = None

    def __repr__(self):
        return f'<{self.name} {self.state} {self.what!r}>'


class Outcome:
    def __init__(self, kind, detail=''):
        self.kind = kind        # ok | deadlock | livelock | vtime
        self.detail = detail

    def __repr__(self):
        return f'Outcome({self.kind}, {self.detail})'


class Sim:
    """
    One simulation.

    sched: {'p': [[gap, target], ...], 'b': [choice, ...], 'q': quantum}
      p: after `gap` further contended switch points (points at which another
         thread could run) switch to the (target mod n)-th other runnable one
      b: consumed whenever the running thread blocks and there is a choice
      q: if > 0, additionally rotate after every q contended points
      r: if not empty, the thread to run is instead always the runnable one of
         the highest priority: `r` gives those of the threads in the order of
         their creation, and `gap` is then the distance to a point at which the
         running thread's becomes the lowest (probabilistic concurrency
         testing)
      f: if true, there are switch points within lines as well: before and
         after every call
    """

    jumps = ()

    def __init__(self, sched=None, max_steps=150_000, max_time=1e7,
                 fair=500, wall=600):
        sched = sched or {}
        self.pre = [(int(a), int(b)) for a, b in sched.get('p', ())]
        self.pre_i = 0
        self.pre_left = self.pre[0][0] if self.pre else -1
        self.blk = [int(x) for x in sched.get('b', ())]
        self.blk_i = 0
        self.q = sched.get('q', 0)
        self.fine = bool(sched.get('f'))
        self.pri = [int(x) for x in sched.get('r', ())]
        self.low = 0
        self.fair = fair
        self.max_steps = max_steps
        self.max_time = max_time
        self.wall = wall
        self.now = 0.0
        self.steps = 0          # all switch points
        self.cpoints = 0        # contended ones
        self.switches = 0
        self.preempted = 0
        self.threads = []
        self.cur = None
        self.nrun = 0           # number of RUNNABLE threads
        self.roots_left = 0
        self.outcome = None
        self.aborting = False
        self.ctl = _real_alloc()
        self.ctl.acquire()
        self.log = []
        self.flock_waiters = []
        self.faults = None      # callable(name, args) -> None | raises
        self.loops = []
        self.loop_errors = []
        self.hooks = {}
        self.spawned = 0
        self.inst = 0           # steps since time last advanced

    # -- thread management -------------------------------------------------
    def spawn(self, fn, name=None, root=False):
        if self.aborting:
            raise SimAbort
        t = SimThread(self, len(self.threads), name, fn, root)
        if name is None:
            t.name = f'helper-{t.id}'
        if self.pri:
            t.pri = self.pri[t.id % len(self.pri)]
        self.threads.append(t)
        self.nrun += 1
        if root:
            self.roots_left += 1
        else:
            self.spawned += 1
        _real_start(self._bootstrap, (t,))
        return t

    def _bootstrap(self, t):
        t.sem.acquire()
        t.ident = _get_ident()
        _threads[t.ident] = t
        try:
            if not t.abort:
                t.started = True
                try:
                    t.result = t.fn()
                except SimAbort:
                    pass
                except BaseException as e:  # noqa
                    t.exc = e
        finally:
            t.fn = None
            self._finish(t)

    def _finish(self, t):
        s = t.sentinel
        if s is not None and s._locked:
            try:
                s.release()
            except BaseException:  # noqa
                pass
        if not self.aborting:
            # release() above may have switched; we hold the baton again
            if t.state == RUNNABLE:
                self.nrun -= 1
            t.state = FINISHED
            _threads.pop(t.ident, None)
            threading._active.pop(t.ident, None)
            if t.root:
                self.roots_left -= 1
                if self.roots_left == 0:
                    self.outcome = Outcome('ok')
                    self.ctl.release()
                    return
            nxt = self._choose(t)
            if nxt is None:
                self.ctl.release()
                return
            self.cur = nxt
            nxt.sem.release()
        else:
            t.state = FINISHED
            _threads.pop(t.ident, None)
            threading._active.pop(t.ident, None)
            self.ctl.release()

    # -- scheduling --------------------------------------------------------
    def _others(self, t):
        th = self.threads
        i = t.id + 1
        return [x for x in th[i:] if x.state is RUNNABLE] + \
               [x for x in th[:t.id] if x.state is RUNNABLE]

    def _choose(self, t):
        """Next thread to run when t cannot continue; None = sim ended."""
        while True:
            if self.nrun:
                c = self._others(t)
                if t.state is RUNNABLE:
                    c.append(t)
                if len(c) > 1:
                    if self.pri:
                        return max(c, key=_pri)
                    if self.blk_i < len(self.blk):
                        k = self.blk[self.blk_i]
                        self.blk_i += 1
                        return c[k % len(c)]
                return c[0]
            if self.flock_waiters and _probe_flock(self):
                continue
            dl = None
            for x in self.threads:
                if x.state is BLOCKED and x.deadline is not None:
                    if dl is None or x.deadline < dl:
                        dl = x.deadline
            if dl is None:
                self.outcome = Outcome('deadlock', self.describe())
                return None
            if dl > self.max_time:
                self.outcome = Outcome('vtime', self.describe())
                return None
            if dl > self.now:
                self.now = dl
                self.inst = 0
            for x in self.threads:
                if (x.state is BLOCKED and x.deadline is not None
                        and x.deadline <= self.now):
                    x.state = RUNNABLE
                    x.deadline = None
                    x.woken = False
                    self.nrun += 1

    def describe(self):
        return '; '.join(
            f'{x.name}: {x.state} {x.what!r}'
            + (f' until {x.deadline}' if x.deadline is not None else '')
            for x in self.threads if x.state is not FINISHED
        ) + f' @t={self.now}'

    def _park(self, t):
        """The simulation is over; hand control back to the controller."""
        self.ctl.release()
        t.sem.acquire()
        if t.abort:
            raise SimAbort
        raise HarnessError('parked thread resumed without abort')

    def _handoff(self, t, nxt):
        self.switches += 1
        self.cur = nxt
        t.quantum = 0
        nxt.quantum = 0
        nxt.sem.release()
        t.sem.acquire()
        if t.abort:
            raise SimAbort

    def _dead_thread(self, t):
        """In abort mode and not unwinding: give up on this thread."""
        self.ctl.release()
        while True:
            t.sem.acquire()

    def block(self, t, deadline=None, what=None):
        """Block the running thread t. True if woken, False on timeout."""
        if self.aborting:
            t.abort_hits += 1
            if t.abort_hits > 40:
                self._dead_thread(t)
            raise SimAbort
        t.state = BLOCKED
        self.nrun -= 1
        t.deadline = deadline
        t.woken = False
        t.what = what
        nxt = self._choose(t)
        if nxt is None:
            self._park(t)
        if nxt is not t:
            self._handoff(t, nxt)
        t.what = None
        return t.woken

    def wake(self, t):
        if t.state is BLOCKED:
            t.state = RUNNABLE
            t.deadline = None
            t.woken = True
            self.nrun += 1

    def yp(self, t):
        """A switch point of the running thread t."""
        if self.aborting:
            t.abort_steps += 1
            if t.abort_steps > 3000:
                t.abort_hits += 1
                if t.abort_hits > 40:
                    self._dead_thread(t)
                t.abort_steps = 2900
                raise SimAbort
            return
        self.steps += 1
        self.inst += 1
        if self.inst > self.max_steps:
            self.outcome = Outcome(
                'livelock', f'{self.inst} steps without progress of time; '
                f'running {t.name}; ' + self.describe())
            self._park(t)
        if self.nrun < 2:
            return
        self.cpoints += 1
        t.quantum += 1
        nxt = None
        if self.pre_left == 0:
            tgt = self.pre[self.pre_i][1]
            self.pre_i += 1
            self.pre_left = (self.pre[self.pre_i][0]
                             if self.pre_i < len(self.pre) else -1)
            o = self._others(t)
            nxt = o[tgt % len(o)]
            self.preempted += 1
            if self.pri:
                self.low -= 1
                t.pri = self.low
                nxt = max(o, key=_pri)
        else:
            if self.pre_left > 0:
                self.pre_left -= 1
            if self.pri:
                if t.quantum > self.fair:
                    self.low -= 1
                    t.pri = self.low
                nxt = max(self._others(t), key=_pri)
                if nxt.pri <= t.pri:
                    nxt = None
            elif (self.q and t.quantum >= self.q) or t.quantum > self.fair:
                nxt = self._others(t)[0]
        if nxt is not None and nxt is not t:
            self._handoff(t, nxt)

    def sleep(self, t, d):
        if self.aborting:
            t.abort_hits += 1
            if t.abort_hits > 40:
                self._dead_thread(t)
            raise SimAbort
        if d <= 0:
            # spin-wait idiom: let everybody else run first, then time
            t.spin += 1
            d = 1e-6 * (1 << (min(t.spin, 12) if t.spin < 5000 else
                              min(12 + (t.spin - 5000) // 100, 22)))
        else:
            t.spin = 0
        self.block(t, self.now + d, ('sleep', d))

    # -- running -----------------------------------------------------------
    def run(self, roots):
        """roots: list of (name, fn). Returns Outcome."""
        gc.disable()
        for name, fn in roots:
            self.spawn(fn, name, root=True)
        first = self.threads[0]
        if self.blk and len(self.threads) > 1:
            first = self.threads[self.blk[0] % len(self.threads)]
            self.blk_i = 1
        self.cur = first
        first.sem.release()
        if not self.ctl.acquire(True, self.wall):
            raise HarnessError('simulation hung in real time: '
                               + self.describe())
        out = self.outcome
        # Cleanup: unwind everything that is still there
        self.aborting = True
        for t in list(self.threads):
            if t.state is not FINISHED:
                t.abort = True
                t.sem.release()
                if not self.ctl.acquire(True, 60):
                    raise HarnessError(f'cannot unwind {t!r}')
                _threads.pop(t.ident, None)
        for lp in self.loops:
            lp._vwaiter = None
        return out

    def root_errors(self):
        return [(t.name, t.exc) for t in self.threads
                if t.root and t.exc is not None]


# ---------------------------------------------------------------------------
# primitives
# ---------------------------------------------------------------------------

class SimLock:
    __slots__ = ('_locked', '_waiters', '__weakref__')

    def __init__(self):
        self._locked = False
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1):
        t = _threads.get(_get_ident())
        if t is None:
            if not self._locked:
                self._locked = True
                return True
            if not blocking:
                return False
            raise HarnessError('SimLock contended outside a simulation')
        if timeout != -1:
            if not blocking:
                raise ValueError(
                    "can't specify a timeout for a non-blocking call")
            if timeout < 0:
                raise ValueError('timeout value must be a non-negative number')
        sim = t.sim
        sim.yp(t)
        if not self._locked:
            self._locked = True
            return True
        if not blocking or timeout == 0:
            return False
        if sim.aborting:
            sim.block(t)
        deadline = None if timeout == -1 else sim.now + timeout
        while self._locked:
            if self._waiters is None:
                self._waiters = [t]
            else:
                self._waiters.append(t)
            try:
                ok = sim.block(t, deadline, 'lock')
            finally:
                try:
                    self._waiters.remove(t)
                except ValueError:
                    pass
            if not ok:
                return False
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            t = _threads.get(_get_ident())
            if t is not None and t.sim.aborting:
                return
            raise RuntimeError('release unlocked lock')
        self._locked = False
        w = self._waiters
        if w:
            for x in w:
                x.sim.wake(x)
        t = _threads.get(_get_ident())
        if t is not None:
            t.sim.yp(t)

    release_lock = release

    def locked(self):
        return self._locked

    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = None

    def __repr__(self):
        return f'<SimLock {"locked" if self._locked else "unlocked"}>'


def _sim_start(fn, args=(), kwargs=None):
    t = me()
    if t is None:
        return _real_start(fn, args, kwargs or {})
    sim = t.sim
    nt = sim.spawn(lambda: fn(*args, **(kwargs or {})))
    sim.yp(t)
    return nt.id


def _sim_sentinel():
    t = me()
    lock = SimLock()
    if t is not None:
        t.sentinel = lock
    return lock


def _wall(sim):
    """The wall clock, which jumps (`jumps` is [(ms, by ms), ...])."""
    return EPOCH + sim.now + sum(
        d / 1000 for at, d in sim.jumps if at / 1000 <= sim.now)


def _v_time():
    t = _threads.get(_get_ident())
    return _real_time() if t is None else _wall(t.sim)


def _v_mono():
    t = _threads.get(_get_ident())
    return _real_mono() if t is None else t.sim.now


def _v_perf():
    t = _threads.get(_get_ident())
    return _real_perf() if t is None else t.sim.now


def _v_time_ns():
    t = _threads.get(_get_ident())
    return _real_time_ns() if t is None else int(_wall(t.sim) * 1e9)


def _v_mono_ns():
    t = _threads.get(_get_ident())
    return _real_mono_ns() if t is None else int(t.sim.now * 1e9)


def _v_sleep(d):
    t = _threads.get(_get_ident())
    if t is None:
        return _real_sleep(d)
    if d < 0:
        raise ValueError('sleep length must be non-negative')
    t.sim.sleep(t, d)


_thread.allocate_lock = SimLock
_thread.allocate = SimLock
_thread.start_new_thread = _sim_start
_thread.start_new = _sim_start
threading.Lock = SimLock
threading._allocate_lock = SimLock
threading._CRLock = None
threading._start_new_thread = _sim_start
threading._set_sentinel = _sim_sentinel
threading._time = _v_mono
threading.get_ident = _v_ident
_thread.get_ident = _v_ident
_time_mod.time = _v_time
_time_mod.monotonic = _v_mono
_time_mod.perf_counter = _v_perf
_time_mod.sleep = _v_sleep
_time_mod.time_ns = _v_time_ns
_time_mod.monotonic_ns = _v_mono_ns

import queue  # noqa: E402
queue.SimpleQueue = queue._PySimpleQueue
queue.time = _v_mono

import logging  # noqa: E402
logging.getLogger().addHandler(logging.NullHandler())
logging.Logger.isEnabledFor = lambda self, level: False
logging.raiseExceptions = False

import concurrent.futures  # noqa: E402
import concurrent.futures.thread  # noqa: E402
import asyncio  # noqa: E402
import asyncio.base_events  # noqa: E402
import asyncio.events  # noqa: E402

warnings.simplefilter('ignore')
sys.unraisablehook = lambda *a: None
threading.excepthook = lambda *a: None


# ---------------------------------------------------------------------------
# event loop
# ---------------------------------------------------------------------------

class _VSelector:
    __slots__ = ('loop',)

    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        t = _threads.get(_get_ident())
        if t is None:
            if loop._vwake or (timeout is not None and timeout <= 0):
                loop._vwake = False
                return ()
            raise HarnessError('blocking select outside a simulation')
        sim = t.sim
        sim.yp(t)
        if loop._vwake:
            loop._vwake = False
            return ()
        if timeout is not None and timeout <= 0:
            return ()
        loop._vwaiter = t
        try:
            sim.block(t, None if timeout is None else sim.now + timeout,
                      ('select', loop.vname))
        finally:
            loop._vwaiter = None
            loop._vwake = False
        return ()

    def close(self):
        pass


class VLoop(asyncio.BaseEventLoop):
    """Event loop on the simulator's clock and scheduler."""

    #: how long it takes until a loop which is to run is running
    drag = 0

    def __init__(self):
        super().__init__()
        self._selector = _VSelector(self)
        self._vwake = False
        self._vwaiter = None
        self.epoch = 0            # number of run_forever() begun
        self.stops = []           # virtual times at which a run ended
        t = me()
        self._sim = t.sim if t is not None else None
        self.vname = 'loop?'
        self._vtasks = 0
        self._vtask_no = {}
        if self._sim is not None:
            self._sim.loops.append(self)
            self.vname = f'loop{len(self._sim.loops)}'
        self.set_exception_handler(self._on_error)

    def _on_error(self, loop, ctx):
        if self._sim is not None:
            self._sim.loop_errors.append(
                (ctx.get('message'), repr(ctx.get('exception'))))

    def __repr__(self):
        return f'<VLoop {self.vname}>'

    def time(self):
        return self._sim.now if self._sim is not None else _v_mono()

    def _process_events(self, ev):
        pass

    def _write_to_self(self):
        self._vwake = True
        w = self._vwaiter
        if w is not None:
            w.sim.wake(w)

    def call_soon(self, callback, *args, context=None):
        s = getattr(callback, '__self__', None)
        if s is not None and isinstance(s, asyncio.Task) \
                and s not in self._vtask_no:
            self._vtasks += 1
            self._vtask_no[s] = self._vtasks
        return super().call_soon(callback, *args, context=context)

    def call_soon_threadsafe(self, callback, *args, context=None):
        t = me()
        if t is not None:
            t.sim.yp(t)
        h = super().call_soon_threadsafe(callback, *args, context=context)
        if t is not None:
            t.sim.yp(t)
        return h

    def run_forever(self):
        t = me()
        if t is not None:
            t.sim.yp(t)
        if self.drag and not self.is_running() and not self.is_closed():
            _v_sleep(self.drag)
        if not self.is_running() and not self.is_closed():
            self.epoch += 1
            fresh = True
        else:
            fresh = False
        try:
            super().run_forever()
        finally:
            if fresh and self._sim is not None:
                self.stops.append(self._sim.now)
                h = self._sim.hooks.get('loop_stopped')
                if h is not None:
                    h(self)
            if t is not None:
                t.sim.yp(t)

    def close(self):
        t = me()
        if t is not None and not self.is_closed():
            t.sim.yp(t)
        super().close()
        self._vtask_no.clear()
        if t is not None:
            t.sim.yp(t)

    def __del__(self, _warn=None):
        pass


_orig_all_tasks = asyncio.tasks.all_tasks


def _ordered_all_tasks(loop=None):
    """all_tasks() in creation order (the original is ordered by address)."""
    if loop is None:
        loop = asyncio.get_running_loop()
    tasks = _orig_all_tasks(loop)
    no = getattr(loop, '_vtask_no', None)
    if no is None:
        return tasks
    return sorted(tasks, key=lambda t: no.get(t, 0))


asyncio.tasks.all_tasks = _ordered_all_tasks
asyncio.all_tasks = _ordered_all_tasks


class _VPolicy(asyncio.events.BaseDefaultEventLoopPolicy):
    _loop_factory = VLoop


asyncio.set_event_loop_policy(_VPolicy())


# ---------------------------------------------------------------------------
# operating system calls of the file lock
# ---------------------------------------------------------------------------
import fcntl as _fcntl  # noqa: E402

_real_flock = _fcntl.flock
_real_lockf = _fcntl.lockf
_real_open = os.open
_real_close = os.close


def _wake_flock(sim):
    for w in sim.flock_waiters:
        sim.wake(w[0])


def _probe_flock(sim):
    """
    Wake waiters whose lock is free: a file can be closed (and unlocked) in
    ways which are not seen here.
    """
    hit = False
    for t, real, fd, op in sim.flock_waiters:
        if t.state is not BLOCKED:
            continue
        try:
            real(fd, op | _fcntl.LOCK_NB)
        except BlockingIOError:
            continue
        except OSError:
            pass                    # it is told so when it tries
        else:
            real(fd, _fcntl.LOCK_UN)
        sim.wake(t)
        hit = True
    return hit


def _mk_lock(real, name):
    def locker(fd, op, *a):
        t = me()
        if t is None:
            return real(fd, op, *a)
        sim = t.sim
        sim.yp(t)
        if op & _fcntl.LOCK_UN:
            if sim.faults is not None:
                sim.faults('unlock', (fd, op))
            r = real(fd, op, *a)
            _wake_flock(sim)
            sim.yp(t)
            return r
        if sim.faults is not None:
            sim.faults('lock', (fd, op))
        block = not op & _fcntl.LOCK_NB
        while True:
            try:
                r = real(fd, op | _fcntl.LOCK_NB, *a)
                break
            except BlockingIOError:
                if not block:
                    raise
            except OSError as e:
                if e.errno != _errno.EACCES or not block:
                    raise
            w = (t, real, fd, op)
            sim.flock_waiters.append(w)
            try:
                sim.block(t, None, ('flock', fd))
            finally:
                sim.flock_waiters.remove(w)
        sim.yp(t)
        return r
    return locker


def _v_open(path, flags, *a, **k):
    t = me()
    if t is None:
        return _real_open(path, flags, *a, **k)
    t.sim.yp(t)
    if t.sim.faults is not None:
        t.sim.faults('open', (path, flags))
    r = _real_open(path, flags, *a, **k)
    t.sim.yp(t)
    return r


def _v_close(fd):
    t = me()
    if t is None:
        return _real_close(fd)
    t.sim.yp(t)
    try:
        r = _real_close(fd)
    finally:
        _wake_flock(t.sim)
    if t.sim.faults is not None:
        t.sim.faults('close', (fd,))
    t.sim.yp(t)
    return r


_fcntl.flock = _mk_lock(_real_flock, 'flock')
_fcntl.lockf = _mk_lock(_real_lockf, 'lockf')
os.open = _v_open
os.close = _v_close


# ---------------------------------------------------------------------------
# line events
# ---------------------------------------------------------------------------
_TOOL = 3
sys.monitoring.use_tool_id(_TOOL, 'vf-sim')
_instrumented = set()
line_count = [0]


def _on_line(code, line):
    t = _threads.get(_get_ident())
    if t is not None:
        t.sim.yp(t)


def _on_call(code, offset, callee, arg):
    t = _threads.get(_get_ident())
    if t is not None and t.sim.fine:
        t.sim.yp(t)


_E = sys.monitoring.events
_MON = _E.LINE | _E.CALL
sys.monitoring.register_callback(_TOOL, _E.LINE, _on_line)
# CPython may switch threads after any call as well
for _e in (_E.CALL, _E.C_RETURN, _E.C_RAISE):
    sys.monitoring.register_callback(_TOOL, _e, _on_call)


def instrument(code):
    """Make every line of a code object and of those nested a switch point."""
    if code in _instrumented:
        return
    _instrumented.add(code)
    sys.monitoring.set_local_events(_TOOL, code, _MON)
    for c in code.co_consts:
        if hasattr(c, 'co_code'):
            instrument(c)
