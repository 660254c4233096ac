"""
FileLock under generated histories.  Shared by C02 and C12.

Sequential histories (Machine): every operation of every logical thread in a
fixed order against a reference model.  Run solo (one OS thread) for speed; a
failure only counts if it also happens with real threads under the simulator.

case = {'re': 0|1, 'objs': [[default timeout index, path kind], ...],
        'ops': [[thread, object, what, form], ...],
        'faults': [[where, index, error], ...]}
what: 0 acquire, 1 release, 2 release(force=True), 3 enter acquire_ctx,
      4 leave the innermost context of that thread and object (form: the
      exception it is left by), 5 enter `with`

Concurrent histories (Conc): threads under the simulator.
case = {'re', 'objs', 'threads': [[round, ...], ...], 'sched'}
round = [gap ms, object, how, form, hold ms, nested, release]
"""
import errno
import os
import tempfile
import pathlib

from hypothesis import strategies as st

from . import sim as S
from . import target
from .lockforms import DEFAULTS, EPS, FORMS, POLL, params
from .engine import Violation, sched as sched_strategy

ERRORS = [
    lambda: OSError(errno.EIO, 'injected'),
    lambda: PermissionError(errno.EACCES, 'injected'),
    lambda: InterruptedError(errno.EINTR, 'injected'),
    lambda: BlockingIOError(errno.EAGAIN, 'injected'),
    lambda: FileNotFoundError(errno.ENOENT, 'injected'),
    lambda: OSError(errno.ENOLCK, 'injected'),
    lambda: KeyboardInterrupt('injected'),
]
_dir = None


def fresh_path():
    """A new lock file name (and aliases for it) in this worker's directory."""
    global _dir
    if _dir is None or not os.path.isdir(_dir):
        base = os.environ.get('VF_WORK')
        _dir = tempfile.mkdtemp(prefix='locks-', dir=base
                                if base and os.path.isdir(base) else None)
        os.mkdir(os.path.join(_dir, 'sub'))
        os.symlink(_dir, os.path.join(_dir, 'alias'))
    p = os.path.join(_dir, 'lock')
    if os.path.lexists(p):
        os.unlink(p)
    return p


def spelled(p, kind):
    d, n = os.path.split(p)
    k = kind % 6
    if k == 1:
        return pathlib.Path(p)
    if k == 2:
        return os.path.relpath(p)
    if k == 3:
        return os.path.join(d, 'alias', n)
    if k == 4:
        return os.path.join(d, 'sub', '..', n)
    if k == 5:
        return d + '//./' + n
    return p


def nfds():
    return len(os.listdir('/proc/self/fd'))


def busy(path):
    """Is the kernel lock of the file taken (as seen by anybody else)?"""
    try:
        fd = S._real_open(path, os.O_RDWR)
    except FileNotFoundError:
        return False
    try:
        try:
            S._real_flock(fd, S._fcntl.LOCK_EX | S._fcntl.LOCK_NB)
        except BlockingIOError:
            return True
        return False
    finally:
        S._real_close(fd)


def make(m, path, case):
    return [m.FileLock(spelled(path, kind), **(
        {} if not case['re'] and DEFAULTS[d % 3] == -1 else
        {'timeout': DEFAULTS[d % 3], 'reentrant': bool(case['re'])}))
        for d, kind in case['objs']]


def late(mode, T, poll, took, ok):
    """Complaint about the time an acquire took, or None."""
    if mode == 'nb' and took > 1e-9:
        return f'a non-blocking acquire took {took:.4f} s'
    if mode in ('timed', 'lax'):
        if took > 2 * T + poll + EPS:
            return (f'an acquire with timeout {T} and poll interval {poll} '
                    f'took {took:.4f} s')
        if mode == 'timed' and not ok and took < T - EPS:
            return (f'an acquire with timeout {T} gave up after '
                    f'{took:.4f} s')
    return None


LEAVING = [None, None, ValueError, TimeoutError, KeyboardInterrupt,
           GeneratorExit, OSError]


def leave_ctx(cm, kind):
    """
    Leave a with-block, normally or by an exception.  Whether that
    exception would go on.
    """
    E = LEAVING[kind % len(LEAVING)]
    if E is None:
        cm.__exit__(None, None, None)
        return True
    try:
        raise E('from inside the block')
    except E as e:
        exc = e
    try:
        return not cm.__exit__(E, exc, exc.__traceback__)
    except E as e:
        if e is not exc:
            raise
        return True


class Machine:
    """Executes operations against the code and the model."""

    def __init__(self, case, m, sim, path):
        self.case = case
        self.sim = sim
        self.m = m
        self.path = path
        self.saved = None
        if case.get('low'):
            # descriptor 0 is free: the lock file may well get it
            self.saved = os.dup(0)
            S._real_close(0)
        self.base = nfds()
        self.objs = make(m, path, case)
        self.n = len(self.objs)
        self.owner = [None] * self.n
        self.depth = [0] * self.n
        self.ctxs = []           # [thread, object, context manager]
        self.counts = {}
        self.fired = 0
        self.nops = 0
        self.faults = {(w, i): e for w, i, e in case.get('faults', ())}
        self.nofault = False
        sim.faults = self.fault if self.faults else None
        sim.jumps = case.get('jumps', ())
        self.classes = set()

    def dispose(self):
        self.sim.faults = None
        self.nofault = True
        for lock in self.objs:
            fd = getattr(lock, '_lock_file_fd', None)
            if type(fd) is int:
                try:
                    S._real_close(fd)
                except OSError:
                    pass
                lock._lock_file_fd = None
        if self.saved is not None:
            os.dup2(self.saved, 0)
            S._real_close(self.saved)
            self.saved = None

    def fault(self, name, args):
        if self.nofault:
            return
        i = self.counts.get(name, 0)
        self.counts[name] = i + 1
        e = self.faults.get((name, i))
        if e is not None:
            self.fired += 1
            self.classes.add('fault in ' + name)
            e = e % len(ERRORS)
            if e == 6 and name != 'lock':
                e = 0
            raise ERRORS[e]()

    def can(self, o, t):
        """Would an acquire succeed?  (None: it needs nothing at all)"""
        if self.owner[o] is not None:
            return bool(self.case['re']) and self.owner[o] == t
        return all(w is None for w in self.owner)

    def bad(self, msg):
        raise Violation(f'operation {self.nops}: {msg}')

    def acquire(self, t, o, form, how):
        lock = self.objs[o]
        a, k, mode, T, poll = params(form, DEFAULTS[
            self.case['objs'][o][0] % 3])
        if how == 'with':
            a, k = (), {}
            d = DEFAULTS[self.case['objs'][o][0] % 3]
            mode, T, poll = ('block', None, POLL) if d < 0 else \
                ('timed', d, POLL)
        can = self.can(o, t)
        if not can and mode == 'block':
            return                    # would wait for itself
        self.nops += 1
        what = f'{how}({a}, {k}) of object {o} by thread {t}'
        t0 = self.sim.now
        f0 = self.fired
        err = None
        cm = None
        try:
            if how == 'acquire':
                ok = lock.acquire(*a, **k)
                if ok is not True and ok is not False:
                    self.bad(f'{what} returned {ok!r}')
            else:
                cm = lock if how == 'with' else lock.acquire_ctx(*a, **k)
                x = cm.__enter__()
                if how == 'with' and x is not lock:
                    self.bad(f'{what} gave {x!r}')
                ok = True
        except TimeoutError as e:
            if how == 'acquire':
                err = e
            ok = False
        except S.Blocked as e:
            self.bad(f'{what} blocks forever ({e})')
        except (OSError, KeyboardInterrupt) as e:
            err = e
            ok = False
        took = self.sim.now - t0
        if self.fired == f0:
            if err is not None:
                self.bad(f'{what} raised {err!r}')
            if ok != can:
                self.bad(f'{what} gave {ok}; the model says {can} '
                         f'(holders {self.owner})')
        elif ok and not can:
            self.bad(f'{what} succeeded; holders {self.owner}')
        e = late(mode if self.fired == f0 or mode == 'nb' else 'lax',
                 T or 0, poll, took, ok) if mode != 'block' else None
        if e:
            self.bad(f'{what}: {e}')
        if can and self.fired == f0 and took > EPS:
            self.bad(f'{what} took {took:.4f} s although it was free')
        if ok:
            self.owner[o] = t
            self.depth[o] += 1
            if how != 'acquire':
                self.ctxs.append([t, o, cm])
        self.classes.add(f'{how} {"succeeds" if ok else "fails"}')
        if self.depth[o] > 1:
            self.classes.add('nested')

    def released(self, o, full):
        if full:
            self.depth[o] = 0
        elif self.depth[o]:
            self.depth[o] -= 1
        if not self.depth[o]:
            self.owner[o] = None

    def release(self, t, o, force, cm=None, kind=0):
        lock = self.objs[o]
        if self.owner[o] not in (None, t):
            return False              # not by the acquiring thread
        self.nops += 1
        what = f'release({"force" if force else ""}) of object {o} by ' \
               f'thread {t}'
        self.classes.add('forced release' if force else 'release')
        if self.owner[o] is None:
            self.classes.add('release of an unheld lock')
        t0, f0 = self.sim.now, self.fired
        err = None
        try:
            if cm is not None:
                if LEAVING[kind % len(LEAVING)] is not None:
                    self.classes.add('block left by an exception')
                if not leave_ctx(cm, kind):
                    self.bad(f'leaving the context of {what} swallowed the '
                             f'exception')
            elif force:
                lock.release(force=True)
            else:
                lock.release()
        except S.Blocked as e:
            self.bad(f'{what} blocks forever ({e})')
        except (OSError, KeyboardInterrupt, RuntimeError) as e:
            err = e
        if self.sim.now - t0 > EPS:
            self.bad(f'{what} took {self.sim.now - t0} s')
        if err is not None:
            if self.fired == f0:
                self.bad(f'{what} raised {err!r}')
            if lock.is_locked:
                return True           # reported: it is still held
        self.released(o, force)
        return True

    def step(self, op):
        t, o, what, form = op
        o %= self.n
        if what == 0:
            self.acquire(t, o, form, 'acquire')
        elif what == 1:
            self.release(t, o, False)
        elif what == 2:
            self.release(t, o, True)
        elif what == 3:
            self.acquire(t, o, form, 'acquire_ctx')
        elif what == 5:
            self.acquire(t, o, form, 'with')
        elif what == 4:
            for i in range(len(self.ctxs) - 1, -1, -1):
                c = self.ctxs[i]
                if c[0] == t and c[1] == o:
                    if self.release(t, o, False, c[2], form):
                        del self.ctxs[i]
                    break
        self.truth()

    def truth(self, fds=True):
        held = 0
        for o, lock in enumerate(self.objs):
            h = self.owner[o] is not None
            held += h
            if lock.is_locked is not h:
                self.bad(f'is_locked of object {o} is {lock.is_locked!r}, '
                         f'the holders are {self.owner}')
        if fds and nfds() - self.base != held:
            self.bad(f'{nfds() - self.base} descriptors are open for {held} '
                     f'held locks')
        if busy(self.path) != bool(held):
            self.bad(f'the lock file is {"" if busy(self.path) else "not "}'
                     f'locked, the holders are {self.owner}')

    def plan_end(self):
        """Operations which release everything: [(thread, object, how)]"""
        return [(self.owner[o], o) for o in range(self.n)
                if self.owner[o] is not None]

    def unwind(self, t, o, forced):
        if self.owner[o] != t:
            return
        self.nofault = True
        if forced:
            self.release(t, o, True)
        while self.owner[o] is not None:
            self.release(t, o, False)
        self.truth()

    def probe(self, t, o):
        """A released lock can be acquired by any thread through any object."""
        self.nofault = True
        for o2 in range(self.n):
            if self.owner[o2] is not None:
                return
        self.acquire(t, o, 0, 'acquire')
        self.truth(False)
        self.release(t, o, False)
        if self.owner[o] is not None:
            self.bad('probe')

    def close(self):
        self.truth()
        for c in self.ctxs:
            # contexts whose lock has been released under them
            try:
                c[2].__exit__(None, None, None)
            except BaseException as e:
                self.bad(f'leaving a context raised {e!r}')
        self.ctxs.clear()
        self.truth()


def validate(case):
    assert case['re'] in (0, 1) and 1 <= len(case['objs']) <= 3
    for d, k in case['objs']:
        assert d >= 0 and k >= 0
    for t, o, w, f in case['ops']:
        assert 1 <= t <= 3 and o >= 0 and 0 <= w <= 5 and f >= 0
    for w, i, e in case.get('faults', ()):
        assert w in ('open', 'lock', 'unlock', 'close') and i >= 0 and e >= 0
    for at, d in case.get('jumps', ()):
        assert at >= 0 and abs(d) <= 10 ** 6


def script(mac):
    """The whole history: yields (thread, function)."""
    case = mac.case
    for op in case['ops']:
        yield op[0], lambda op=op: mac.step(op)
    forced = len(case['ops']) % 2
    for t, o in mac.plan_end():
        yield t, lambda: mac.unwind(t, o, forced)
    for t in (1, 2, 3):
        for o in range(mac.n):
            yield t, lambda: mac.probe(t, o)
    yield 1, mac.close


_mod = [None]


def module():
    """One copy of the module for many cases: it keeps no state."""
    if _mod[0] is None:
        _mod[0] = target.fresh('filelock')
    return _mod[0]


def solo(case):
    path = fresh_path()
    with S.Solo() as sim:
        mac = Machine(case, module(), sim, path)
        try:
            for t, f in script(mac):
                sim.logical = t
                f()
        finally:
            mac.dispose()
    return mac


def threaded(case):
    path = fresh_path()
    sim = S.Sim({}, max_time=1e6)
    state = {'i': 0, 'err': None, 'end': False}
    import time

    def setup():
        mac = state['mac'] = Machine(case, module(), sim, path)
        state['it'] = script(mac)
        state['next'] = next(state['it'], None)

    def thread(t):
        def main():
            if t == 1:
                setup()
            slot = 0
            while True:
                slot += 1
                time.sleep(max(0, slot * 10 + t * 0.001 - sim.now))
                while state['next'] is not None and state['next'][0] == t \
                        and state['err'] is None:
                    try:
                        state['next'][1]()
                        state['next'] = next(state['it'], None)
                    except BaseException as e:
                        if isinstance(e, S.SimAbort):
                            raise
                        state['err'] = e
                if state['next'] is None or state['err'] is not None:
                    return
        return main
    try:
        out = sim.run([(f't{t}', thread(t)) for t in (1, 2, 3)])
    finally:
        if 'mac' in state:
            state['mac'].dispose()
    if state['err'] is not None:
        raise state['err']
    if out.kind != 'ok':
        raise Violation(f'the history never ends: {out}')
    for n, e in sim.root_errors():
        raise e
    return state['mac']


def run_seq(case):
    validate(case)
    try:
        mac = solo(case)
    except Violation as e:
        threaded(case)           # raises if it is real
        import sys
        print('solo only:', e, case, file=sys.stderr)
        return ['solo only'], False
    return sorted(mac.classes), mac.nops > 1


# -- concurrent ----------------------------------------------------------------
class Conc:
    def __init__(self, case, prop):
        assert case['re'] in (0, 1) and 1 <= len(case['objs']) <= 2
        for d, k in case['objs']:
            assert d >= 0 and k >= 0
        for rounds in case['threads']:
            for gap, o, how, form, hold, nested, rel in rounds:
                assert nested >= 0 and how >= 0 and rel >= 0
                assert gap >= 0 and hold >= -1 and form >= 0 and o >= 0
        self.case = case
        self.prop = prop
        self.sim = S.Sim(case['sched'], max_time=10_000, max_steps=20_000)
        for at, d in case.get('jumps', ()):
            assert at >= 0 and abs(d) <= 10 ** 6
        self.sim.jumps = case.get('jumps', ())
        self.inside = []         # (thread, object)
        self.viol = []
        self.faults = {}
        self.counts = {}
        self.fired = 0
        self.dirty = False       # a release has reported an error
        for w, i, e in case.get('faults', ()):
            assert w in ('open', 'lock', 'unlock', 'close') and i >= 0
            self.faults[w, i] = e % 6
        if self.faults:
            self.sim.faults = self.fault
        self.stats = {'in': 0, 'failed': 0, 'waited': 0, 'nested': 0,
                      'faults': 0}

    def bad(self, prop, msg):
        if prop in self.prop:
            self.viol.append(msg + f' @t={self.sim.now:.4f}')

    def fault(self, name, args):
        i = self.counts.get(name, 0)
        self.counts[name] = i + 1
        e = self.faults.get((name, i))
        if e is not None:
            self.fired += 1
            self.stats['faults'] += 1
            raise ERRORS[e]()

    def thread(self, n, rounds):
        import time
        re = self.case['re']

        def attempt(o, form, how):
            lock = self.objs[o]
            a, k, mode, T, poll = params(form, DEFAULTS[
                self.case['objs'][o][0] % 3])
            if how == 2:
                a, k = (), {}
                d = DEFAULTS[self.case['objs'][o][0] % 3]
                mode, T, poll = ('block', None, POLL) if d < 0 else \
                    ('timed', d, POLL)
            cm = None
            t0 = self.sim.now
            f0 = self.fired
            try:
                if how == 0:
                    ok = bool(lock.acquire(*a, **k))
                else:
                    cm = lock.acquire_ctx(*a, **k) if how == 1 else lock
                    cm.__enter__()
                    ok = True
            except TimeoutError:
                ok = False
            except OSError:
                if not self.fired:
                    raise
                ok = False
            took = self.sim.now - t0
            if took > EPS:
                self.stats['waited'] += 1
            if not ok:
                self.stats['failed'] += 1
            if self.fired > f0:
                # its own or somebody else's error
                if mode in ('timed', 'lax') and took > 2 * T + poll + EPS:
                    self.bad('C12', f'thread {n}: took {took}')
                return ok, cm
            e = late(mode, T, poll, took, ok) if mode != 'block' else (
                'a blocking acquire returned without the lock'
                if not ok else None)
            if e:
                self.bad('C12', f'thread {n}: {e}')
            return ok, cm

        def leave(lock, cm, rel):
            try:
                leave2(lock, cm, rel)
            except OSError:
                if not self.fired:
                    raise
                self.dirty = True

        def leave2(lock, cm, rel):
            if cm is not None:
                leave_ctx(cm, 2 * rel)
            else:
                lock.release(**({'force': True} if rel else {}))

        def main():
            for gap, o, how, form, hold, nested, rel in rounds:
                o %= len(self.objs)
                lock = self.objs[o]
                if gap:
                    time.sleep(gap / 1000)
                ok, cm = attempt(o, form, how % 3)
                if not ok:
                    continue
                me = (n, o)
                if self.inside:
                    self.bad('C02', f'thread {n} is inside through object '
                             f'{o} while {self.inside} are')
                self.inside.append(me)
                self.stats['in'] += 1
                if not lock.is_locked:
                    self.bad('C12', f'thread {n} holds object {o}, '
                             f'is_locked is false')
                if not busy(self.path):
                    self.bad('C02', f'thread {n} is inside, but any process '
                             f'could lock the file')
                if hold > 0:
                    time.sleep(hold / 1000)
                elif hold == 0:
                    self.sim.yp(S.me())
                if nested and re:
                    ok2, cm2 = attempt(o, 4 if nested > 1 else 0, 0)
                    if not ok2 and not self.faults:
                        self.bad('C12', f'thread {n} could not acquire '
                                 f'object {o} again')
                    elif ok2:
                        self.stats['nested'] += 1
                        if nested < 3:
                            leave(lock, cm2, False)
                        elif rel and cm is None:
                            pass          # force undoes both
                        else:
                            leave(lock, cm2, False)
                    if not lock.is_locked:
                        self.bad('C12', f'object {o} was released by the '
                                 f'inner release of thread {n}')
                elif nested and not re:
                    ok2, _ = attempt(o, 2 if nested > 1 else 0, 0)
                    if ok2:
                        self.bad('C12', f'thread {n} acquired the '
                                 f'non-reentrant object {o} twice')
                self.sim.yp(S.me())
                if not busy(self.path):
                    self.bad('C02', f'thread {n} is inside, but any process '
                             f'could lock the file')
                if self.inside != [me]:
                    self.bad('C02', f'thread {n} is not alone: '
                             f'{self.inside}')
                self.inside.remove(me)
                leave(lock, cm, rel)
        return main

    def finish(self):
        self.path = fresh_path()
        base = nfds()
        self.objs = make(module(), self.path, self.case)
        out = self.sim.run([(f't{i}', self.thread(i, r))
                            for i, r in enumerate(self.case['threads'])])
        try:
            errs = self.sim.root_errors()
            if self.viol:
                raise Violation(self.viol[0])
            for n, e in errs:
                raise e
            if out.kind != 'ok':
                if 'C12' in self.prop:
                    raise Violation(f'the threads never finish: {out}')
                return
            self.sim.faults = None
            if 'C12' in self.prop and not self.dirty:
                if nfds() != base:
                    raise Violation(f'{nfds() - base} descriptors are left '
                                    f'open')
                if any(o.is_locked for o in self.objs) or busy(self.path):
                    raise Violation('locked after everybody has released')
                # through any object, by a new thread
                sim2 = S.Sim({}, max_time=1000)
                bad = []

                def prober():
                    for i, o in enumerate(self.objs):
                        if not o.acquire(False):
                            bad.append(i)
                        else:
                            o.release()
                sim2.run([('prober', prober)])
                if bad:
                    raise Violation(f'object {bad[0]} can not be acquired '
                                    f'after everybody has released')
        finally:
            for lock in self.objs:
                fd = getattr(lock, '_lock_file_fd', None)
                if type(fd) is int:
                    try:
                        S._real_close(fd)
                    except OSError:
                        pass
                    lock._lock_file_fd = None


def conc_runner(prop):
    def run(case):
        w = Conc(case, prop)
        w.finish()
        cl = [k for k, v in w.stats.items() if v]
        if len(case['objs']) > 1:
            cl.append('two objects')
        cl.append('reentrant' if case['re'] else 'plain')
        return cl, len(case['threads']) > 1 and w.stats['in'] > 1
    return run


# -- generators ------------------------------------------------------------------
objs = st.lists(st.tuples(st.sampled_from([0, 0, 1, 2]),
                          st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5])),
                min_size=1, max_size=2)
op = st.tuples(st.integers(1, 3), st.integers(0, 1),
               st.sampled_from([0, 0, 0, 1, 1, 1, 2, 3, 4, 4, 5]),
               st.integers(0, len(FORMS) - 1))
# the wall clock is set: [[at ms, by ms], ...]
jumps = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(
    st.sampled_from([0, 0, 10, 30, 60, 100, 200]),
    st.sampled_from([-60000, -200, 200, 60000])), min_size=1, max_size=2))
seqs = st.fixed_dictionaries({
    're': st.integers(0, 1), 'objs': objs,
    'ops': st.lists(op, min_size=1, max_size=14), 'faults': st.just([]),
    'jumps': jumps,
    'low': st.sampled_from([0, 0, 0, 1])})
fault = st.tuples(st.sampled_from(['open', 'lock', 'unlock', 'close']),
                  st.integers(0, 5), st.integers(0, len(ERRORS) - 1))
faulty = st.fixed_dictionaries({
    're': st.integers(0, 1), 'objs': objs,
    'ops': st.lists(op, min_size=1, max_size=9),
    'faults': st.lists(fault, min_size=1, max_size=3),
    'low': st.sampled_from([0, 0, 0, 1])})


def threads(nmax=4, rounds=3, big=300, max_p=4, faults=True):
    rnd = st.tuples(
        st.sampled_from([0, 0, 0, 1, 2, 30, 60]),
        st.integers(0, 1),
        st.sampled_from([0, 0, 0, 1, 2]),
        st.sampled_from([0, 0, 1, 1, 3, 4, 4, 4, 7, 10, 2, 8, 6]),
        st.sampled_from([-1, -1, 0, 0, 1, 10, 60, 110]),
        st.sampled_from([0, 0, 0, 1, 2, 3]),
        st.sampled_from([0, 0, 0, 1]))
    return st.fixed_dictionaries({
        're': st.integers(0, 1), 'objs': objs,
        'threads': st.lists(st.lists(rnd, min_size=1, max_size=rounds),
                            min_size=2, max_size=nmax),
        'faults': st.one_of(st.just([]), st.just([]), st.lists(
            fault, min_size=1, max_size=2)) if faults else st.just([]),
        'jumps': jumps,
        'sched': sched_strategy(max_p=max_p, big=big)})


def small_threads():
    rnd = st.tuples(
        st.just(0), st.integers(0, 1), st.sampled_from([0, 0, 1, 2]),
        st.sampled_from([0, 0, 3, 4, 4]), st.sampled_from([-1, -1, 0, 10]),
        st.sampled_from([0, 0, 0, 1]), st.sampled_from([0, 0, 1]))
    return st.fixed_dictionaries({
        're': st.integers(0, 1), 'objs': objs,
        'threads': st.lists(st.lists(rnd, min_size=1, max_size=2),
                            min_size=2, max_size=3),
        'sched': sched_strategy(max_p=0, max_b=3)})


def sweeper(prop, limit=260, tgts=2):
    def sweep(case):
        base = dict(case, sched=dict(case['sched'], p=[], q=0))
        w = Conc(base, prop)
        try:
            w.finish()
        except Violation:
            pass
        for i in range(min(w.sim.cpoints, limit)):
            for t in range(1 if base['sched'].get('r') else min(
                    tgts, len(case['threads']) - 1)):
                yield dict(base, sched=dict(base['sched'], p=[[i, t]]))
    return sweep


def histories(length, nobj, nthr, whats, re, form=None, objs_=None):
    """
    All histories of that length, up to renaming of threads and objects.
    """
    # whats: list of (what, [forms] or None)
    alpha = []
    for w, forms in whats:
        for f in forms:
            alpha.append((w, f))

    def rec(ops, no, nt, n):
        if n == 0:
            yield ops
            return
        for o in range(min(no + 1, nobj)):
            for t in range(1, min(nt + 1, nthr) + 1):
                for w, f in alpha:
                    g = f if f is not None else \
                        (3 * len(ops) + o + 2 * t + w) % len(FORMS)
                    if not ops and w not in (0, 3, 5):
                        continue
                    yield from rec(ops + [[t, o, w, g]], max(no, o + 1),
                                   max(nt, t), n - 1)
    for ops in rec([], 0, 0, length):
        yield {'re': re, 'objs': objs_ or [[0, 0], [0, 0]][:nobj],
               'ops': ops, 'faults': []}
