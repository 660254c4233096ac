"""
buffer_until_timeout under generated submitters, waiters, producers, function
behaviours and schedules.  Shared by C03 (no loss), C07 (barrier, shutdown)
and C08 (debounce, overlap).

case = {'T': ms, 'ctor': 0..3, 'ops': [op, ...], 'fn': [[dur, out], ...],
        'end': ms or -1, 'sched': ..., 'vals': 0..4, 'fails': n}
vals: what is submitted: 0 distinct numbers; 1 odd objects first; else the
      numbers modulo vals, so that equal arguments are submitted repeatedly
fails: the function fails that many times more before it succeeds
op = [at ms, thread, kind, a, b, hops] thread 0: the buffer's own loop
  hops: (optional) so many iterations of that loop later
  kind 'call' a: count      'list' a: count (map of a list)
       'stream' a: count, b: spacing in ms (of plain calls)
       'iterable' a: count, b: failure (re-iterable object, generator inside)
       'iter' / 'agen' a: [delay before each element, ...], b: failure
       'aw' a: delay, b: 0 coroutine 1 future 2 task 3 fails 4 cancelled
            5 another awaitable
       'wait' a: cancel flag, b: 0 wait() 1 wait_from_anywhere()
  failure: 0 none, 1 Exception, 2 CancelledError, 3 BaseException
           ('agen': 4, 5 none, not a generator)
fn: duration (-1: no suspension), outcome 0 ok 1 Exception 2 CancelledError
    3 BaseException 4 returns an exception instance; it consumes the set it
    was given: 5 all of it, then fails 6 one element, then fails 7 adds
    something, then fails 8 fails, empties it a bit later 9 all, then succeeds
    from 10 on see FEXC
pauses (optional): [[t ms, d ms, w], ...] the loop stops at t for d, during
      which the own thread submits from outside of it; w 1/2: it is first run
      for a wait() with/without cancel, from t until that returns
ctor: 0, 1 while the loop runs (directly, by options), 2 before it runs,
      3 before it runs, and so do the submissions at 0
end: -1 settle, then shut the loop down; else shut down at that time
"""
import asyncio as aio
import threading
import time

from hypothesis import strategies as st

from . import sim as S
from . import target
from .engine import Violation, sched as sched_strategy

EPS = 1e-4
last = {}


class EBase(BaseException):
    pass


class Chameleon:
    """An argument which could be mistaken for many submissions."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f'Chameleon({self.n})'

    def __iter__(self):
        return iter(('inside', 'an argument'))

    async def __aiter__(self):
        yield 'inside an argument'

    def __await__(self):
        yield from ()
        return 'awaited argument'

    def __call__(self, *a, **k):
        return 'called argument'

    def __bool__(self):
        return False

    def __len__(self):
        return 0


ODD = [None, 0, '', (), Chameleon(1), frozenset(), ValueError('argument'),
       'word', (1, 2), aio.CancelledError('argument'), Ellipsis,
       StopIteration('argument'), StopAsyncIteration('argument'), b'',
       frozenset([7]), NotImplemented, int, aio.TimeoutError('argument'),
       Chameleon, -1, 0.5, EBase('argument'), Chameleon(2)]


FEXC = [aio.TimeoutError, StopAsyncIteration, lambda: KeyError('fn'),
        aio.QueueEmpty, aio.InvalidStateError, lambda: OSError(5, 'fn'),
        lambda: RuntimeError('Event loop is closed'), AttributeError,
        lambda: ValueError('fn'), MemoryError, AssertionError, ImportError]


def key(x):
    return (type(x).__name__, repr(x))


def validate(case):
    case['T'] + case['end'] + case['ctor']
    assert case['T'] >= 0
    case.get('vals', 0) + case.get('fails', 0)
    assert 0 <= case.get('fails', 0) <= 100
    for d, o in case['fn']:
        d + o
    for t, d, w in case.get('pauses', ()):
        assert t >= 0 and d >= 0 and w in (0, 1, 2)
        assert case['ctor'] > 1 and case['end'] < 0
        assert not any(o[1] and o[2] == 'wait' for o in case['ops'])
    for op in case['ops']:
        at, th, kind, a, b = op[:5]
        at + th + b
        assert len(op) < 7 and (op[5:] or [0])[0] in range(50)
        if kind in ('iter', 'agen'):
            for x in a:
                x + 0
        else:
            a + 0
        assert kind in ('iter', 'agen', 'call', 'list', 'iterable', 'aw',
                        'wait', 'stream')
        if kind == 'stream':
            assert 0 <= a <= 1000 and b >= 0


class FCall:
    __slots__ = ('args', 't0', 't1', 'ok', 'exc', 'seq')


class Op:
    """A submission or a wait as it happened."""
    __slots__ = ('n', 'kind', 'own', 't', 'seq', 't1', 'seq1', 'args',
                 'done', 'immediate', 'cancel', 'exc', 'thread', 'made')


class World:
    def __init__(self, case, prop):
        validate(case)
        self.case = case = dict(case)
        case['ops'] = [
            y for x in case['ops'] for y in (
                [[x[0] + i * x[4], x[1], 'call', 1, 0] for i in range(x[3])]
                if x[2] == 'stream' else [x])]
        self.vals = case.get('vals', 0)
        self.prop = prop
        self.m = target.fresh('asyncio')
        self.sim = S.Sim(case['sched'], max_time=30_000)
        self.made = {}          # argument -> [sequence number, ...]
        self.calls = []
        self.ops = []
        self.viol = []
        self.seq = 0
        self.next_arg = 0
        self.buf = None
        self.closing = None
        self.done_settle = False

    def bad(self, props, msg):
        self.viol.append((props, msg + f' @t={self.sim.now:.4f}'))

    def tick(self):
        self.seq += 1
        return self.seq

    def arg(self, op):
        n = self.next_arg = self.next_arg + 1
        if self.vals == 1 and n <= len(ODD):
            n = ODD[n - 1]
        elif self.vals > 1:
            n %= self.vals
        op.args.append(n)
        op.made.append(self.tick())
        self.made.setdefault(n, []).append(self.seq)
        return n

    # -- wrapped function ----------------------------------------------------
    async def func(self, args):
        c = FCall()
        if type(args) is not set:
            self.bad('C03', f'the function received {args!r}')
        c.args = sorted(args, key=key)
        c.t0, c.t1, c.ok, c.exc = self.sim.now, None, None, None
        c.seq = self.tick()
        if not c.args:
            self.bad('C08', 'the function was called with an empty set')
        if any(d.t1 is None for d in self.calls):
            self.bad('C08', 'the function was called while it was running')
        for a in c.args:
            if a not in self.made:
                self.bad('C03', f'the function received {a!r}, which was '
                         f'never submitted')
        n = len(self.calls)
        self.calls.append(c)
        fn = self.case['fn']
        dur, out = fn[n] if n < len(fn) else (
            1, int(n < len(fn) + self.case.get('fails', 0)))
        try:
            if dur == 0:
                await aio.sleep(0)
            elif dur > 0:
                await aio.sleep(dur / 1000)
            if out in (5, 9):
                while args:
                    args.pop()
            elif out == 6 and args:
                args.pop()
            elif out == 7:
                args.add('never submitted')
            elif out == 8:
                aio.get_running_loop().call_later(0.0005, args.clear)
            if out in (1, 5, 6, 7, 8):
                raise RuntimeError('fn')
            if out == 2:
                raise aio.CancelledError('fn')
            if out == 3:
                raise EBase('fn')
            if out > 9:
                raise FEXC[(out - 10) % len(FEXC)]()
            c.ok = self.tick()
            return RuntimeError('returned') if out == 4 else None
        except BaseException as e:
            c.exc = e
            raise
        finally:
            c.t1 = self.sim.now

    # -- submissions ---------------------------------------------------------
    def fail(self, b):
        if b == 1:
            raise RuntimeError('producer')
        if b == 2:
            raise aio.CancelledError('producer')
        if b == 3:
            raise EBase('producer')

    def submit(self, spec, own, thread):
        at, th, kind, a, b = spec[:5]
        op = Op()
        op.n, op.kind, op.own, op.thread = len(self.ops), kind, own, thread
        op.t = self.sim.now
        op.args, op.done, op.exc, op.t1, op.seq1 = [], False, None, None, None
        op.immediate = kind in ('call', 'list', 'iterable')
        op.made = []
        self.ops.append(op)
        op.seq = self.tick()
        buf = self.buf
        if kind == 'call':
            for _ in range(max(1, a)):
                buf(self.arg(op))
            op.done = True
        elif kind == 'list':
            xs = [self.arg(op) for _ in range(a)]
            op.done = True
            buf.map(xs)
        elif kind == 'iterable':
            w = self

            class Re:
                def __iter__(self):
                    for _ in range(a):
                        yield w.arg(op)
                    op.done = True
                    w.fail(1 if b == 2 else b)
            op.immediate = b == 0
            buf.map(Re())
        elif kind == 'iter':
            def gen():
                try:
                    for d in a:
                        if d:
                            time.sleep(d / 1000)
                        yield self.arg(op)
                    self.fail(1 if b == 2 else b)
                finally:
                    op.done = True
            op.immediate = b == 0 and not any(a)
            buf.map(gen())
        elif kind == 'agen':
            async def agen():
                try:
                    for d in a:
                        if d:
                            await aio.sleep(d / 1000)
                        yield self.arg(op)
                    self.fail(b)
                finally:
                    op.done = True

            class It:
                def __init__(self):
                    self.it = agen()

                def __aiter__(self):
                    return self

                def __anext__(self):
                    return self.it.__anext__()

            class Re:
                def __aiter__(self):
                    return agen()
            buf.amap(It() if b == 4 else Re() if b == 5 else agen())
        elif kind == 'aw':
            async def aw():
                try:
                    if a:
                        await aio.sleep(a / 1000)
                    if b == 3:
                        raise RuntimeError('aw')
                    if b == 4:
                        raise aio.CancelledError('aw')
                    return self.arg(op)
                finally:
                    op.done = True
            if own and b == 1:
                fut = self.loop.create_future()

                def setres():
                    op.done = True
                    if not fut.done():
                        fut.set_result(self.arg(op))
                self.loop.call_later(a / 1000, setres)
                buf.await_(fut)
            elif own and b in (2, 4):
                buf.await_(self.loop.create_task(aw()))
            elif b == 5:
                class Aw:
                    def __await__(self):
                        return aw().__await__()
                buf.await_(Aw())
            else:
                buf.await_(aw())
        # the call has returned: from here on a wait() must cover it
        op.seq = self.tick()

    async def wait(self, spec, own, thread):
        at, th, kind, a, b = spec[:5]
        op = Op()
        op.n, op.kind, op.own, op.thread = len(self.ops), 'wait', own, thread
        op.cancel, op.args, op.made, op.done = bool(a), [], [], False
        op.t, op.t1, op.exc = self.sim.now, None, None
        op.immediate = True
        op.seq = self.tick()
        self.ops.append(op)
        try:
            if own and not b:
                await self.buf.wait(**({} if a == 2 else {'cancel': bool(a)}))
            else:
                await self.buf.wait_from_anywhere(
                    **({} if a == 2 else {'cancel': bool(a)}))
        except BaseException as e:
            op.exc = e
            if self.closing is None:
                self.bad('C07', f'wait() raised {e!r}')
            if isinstance(e, aio.CancelledError) and own:
                raise
            return
        finally:
            op.t1 = self.sim.now
            op.seq1 = self.tick()
        for o in self.ops:
            if o.kind != 'wait' and o.own == own and o.seq < op.seq and (
                    own or o.thread == thread):
                lost = self.missing(o)
                if lost or not o.done:
                    self.bad('C07', f'wait() called at t={op.t:.4f} returned, '
                             f'but submission {o.n} ({o.kind} at '
                             f't={o.t:.4f}) is not delivered: {lost or ""}'
                             + ('' if o.done else ' still being produced'))

    def missing(self, o):
        """The arguments of o no successful call was started with since."""
        return [x for x, s in zip(o.args, o.made)
                if not any(c.ok and c.seq > s and x in c.args
                           for c in self.calls)]

    # -- threads -------------------------------------------------------------
    def main(self):
        case = self.case
        loop = self.loop = aio.new_event_loop()
        aio.set_event_loop(loop)
        T = case['T'] / 1000
        m = self.m

        def make():
            if case['ctor'] == 1:
                self.buf = m.buffer_until_timeout(timeout=T)(self.func)
            else:
                self.buf = m.buffer_until_timeout(self.func, timeout=T)
            self.t0 = self.sim.now
            self.ready.set()
        first, paused = [], []
        if case['ctor'] > 1:
            make()
            first = [o for o in case['ops'] if case['ctor'] == 3 and not o[0]
                     and not o[1] and o[2] != 'wait']
            paused = [[o for o in case['ops'] if not o[1] and o[2] != 'wait'
                       and o not in first and t <= o[0] < t + d]
                      for t, d, w in sorted(case.get('pauses', ()))]

        async def program():
            if case['ctor'] < 2:
                make()
            self.running.set()
            tasks = []

            def start(spec, hops=0):
                if hops:
                    loop.call_soon(start, spec, hops - 1)
                elif spec[2] == 'wait':
                    tasks.append(loop.create_task(self.wait(spec, True, 0)))
                else:
                    self.submit(spec, True, 0)
            lastat = 0
            for spec in case['ops']:
                lastat = max(lastat, spec[0])
                if spec[1] == 0 and not any(
                        spec is o for p in [first, *paused] for o in p):
                    hops = spec[5] if len(spec) > 5 else 0
                    if spec[0] == 0:
                        start(spec, hops)
                    else:
                        loop.call_at(self.t0 + spec[0] / 1000, start, spec,
                                     hops)
            if case['end'] >= 0:
                await aio.sleep(case['end'] / 1000)
            else:
                await aio.sleep(lastat / 1000 + 2000)
                self.done_settle = True
                last = loop.create_task(self.buf.wait(
                    cancel=bool(len(case['ops']) % 2)))
                await aio.wait([last], timeout=1000)
                if not last.done():
                    self.bad('C07', 'wait() called when everything had been '
                             'delivered never returned')
                elif last.cancelled() or last.exception():
                    self.bad('C07', f'wait() called when everything had been '
                             f'delivered failed: {last}')
            self.closing = self.sim.now
        for spec in first:
            self.submit(spec, True, 0)
        if paused:
            prog = loop.create_task(program())
            done = []
            for (t, d, w), mine in zip(sorted(case['pauses']), paused):
                loop.call_at(self.t0 + t / 1000, loop.stop)
                loop.run_forever()
                if w:
                    loop.run_until_complete(
                        self.wait([t, 0, 'wait', w % 2, 0], True, 0))
                for spec in sorted(mine, key=lambda o: o[0]):
                    if not any(spec is o for o in done):
                        done.append(spec)
                        self.until(spec[0])
                        self.submit(spec, True, 0)
                self.until(t + d)
            loop.run_until_complete(prog)
        else:
            loop.run_until_complete(program())
        self.closing = self.sim.now

        async def gather():
            ts = [t for t in aio.all_tasks(loop)
                  if t is not aio.current_task()]
            for t in ts:
                t.cancel()
            await aio.gather(*ts, return_exceptions=True)
        self.run(gather)
        self.run(loop.shutdown_asyncgens)
        loop.close()
        self.shut = True

    def until(self, ms):
        d = self.t0 + ms / 1000 - self.sim.now
        if d > 0:
            time.sleep(d)

    def run(self, fn):
        """
        Run the loop for a part of its shutdown.  A wait_from_anywhere() which
        was under way may have begun to run the loop, which was idle for a
        moment, for itself; that one has to be cancelled first.
        """
        loop = self.loop

        async def part():
            nonlocal begun
            begun = True
            await fn()

        def cancel():
            for t in aio.all_tasks(loop):
                t.cancel()
        while True:
            begun, coro = False, part()
            try:
                loop.run_until_complete(coro)
                return
            except RuntimeError:
                if begun or not loop.is_running():
                    raise
                coro.close()
                loop.call_soon_threadsafe(cancel)
                time.sleep(0.001)

    def foreign(self, k):
        self.ready.wait()
        loop = None
        for spec in sorted((s for s in self.case['ops'] if s[1] == k),
                           key=lambda s: s[0]):
            self.until(spec[0])
            try:
                if spec[2] == 'wait':
                    # otherwise it runs the loop itself, which isn't for
                    # the own thread to start or to finish anymore
                    self.running.wait()
                    if self.closing is not None:
                        continue
                    if loop is None:
                        loop = aio.new_event_loop()
                        aio.set_event_loop(loop)
                    loop.run_until_complete(self.wait(spec, False, k))
                else:
                    self.submit(spec, False, k)
            except BaseException as e:
                if isinstance(e, S.SimAbort):
                    raise
                if self.closing is None:
                    self.bad('C03 C07', f'a call from another thread raised '
                             f'{e!r}')

    def finish(self):
        case = self.case
        self.ready = threading.Event()
        self.running = threading.Event()
        self.shut = False
        roots = [('own', self.main)]
        for k in sorted({s[1] for s in case['ops']} - {0}):
            roots.append((f'F{k}', lambda k=k: self.foreign(k)))
        out = self.sim.run(roots)
        last['cpoints'] = self.sim.cpoints
        for n, e in self.sim.root_errors():
            if n == 'own':
                self.bad('C03 C07', f'the program failed with {e!r}')
        if out.kind != 'ok' and not self.shut and self.closing is not None:
            self.bad('C07', f'shutting the loop down at '
                     f't={self.closing:.4f} never ends: {out}')
        elif out.kind == 'livelock':
            self.bad('C03 C07 C08', f'the program spins: {out}')
        elif not self.shut:
            self.bad('C03 C07', f'the program never ends: {out}')
        self.loss()
        self.debounce()
        mine = [m for p, m in self.viol if self.prop in p]
        if mine:
            raise Violation(mine[0])
        return out

    # -- verdicts ------------------------------------------------------------
    def loss(self):
        shared = set()
        for o in self.ops:
            if o.kind == 'wait':
                if self.done_settle and o.t1 is None:
                    self.bad('C07', f'wait() called at t={o.t:.4f} never '
                             f'returned')
                continue
            if not o.own:
                shared.update(o.args)
            if self.done_settle and not o.done:
                self.bad('C03', f'submission {o.n} ({o.kind} at '
                         f't={o.t:.4f}) was never taken to its end')
            if self.done_settle:
                lost = self.missing(o)
                if lost:
                    self.bad('C03', f'{lost} ({o.kind} at t={o.t:.4f}) was '
                             f'never delivered to a successful call')
        for a, made in self.made.items():
            if a in shared:
                continue
            # each successful call needs a submission of its own
            got = [c.seq for c in self.calls if c.ok and a in c.args]
            for i, s in enumerate(got):
                if sum(x < s for x in made) <= i:
                    self.bad('C03', f'argument {a!r} submitted from the own '
                             f'thread was delivered to {len(got)} '
                             f'successful calls')
                    break

    def debounce(self):
        T = self.case['T'] / 1000
        subs = [o for o in self.ops if o.kind != 'wait' and (
            o.args or o.kind == 'call')]
        if any(not o.immediate for o in self.ops if o.kind != 'wait'):
            return
        equal = self.vals > 1
        if self.case.get('pauses'):
            return
        if any(o.kind == 'wait' and o.cancel for o in self.ops):
            return
        if not subs:
            return
        end = self.closing if self.closing is not None else self.sim.now
        # empty iterables are submissions too, but deliver nothing: a call
        # may or may not count them as arrivals
        empties = [o.t for o in self.ops
                   if o.kind != 'wait' and not o.args]
        for c in self.calls:
            for o in subs:
                if c.t0 - T + EPS < o.t < c.t0 - EPS and c.t0 < end - EPS:
                    self.bad('C08', f'the function was called at '
                             f't={c.t0:.4f}, {c.t0 - o.t:.4f} s after a '
                             f'submission (timeout {T})')
        if empties or equal:
            return
        failing = any(c.exc is not None for c in self.calls)
        times = sorted(subs, key=lambda o: o.t)
        groups = [[times[0]]]
        for o in times[1:]:
            gap = o.t - groups[-1][-1].t
            if abs(gap - T) < EPS:
                groups[-1].append(None)        # a tie: do not judge
                groups.append([None, o])
            elif gap < T:
                groups[-1].append(o)
            else:
                groups.append([o])
        for g in groups:
            if None in g:
                continue
            a, b = g[0].t, g[-1].t
            if b + T > end - EPS:
                continue
            mine = set(args := [x for o in g for x in o.args])
            if not T and (len(args) > 1 or failing):
                continue    # all of a burst lies at one instant: a tie
            if any(c.t0 < b + T - EPS and (c.t1 is None or c.t1 > a - EPS)
                   and not mine & set(c.args) for c in self.calls):
                continue    # not idle: only the rule above applies
            got = [c for c in self.calls if mine & set(c.args)]
            if failing:
                got = got[:1]       # it is offered again later
            if len(got) != 1 or abs(got[0].t0 - (b + T)) > EPS or \
                    not mine <= set(got[0].args):
                self.bad('C08', f'burst t={a:.4f}..{b:.4f} of {args} was '
                         f'delivered as '
                         f'{[(round(c.t0, 4), c.args) for c in got]}, '
                         f'expected one call at t={b + T:.4f}')


def runner(prop):
    def run(case):
        w = World(case, prop)
        w.finish()
        cl = []
        subs = [o for o in w.ops if o.kind != 'wait']
        cl += sorted({'op=' + o.kind for o in w.ops})
        if any(not o.own for o in subs):
            cl.append('foreign thread')
        if any(c.exc is not None for c in w.calls):
            cl.append('failed call')
        if len(w.calls) > 1:
            cl.append('several calls')
        if any(c.t0 - EPS <= o.t and (c.t1 is None or o.t <= c.t1 + EPS)
               for c in w.calls for o in subs):
            cl.append('submission while running')
        if case['end'] >= 0:
            cl.append('shutdown at an instant')
        if w.vals > 1 and any(len(x) > 1 for x in w.made.values()):
            cl.append('equal arguments')
        if w.vals == 1:
            cl.append('odd arguments')
        if any(len(c.args) >= 50 for c in w.calls):
            cl.append('50 arguments in one call')
        if sum(c.exc is not None for c in w.calls) > 4:
            cl.append('more than 4 failures')
        if w.sim.preempted:
            cl.append('preempted')
        if case['ctor'] == 3 or case.get('pauses'):
            cl.append('submission while the loop is stopped')
        if prop == 'C07':
            nt = any(o.kind == 'wait' for o in w.ops) and bool(subs) or \
                case['end'] >= 0 and bool(subs)
        elif prop == 'C08':
            nt = len(subs) >= 2 and bool(w.calls)
        else:
            nt = sum(len(o.args) for o in subs) >= 2 and (
                len(w.calls) > 1 or any(not o.own for o in subs)
                or any(not o.immediate for o in subs))
        return cl, nt
    return run


# -- generators ----------------------------------------------------------------
def strategies(kinds, foreign=2, waits=True, fails=True, ends=True, T=(10,),
               ats=None, cancel=(0, 1, 2), max_ops=6, vals=(0,),
               failures=(0,), pauses=False):
    at = st.sampled_from(ats or [0, 0, 0, 1, 2, 3, 5, 8, 9, 10, 11, 12, 15,
                                 19, 20, 21, 25, 30, 40])
    th = st.sampled_from([0, 0, 0] + list(range(1, foreign + 1)))
    delay = st.sampled_from([0, 0, 0, 1, 4, 9, 10, 11, 25])
    table = {
        'call': (st.integers(1, 3), st.just(0)),
        'burst': (st.sampled_from([20, 70, 130, 300, 1100]), st.just(0)),
        'list': (st.integers(0, 3), st.just(0)),
        'biglist': (st.sampled_from([20, 70, 130, 300, 1100]), st.just(0)),
        'bigiter': (st.sampled_from([20, 70, 130]).map(lambda n: [0] * n),
                    st.just(0)),
        'slowiter': (st.sampled_from([5, 20, 40]).map(lambda n: [1] * n),
                     st.just(0)),
        'stream': (st.sampled_from([5, 12, 30, 70, 120]),
                   st.sampled_from([1, 3, 4, 7])),
        'iterable': (st.integers(0, 3), st.sampled_from(
            [0, 0, 1, 3] if fails else [0])),
        'iter': (st.lists(delay, max_size=3), st.sampled_from(
            [0, 0, 1, 3] if fails else [0])),
        'iter0': (st.lists(st.just(0), max_size=3), st.just(0)),
        'agen': (st.lists(delay, max_size=3), st.sampled_from(
            [0, 0, 1, 2, 3, 4, 5] if fails else [0, 4, 5])),
        'aw': (delay, st.integers(0, 5)),
        'wait': (st.sampled_from(cancel), st.integers(0, 1)),
    }
    ops = []
    for k in kinds + (['wait'] if waits else []):
        a, b = table[k]
        ops.append(st.tuples(at, st.just(0) if pauses and k == 'wait' else
                             th, st.just(
            {'burst': 'call', 'biglist': 'list', 'bigiter': 'iter',
             'slowiter': 'iter'}.get(k, k.rstrip('0'))), a, b, *(
                 () if k == 'stream' else
                 (st.sampled_from([0] * 12 + list(range(1, 13))),))))
    fn = st.lists(st.tuples(
        st.sampled_from([-1, -1, 0, 1, 5, 9, 10, 11, 25]),
        st.sampled_from([0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9] +
                        list(range(10, 10 + len(FEXC))) if fails else [0, 0, 4, 9])),
        max_size=4)
    return st.fixed_dictionaries({
        'T': st.sampled_from(list(T)),
        'ctor': st.integers(2, 3) if pauses else st.integers(0, 3),
        **({'pauses': st.lists(st.tuples(at, st.sampled_from(
            [0, 1, 5, 10, 11, 20, 100]), st.sampled_from([0, 0, 1, 1, 2])),
            min_size=1, max_size=3)} if pauses else {}),
        'ops': st.lists(st.one_of(*ops), min_size=1, max_size=max_ops),
        'fn': fn,
        'vals': st.sampled_from(list(vals)),
        'fails': st.sampled_from(list(failures)),
        'end': st.one_of(st.just(-1), st.just(-1), st.integers(0, 45))
        if ends else st.just(-1),
        'sched': sched_strategy() if foreign else st.just(
            {'p': [], 'b': [], 'q': 0}),
    })


S0 = {'p': [], 'b': [], 'q': 0}


def scenarios():
    """Two threads; the schedules of these are swept."""
    def c(ops, fn=(), end=-1, T=10):
        return {'T': T, 'ctor': 0, 'ops': ops, 'fn': list(fn), 'end': end,
                'sched': S0}
    own = [0, 0, 'call', 1, 0]
    # the other thread submits at the instants at which things happen
    for at in (0, 5, 10, 11):
        yield c([own, [at, 1, 'call', 1, 0]], [[1, 0]])
    yield c([own, [10, 1, 'call', 1, 0]], [[-1, 0]])
    yield c([own, [10, 1, 'call', 1, 0]], [[-1, 1]])
    yield c([own, [11, 1, 'call', 1, 0], [12, 0, 'wait', 1, 0]], [[1, 0]])
    yield c([own, [10, 1, 'call', 1, 0], [10, 1, 'wait', 1, 1]], [[-1, 0]])
    yield c([own, [10, 1, 'call', 1, 0], [10, 1, 'wait', 0, 1]], [[0, 0]])
    yield c([own, [0, 1, 'call', 1, 0], [0, 1, 'wait', 1, 1],
             [0, 1, 'call', 1, 0], [0, 1, 'wait', 1, 1]], [[1, 0]])
    yield c([[0, 0, 'iter', [0, 1], 0], [1, 1, 'list', 2, 0],
             [1, 1, 'wait', 1, 1]], [[1, 1]])
    yield c([[0, 0, 'iter', [1, 1], 1], [1, 1, 'call', 1, 0]], [[0, 0]])
    yield c([[0, 1, 'iter', [0, 0], 0], [0, 0, 'wait', 1, 0]], [])
    yield c([[5, 1, 'call', 1, 0], [5, 0, 'wait', 1, 0]], [[-1, 0]])


def sweep_cases(two=False):
    for base in scenarios():
        try:
            World(base, '-').finish()
        except Exception:
            pass
        n = last.get('cpoints', 0)
        nt = 1 + len({o[1] for o in base['ops']} - {0})
        for b in ([0], [1], [0, 1], [0, 0, 1], [0, 0, 0, 1]):
            for g in range(0, n + 20):
                for tgt in range(nt):
                    yield dict(base, sched={
                        'p': [[g, tgt]], 'b': b, 'q': 0})
                if two:
                    for g2 in range(0, n, 4):
                        yield dict(base, sched={
                            'p': [[g, 0], [g2, 0]], 'b': b, 'q': 0})
        for r in S.PRIORITIES:
            for g in range(0, n + 20):
                yield dict(base, sched={'p': [[g, 0]], 'b': [], 'q': 0,
                                        'r': r})
                if two:
                    for g2 in range(0, n, 4):
                        yield dict(base, sched={
                            'p': [[g, 0], [g2, 0]], 'b': [], 'q': 0, 'r': r})


def fine_cases():
    """Switches within lines as well: every single one, two kinds of order."""
    for base in scenarios():
        base = dict(base, sched={'p': [], 'b': [], 'q': 0, 'f': 1})
        try:
            World(base, '-').finish()
        except Exception:
            pass
        n = last.get('cpoints', 0) + 20
        for g in range(n):
            for r in S.PRIORITIES[:2]:
                yield dict(base, sched={'p': [[g, 0]], 'b': [], 'q': 0,
                                        'r': r, 'f': 1})
            for b in ([0], [1], [0, 1], [0, 0, 1]):
                yield dict(base, sched={'p': [[g, 0]], 'b': b, 'q': 0,
                                        'f': 1})


def hop_cases():
    """Own-thread programs, one of whose steps is moved hop by hop."""
    fns = [[], [[-1, 0]], [[0, 0]], [[1, 1], [0, 0]], [[-1, 1]], [[10, 0]],
           [[-1, 10]]]
    first = [('call', 1, 0), ('iter', [0, 4], 0), ('aw', 4, 0), ('aw', 0, 1),
             ('agen', [0, 5], 0), ('list', 0, 0), ('aw', 0, 3)]
    moved = [('call', 1, 0), ('aw', 0, 0), ('wait', 1, 0), ('wait', 0, 0),
             ('agen', [0], 0)]
    for a in first:
        for fn in fns:
            for kind in moved:
                for at in (0, 5, 10, 11):
                    for w in (None, 0, 1):
                        for h in range(13):
                            ops = [[0, 0, *a]]
                            if w is not None:
                                if kind[0] == 'wait' and not w:
                                    ops.append([at, 0, 'call', 1, 0])
                                else:
                                    ops.append([at, 0, 'wait', w, 0])
                            ops.append([at, 0, *kind, h])
                            yield {'T': 10, 'ctor': h % 3, 'ops': ops,
                                   'fn': fn, 'end': -1, 'sched': S0}


def pair_cases():
    """A submission and a wait() close to each other, hop by hop."""
    for a in [('call', 1, 0), ('aw', 4, 0)]:
        for fn in [[], [[-1, 0]], [[0, 0]], [[10, 0]], [[1, 1], [0, 0]]]:
            for at in (0, 10, 11, 20):
                for kind in (('call', 1, 0), ('list', 2, 0), ('aw', 0, 0)):
                    for gap in (0, 1, 2, 3):
                        for w in (0, 1):
                            for h in range(13):
                                yield {'T': 10, 'ctor': h % 3, 'ops': [
                                    [0, 0, *a], [at, 0, *kind, h],
                                    [at, 0, 'wait', w, 0, h + gap]],
                                    'fn': fn, 'end': -1, 'sched': S0}


def shutdown_cases():
    """Shutdown at every instant of programs of one or two submissions."""
    kinds = [('call', 1, 0), ('list', 2, 0), ('iter', [1, 4], 0),
             ('agen', [1, 4], 0), ('agen', [0], 1), ('aw', 3, 0),
             ('aw', 3, 2), ('iterable', 2, 1), ('list', 0, 0)]
    fns = [[], [[5, 0]], [[5, 1], [5, 0]], [[-1, 1], [-1, 1]], [[-1, 0]],
           [[0, 2], [0, 2]]]
    for k in kinds:
        for fn in fns:
            for second in (None, 2, 8, 12):
                for end in list(range(0, 32)):
                    ops = [[0, 0, *k]]
                    if second:
                        ops.append([second, 0, 'call', 1, 0])
                    for w in (0, 1):
                        if w and (end % 3 or second):
                            continue
                        yield {'T': 10, 'ctor': end % 3,
                               'ops': ops + ([[1, 0, 'wait', 1, 0]]
                                             if w else []),
                               'fn': fn, 'end': end, 'sched': S0}
