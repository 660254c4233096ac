"""
ensure_aw / run_aw_threadsafe / loop_in_thread: callers on loops of their own
against one target loop, under generated schedules.

case = {'state': 0 idle | 1 run by loop_in_thread | 2 the first caller's own
                 loop | 3 closed,
        'callers': [[[at, fn, kind, dur, out, nest, cancel], ...], ...],
        'life': [[at, what], ...], 'crowd': [a, b, n], 'drag': ms,
        'block': [[at, ms], ...], 'sched': ...}
drag: how long the target takes to start running
block: callbacks which block the target's thread
crowd: meanwhile `a` other loops are run by loop_in_thread and `b` other, idle
       ones by an ensure_aw each; every call is made n times at once
fn:   0 ensure_aw, 1 run_aw_threadsafe
kind: 0 coroutine 1 future 2 task 3 other awaitable 4 done future
dur:  ms, -1 none; out: 0 value 1 Exception 2 exception instance as value
      3 BaseException 4 CancelledError 5 TimeoutError 6 None, 7 to 9 values
      which could be mistaken for something else, from 10 on see EXC
nest: 1 awaits something on the caller's loop from within, 2 on a third,
      idle loop
cancel: -1 or the caller gives up after that many ms
life: 0 loop_in_thread, 1 stop, 2 stop and close
"""
import asyncio as aio
import threading
import time

from hypothesis import strategies as st

from .. import sim as S
from .. import target
from ..engine import Campaign, Violation, sched as sched_strategy

EPS = 1e-4


class EBase(BaseException):
    pass


class Res:
    pass


class Weird:
    def __eq__(self, other):
        raise AssertionError('a value was compared')

    __hash__ = None

    def __bool__(self):
        raise AssertionError('the truth of a value was tested')

    def __await__(self):
        raise AssertionError('a value was awaited')

    def __call__(self):
        raise AssertionError('a value was called')

    def __iter__(self):
        raise AssertionError('a value was iterated over')

    def __repr__(self):
        return 'Weird'


EXC = [lambda: RuntimeError('Event loop is closed'), lambda: KeyError('k'),
       StopAsyncIteration, lambda: OSError(2, 'x'), AttributeError,
       lambda: RuntimeError('This event loop is already running'),
       aio.QueueEmpty, lambda: KeyError(0)]


class Call:
    __slots__ = ('n', 'who', 'fn', 'kind', 'dur', 'out', 'nest', 'cancel',
                 'at', 't0', 't1', 'val', 'exc', 'begun', 'done', 'value',
                 'raises', 'aw', 'cancelled', 'own')

    def __repr__(self):
        f = ['ensure_aw', 'run_aw_threadsafe'][self.fn]
        k = ['coroutine', 'future', 'task', 'awaitable', 'done future'][
            self.kind]
        return f'{f}({k} #{self.n}) of {self.who} at t={self.t0}'


def validate(case):
    assert case['state'] in (0, 1, 2, 3)
    for c in case['callers']:
        for at, fn, kind, dur, out, nest, cancel in c:
            at + fn + kind + dur + out + nest + cancel
            assert at >= 0
    assert all(0 <= x <= 100 for x in case.get('crowd', ()))
    assert 0 <= case.get('drag', 0) <= 10_000
    assert sum(d for _, d in case.get('block', ())) <= 80_000
    assert all(at >= 0 and d >= 0 for at, d in case.get('block', ()))
    for at, what in case['life']:
        assert at >= 0 and what in (0, 1, 2)


class World:
    def __init__(self, case):
        validate(case)
        self.case = case = dict(case)
        self.crowd = case.get('crowd') or [0, 0, 1]
        case['callers'] = [c * max(1, self.crowd[2]) for c in case['callers']]
        self.m = target.fresh('asyncio')
        self.sim = S.Sim(case['sched'], max_time=30_000)
        self.calls = []
        self.bad = []
        self.stops = []          # (begin, end) of stop calls
        self.runs = []           # (begin, end) of loop_in_thread runs
        self.closed = None
        self.rescued = None
        self.errors = []
        self.left = 0

    def err(self, msg):
        self.bad.append(f'{msg} @t={self.sim.now:.4f}')

    # -- awaitables -----------------------------------------------------------
    def result(self, c):
        if c.raises is not None:
            raise c.raises
        return c.value

    async def coro(self, c):
        loop = aio.get_running_loop()
        if loop is not self.target:
            self.err(f'the awaitable of {c!r} was evaluated on {loop!r}')
        if loop._thread_id != threading.get_ident():
            self.err(f'the awaitable of {c!r} runs in a thread which is not '
                     f'the one running its loop')
        c.begun = self.sim.now
        try:
            if c.dur == 0:
                await aio.sleep(0)
            elif c.dur > 0:
                await aio.sleep(c.dur / 1000)
            if c.nest:
                v = Res()

                async def inner():
                    if aio.get_running_loop() is not there:
                        self.err('a nested awaitable was evaluated on '
                                 f'{aio.get_running_loop()!r}')
                    await aio.sleep(0.001)
                    return v
                there = c.own if c.nest == 1 else self.third
                r = await self.m.ensure_aw(inner(), there)
                if r is not v:
                    self.err(f'a nested ensure_aw gave {r!r}')
            return self.result(c)
        finally:
            if aio.get_running_loop() is not self.target:
                self.err(f'the awaitable of {c!r} moved to another loop')
            c.done = self.sim.now

    def outcome(self, c):
        o = c.out
        c.value, c.raises = Res(), None
        if o == 1:
            c.raises = LookupError(c.n)
        elif o == 2:
            c.value = ValueError('returned')
        elif o == 3:
            c.raises = EBase(c.n)
        elif o == 4:
            c.raises = aio.CancelledError()
        elif o == 5:
            c.raises = TimeoutError('own', c.n)
        elif o == 6:
            c.value = None
        elif o == 7:
            c.value = Weird()
        elif o == 8:
            c.value = RuntimeError      # a class
        elif o == 9:
            c.value = aio.CancelledError()
        elif o > 9:
            c.raises = EXC[(o - 10) % len(EXC)]()

    def build(self, c):
        self.outcome(c)
        loop = self.target
        w = self
        if c.kind in (1, 4) and not loop.is_closed():
            fut = loop.create_future()

            def fire():
                c.begun = c.done = w.sim.now
                if c.raises is None:
                    fut.set_result(c.value)
                elif c.out == 4:
                    fut.cancel()
                else:
                    fut.set_exception(c.raises)
            if c.kind == 4:
                fire()
            else:
                loop.call_later(max(0, c.dur) / 1000, fire)
            return fut
        if c.kind == 2 and not loop.is_closed():
            return loop.create_task(self.coro(c))
        if c.kind == 3:
            class Aw:
                def __await__(self):
                    return w.coro(c).__await__()
            return Aw()
        return self.coro(c)

    # -- callers -----------------------------------------------------------------
    async def call(self, c):
        c.t0 = self.sim.now
        f = self.m.run_aw_threadsafe if c.fn == 1 else self.m.ensure_aw
        try:
            c.val = await f(c.aw, self.target)
            c.t1 = self.sim.now
        except BaseException as e:
            c.exc = e
            c.t1 = self.sim.now
            if c.cancelled:
                raise

    async def timed(self, c, base):
        loop = aio.get_running_loop()
        d = base + c.at / 1000 - loop.time()
        if d > 0:
            await aio.sleep(d)
        if c.cancel >= 0:
            task = loop.create_task(self.call(c))
            await aio.wait([task], timeout=c.cancel / 1000)
            if not task.done():
                c.cancelled = True
                task.cancel()
                await aio.wait([task])
            return
        await self.call(c)

    def caller(self, i, calls, loop):
        def main():
            aio.set_event_loop(loop)

            async def prog():
                if i == 0:
                    self.ready.release()
                base = self.base
                await aio.gather(*(self.timed(c, base) for c in calls))
                self.left -= 1
                if i == 0 and self.case['state'] == 2:
                    # keep the target running for the others
                    while self.left:
                        await aio.sleep(1)
            if i and self.case['state'] == 2:
                self.ready.acquire()
                self.ready.release()
            loop.run_until_complete(prog())
            loop.close()
        return main

    def is_stopped(self, e):
        return len(self.target.stops) >= e

    def life(self):
        loop = self.target
        stop = self.stopper
        epoch = loop.epoch
        from time import sleep
        if self.case['state'] == 1:
            self.ready0.acquire()
            stop, epoch = self.stopper, self.epoch0
        if self.case['state'] != 2:
            for at, what in sorted(self.case['life']):
                d = self.base + at / 1000 - self.sim.now
                if d > 0:
                    sleep(d)
                if what == 0 and stop is None:
                    stop, epoch = self.start()
                elif what and stop is not None:
                    self.stop(stop, epoch)
                    stop = None
                    if what == 2 and not loop.is_running() and not any(
                            c.t0 is not None and c.t1 is None
                            for c in self.calls):
                        try:
                            loop.close()
                            self.closed = self.sim.now
                        except RuntimeError:
                            pass         # someone is running it again
        # everybody must be done by now
        sleep(max(0, self.base + 300 - self.sim.now))
        self.rescued = self.sim.now
        if self.case['state'] == 2 or loop.is_closed():
            return
        # ... except those whose loop was stopped under them: let them finish
        if stop is None:
            stop, epoch = self.start()
        sleep(300)
        if stop is not None:
            self.stop(stop, epoch)

    def begin_crowd(self):
        a, b, _ = self.crowd
        self.others = [aio.new_event_loop() for _ in range(a + b)]
        self.stoppers = [self.m.loop_in_thread(x) for x in self.others[:a]]
        for x in self.others[:a]:
            if not x.is_running():
                self.err('loop_in_thread returned before the loop is running')
        self.waiting = None
        if not b:
            return
        started = threading.Lock()
        started.acquire()

        def main():
            async def prog():
                self.event = [aio.Event() for _ in range(b)]

                async def one(x):
                    ev = aio.Event()
                    async def inner():
                        begun.append(x)
                        await ev.wait()
                    self.release.append((x, ev))
                    await self.m.ensure_aw(inner(), x)
                begun = []
                ts = [aio.ensure_future(one(x)) for x in self.others[a:]]
                await aio.sleep(0.01)
                if len(begun) != b:
                    self.err(f'{b} ensure_aw calls onto idle loops, but only '
                             f'{len(begun)} of them began')
                started.release()
                await aio.gather(*ts)
            loop = aio.new_event_loop()
            loop.run_until_complete(prog())
            loop.close()
        self.release = []
        self.waiting = threading.Thread(target=main)
        self.waiting.start()
        started.acquire()
        self.base = self.sim.now

    def end_crowd(self):
        for stop, x in zip(self.stoppers, self.others):
            stop()
            if x.is_running():
                self.err('the stop function returned before the loop stopped')
        if self.waiting is not None:
            for x, ev in self.release:
                x.call_soon_threadsafe(ev.set)
            self.waiting.join()

    def start(self):
        loop = self.target
        try:
            stop = self.m.loop_in_thread(loop)
        except RuntimeError as e:
            if not loop.is_closed():
                self.err(f'loop_in_thread raised {e!r}')
            return None, 0
        if loop.is_closed():
            self.err('loop_in_thread returned for a closed loop')
            return None, 0
        if not loop.is_running():
            self.err('loop_in_thread returned before the loop is running')
        self.runs.append([self.sim.now, 1e9])
        return stop, loop.epoch

    def stop(self, stop, epoch):
        loop = self.target
        if loop.epoch != epoch or not loop.is_running():
            self.err('the loop did not keep running after loop_in_thread '
                     'returned')
        t = self.sim.now
        self.runs[-1][1] = t
        self.stops.append([t, 1e9])
        stop()
        self.stops[-1][1] = self.sim.now
        if not self.is_stopped(epoch):
            self.err('the stop function returned before the loop stopped')

    def main(self):
        case = self.case
        self.target = aio.new_event_loop()
        self.target.drag = case.get('drag', 0) / 1000
        for at, d in case.get('block', ()):
            self.target.call_later(at / 1000, time.sleep, d / 1000)
        self.third = aio.new_event_loop()
        self.stopper = None
        self.epoch0 = 0
        self.ready = threading.Lock()
        self.ready.acquire()
        self.ready0 = threading.Lock()
        self.ready0.acquire()
        if case['state'] == 3:
            self.target.close()
            self.closed = -1.0
        progs, owns = [], []
        self.base = self.sim.now
        for i, calls in enumerate(case['callers']):
            mine = []
            own = self.target if i == 0 and case['state'] == 2 else \
                aio.new_event_loop()
            owns.append(own)
            for spec in calls:
                c = Call()
                c.own = own
                c.n = len(self.calls)
                c.who = f'caller {i}'
                (c.at, c.fn, c.kind, c.dur, c.out, c.nest, c.cancel) = spec
                c.fn %= 2
                c.kind %= 5
                if c.kind == 2 or c.cancel >= 0 or own is self.target:
                    # the caller's loop may not be running (any more)
                    c.nest = c.nest and 2
                c.t0 = c.t1 = c.val = c.exc = c.begun = c.done = None
                c.cancelled = False
                c.aw = self.build(c)
                self.calls.append(c)
                mine.append(c)
            progs.append(mine)
        self.left = len(progs)
        if case['state'] == 1:
            self.stopper, self.epoch0 = self.start()
            self.ready0.release()
        self.base = self.sim.now
        def guard(f):
            def g():
                try:
                    f()
                except BaseException as e:
                    self.errors.append(e)
                    raise
            return g
        self.begin_crowd()
        ts = [threading.Thread(target=guard(self.caller(i, p, owns[i])))
              for i, p in enumerate(progs)]
        ts.append(threading.Thread(target=guard(self.life)))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.end_crowd()

    # -- oracle ------------------------------------------------------------------
    def finish(self):
        case = self.case
        self.slack = sum(d for _, d in case.get('block', ())) / 1000 + \
            case.get('drag', 0) / 1000 * (2 + sum(map(len, case['callers'])))
        out = self.sim.run([('main', self.main)])
        for n, e in self.sim.root_errors():
            raise e
        for e in self.errors:
            if isinstance(e, RuntimeError) and 'running' in str(e):
                raise Violation(f'a loop was run by two threads: a caller '
                                f'could not run its own loop: {e!r}')
            if not isinstance(e, S.SimAbort):
                raise e
        if self.bad:
            raise Violation(self.bad[0])
        for c in self.calls:
            self.judge(c, out)
        if out.kind != 'ok':
            raise Violation(f'the program never ends: {out}')

    def steady(self, c):
        """Was the target run indefinitely from the call on?"""
        return self.case['state'] == 2 or any(
            a <= c.t0 + EPS and (b > self.rescued_or_end() - EPS)
            for a, b in self.runs)

    def rescued_or_end(self):
        return self.rescued if self.rescued is not None else self.sim.now

    def judge(self, c, out):
        if c.t0 is None:
            return
        end = c.t1 if c.t1 is not None else 1e9
        if self.closed is not None and c.t0 >= self.closed - EPS and \
                c.own is not self.target:
            if c.t0 > self.closed + EPS or self.closed < 0:
                if c.cancelled:
                    return
                if c.t1 is None or not isinstance(c.exc, RuntimeError):
                    raise Violation(f'{c!r} on a closed loop gave '
                                    f'{c.exc or c.val!r}')
                return
        if self.closed is not None and end >= self.closed - EPS:
            return
        if c.cancelled:
            return
        stopped = [a for a, b in self.stops
                   if a <= end + EPS and b >= c.t0 - EPS]
        if c.t1 is None or self.rescued is not None and \
                c.t1 >= self.rescued - EPS:
            # had not completed on its own
            if not stopped and (c.fn == 0 or self.steady(c)):
                raise Violation(f'{c!r} did not complete; its awaitable '
                                f'began at {c.begun} and completed at '
                                f'{c.done}; {out}')
            if c.t1 is None:
                if out.kind == 'ok':
                    raise Violation(f'{c!r} did not complete although its '
                                    f'loop was run again')
                return
        elif c.done is not None and c.t1 > max(
                c.done, c.t0) + EPS + self.slack and not (
                stopped and min(stopped) <= max(c.done, c.t0) + EPS) and (
                c.fn == 0 or self.steady(c)):
            raise Violation(f'{c!r} completed at t={c.t1:.4f}, its awaitable '
                            f'at t={c.done:.4f}')
        if c.done is None:
            raise Violation(f'{c!r} completed with {c.exc or c.val!r}; its '
                            f'awaitable did not')
        if c.raises is None:
            if c.exc is not None or c.val is not c.value:
                raise Violation(f'{c!r} gave {c.exc or c.val!r} instead of '
                                f'{c.value!r}')
        elif c.exc is not c.raises and not (
                c.out in (4, 5) and type(c.exc) is type(c.raises)
                and c.exc.args == c.raises.args):
            raise Violation(f'{c!r} gave {c.exc or c.val!r} instead of '
                            f'raising {c.raises!r}')


def run(case):
    w = World(case)
    w.finish()
    cl = [['idle', 'loop_in_thread', "caller's own", 'closed'][case['state']]]
    if len(case['callers']) > 1:
        cl.append('several callers')
    if max(w.crowd[0], w.crowd[1], w.crowd[2]) > 31:
        cl.append('crowd')
    if case.get('drag') or case.get('block'):
        cl.append('slow target')
    if case['life'] and case['state'] < 2:
        cl.append('life-cycle')
    if any(c.cancelled for c in w.calls):
        cl.append('caller gave up')
    if any(c.exc is not None for c in w.calls):
        cl.append('exception')
    if any(c.nest for c in w.calls):
        cl.append('nested')
    return cl, bool(w.calls) and (len(w.calls) > 1 or bool(case['life']))


def program(states, life, cancels=False, nest=False, callers=3, fns=(0,),
            preempt=4, crowd=None, slow=False):
    call = st.tuples(
        st.sampled_from([0, 0, 0, 0, 1, 2, 3, 5]),
        st.sampled_from(list(fns)),
        st.sampled_from([0, 0, 0, 1, 2, 3, 4]),
        st.sampled_from([-1, 0, 1, 1, 2, 3, 5, 8]),
        st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13,
                         14, 15, 16]),
        st.sampled_from([0, 0, 1, 2]) if nest else st.just(0),
        st.sampled_from([-1, -1, 0, 1, 2, 3]) if cancels else st.just(-1))
    return st.fixed_dictionaries({
        'drag': st.sampled_from([0, 1, 50, 1100, 10_000])
        if slow else st.just(0),
        'block': st.lists(st.tuples(
            st.integers(0, 12), st.sampled_from([1, 50, 2500, 40_000])),
            max_size=2) if slow else st.just([]),
        'state': st.sampled_from(list(states)),
        'callers': st.lists(st.lists(call, min_size=1, max_size=3),
                            min_size=1, max_size=callers),
        'life': st.lists(st.tuples(
            st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 8, 10]),
            st.sampled_from([0, 0, 1, 1, 2])), max_size=4)
        if life else st.just([]),
        'crowd': crowd or st.just([0, 0, 1]),
        'sched': sched_strategy(max_p=preempt)})


def sweep(case):
    """One preemption at every contended point of the unperturbed run."""
    base = dict(case, sched=dict(case['sched'], p=[], q=0))
    w = World(base)
    try:
        w.finish()
    except Violation:
        pass
    n = min(w.sim.cpoints, 400)
    for i in range(n):
        for tgt in (0,) if base['sched'].get('r') else (0, 1):
            yield dict(base, sched=dict(base['sched'], p=[[i, tgt]]))


def small():
    call = st.tuples(
        st.sampled_from([0, 0, 0, 1]), st.sampled_from([0, 0, 0, 1]),
        st.sampled_from([0, 0, 2]), st.sampled_from([-1, 0, 1, 2]),
        st.sampled_from([0, 1]), st.just(0), st.just(-1))
    return st.fixed_dictionaries({
        'state': st.sampled_from([0, 0, 0, 1]),
        'callers': st.lists(st.lists(call, min_size=1, max_size=1),
                            min_size=1, max_size=2),
        'life': st.sampled_from([[], [], [[0, 0]], [[1, 0]], [[0, 0], [1, 1]],
                                 [[0, 0], [1, 1], [1, 0]]]),
        'sched': sched_strategy(max_p=0)})


def campaigns(tier):
    return [
        Campaign('callers', run, strategy=program(
            (0, 0, 0, 1, 2, 3), False, fns=(0, 0, 0, 1)),
            quick=6000, thorough=200000,
            desc='several callers, one target, no life-cycle'),
        Campaign('life', run, strategy=program(
            (0, 0, 1), True, fns=(0, 0, 0, 1)), quick=5000,
            thorough=200000, desc='loop_in_thread and stop meanwhile'),
        Campaign('slow', run, strategy=program(
            (0, 0, 1, 2), True, fns=(0, 0, 0, 1), nest=True, slow=True),
            quick=1200, thorough=60000,
            desc='loops which are slow to start or blocked'),
        Campaign('crowd', run, strategy=program(
            (0, 0, 1, 2), False, nest=True, callers=2, preempt=0,
            crowd=st.sampled_from([
                [33, 0, 1], [0, 33, 1], [40, 5, 1], [0, 0, 34], [5, 5, 12],
                [20, 20, 1], [0, 0, 70], [3, 0, 5], [65, 0, 1]])),
            quick=150, thorough=5000,
            desc='dozens of other loops and of calls at once'),
        Campaign('nested', run, strategy=program(
            (0, 0, 1, 2), False, cancels=True, nest=True), quick=2000,
            thorough=80000, desc='nested calls, callers which give up'),
        Campaign('sweep', run, strategy=small(), sweep=sweep, quick=32,
                 thorough=2000, desc='every single preemption'),
    ]
