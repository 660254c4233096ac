"""
to_async_iter / to_sync_iter over generated sources, consumers and schedules.

case = {'streams': [stream, ...], 'sched': ...}
stream = {'dir': 0 to_async_iter, 1 to_sync_iter, 2 sync(async(x)),
                 3 async(sync(x)),
          'src': kind, 'els': [element code, ...], 'delays': [ms, ...],
          'fail': -1 or how many elements precede the exception,
          'exc': class index, 'cons': [ms, ...], 'loop': 0|1|2,
          'cut': optional, [0, ms] the consumer is cancelled then, [1, ms]
                 each step has that timeout, [2, n] closed after n elements}
Streams of direction 0 and 3 are consumed concurrently on one loop next to a
ticker; each of the others has a thread of its own.
"""
import asyncio as aio
import collections
import itertools
import queue
import threading
import time

from hypothesis import strategies as st

from .. import sim as S
from .. import target
from ..engine import Campaign, Violation, NO_SCHED
from ..engine import sched as sched_strategy

EPS = 1e-4


class EBase(BaseException):
    pass


class Mine(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class SubTimeout(TimeoutError):
    pass


class Equal:
    """Equal to everything."""

    def __eq__(self, o):
        return True

    def __hash__(self):
        return 1


class NoEq:
    """Cannot be compared, tested for truth or hashed."""

    def __eq__(self, o):
        raise RuntimeError('compared')

    __ne__ = __bool__ = __len__ = __eq__
    __hash__ = None


_shared = object()
ELS = [
    lambda: 1, lambda: None, lambda: 0, lambda: False, lambda: '',
    lambda: (), lambda: [], lambda: _shared, lambda: _shared, Equal, NoEq,
    lambda: ValueError('element'), lambda: ValueError,
    lambda: StopIteration(3), lambda: StopAsyncIteration(),
    lambda: float('nan'), lambda: ..., lambda: queue.Empty(), object,
    lambda: aio.CancelledError(), lambda: NotImplemented, lambda: 1000003,
    lambda: queue.Queue,
]
EXCS = [
    lambda: ValueError('boom'), lambda: KeyError('k'),
    lambda: Mine(1, 2), lambda: EBase('base'), lambda: RuntimeError('boom'),
    lambda: OSError(5, 'io'), lambda: TimeoutError('t'),
    lambda: queue.Empty(), lambda: aio.QueueEmpty(), lambda: SubTimeout('s'),
    lambda: aio.InvalidStateError('x'), lambda: AttributeError('shutdown'),
    lambda: RuntimeError('Event loop is closed'), lambda: EOFError(),
    lambda: BrokenPipeError(32, 'p'), lambda: ExceptionGroup(
        'g', [ValueError(1)]),
    lambda: aio.CancelledError('c'),
]
SYNC = ['list', 'tuple', 'gen', 'iter', 'iterator', 'reiterable', 'map',
        'wait', 'inner', 'sized', 'hinted', 'sequence', 'both', 'awaitable',
        'context', 'listlike', 'chain', 'mapgen', 'oldseq', 'deque',
        'callable']
ASYNC = ['agen', 'aiterator', 'task', 'reiterable', 'both', 'separate',
         'sized', 'context', 'closing']


def mixin(kind, s):
    """Iterators (of either sort) are more than just that sometimes."""
    def boom(self, *a):
        raise AssertionError(f'{s!r}: not to be used')

    ns = {
        'sized': {'__len__': lambda self: len(s.els),
                  '__bool__': lambda self: False},
        'hinted': {'__length_hint__': lambda self: 10 ** 6,
                   '__contains__': boom},
        'sequence': {'__len__': lambda self: len(s.els), '__getitem__': boom,
                     '__contains__': boom, '__reversed__': boom,
                     'index': boom, 'count': boom},
        'awaitable': {'__await__': boom, '__call__': boom, 'send': boom,
                      'throw': boom},
        'context': {'__enter__': boom, '__exit__': boom, '__aenter__': boom,
                    '__aexit__': boom, 'read': boom, 'close': boom},
        'closing': {'aclose': boom, 'athrow': boom, 'asend': boom},
    }.get(kind, {})
    return type('Mixin', (), dict(ns))


# the rest of the elements of an endless source
MORE = object()
ENDLESS = ('gen', 'chain', 'mapgen', 'both', 'inner', 'listlike')


class Stream:
    def __init__(self, w, n, spec):
        self.w = w
        self.n = n
        self.spec = spec
        self.els = [ELS[e % len(ELS)]() for e in spec['els']] \
            * (spec.get('rep') or 1)
        f = spec['fail']
        self.fail = None
        if f >= 0:
            f = min(f * (spec.get('rep') or 1), len(self.els))
            self.els = self.els[:f]
            self.fail = EXCS[spec['exc'] % len(EXCS)]()
        kinds = SYNC if spec['dir'] in (0, 2) else ASYNC
        self.kind = kinds[spec['src'] % len(kinds)]
        if spec['dir'] in (0, 2, 3) and isinstance(
                self.fail, aio.CancelledError):
            # a cancellation cannot be told from one of the consumer there
            self.fail = ValueError('boom')
        if spec['dir'] in (0, 2) and self.kind in ('list', 'tuple', 'iter',
                                                   'map', 'deque'):
            self.fail = None
        self.endless = bool(spec.get('endless')) and 'cut' in spec and \
            self.kind in ENDLESS
        self.got = []
        self.end = None             # None, 'stop' or the exception
        self.extra = None
        self.pulled = 0
        self.loop = None

    def __repr__(self):
        d = ['to_async_iter', 'to_sync_iter', 'to_sync_iter(to_async_iter)',
             'to_async_iter(to_sync_iter)'][self.spec['dir'] % 4]
        return f'{d} of {self.kind} #{self.n}'

    def delay(self, i):
        d = self.spec['delays']
        if self.spec.get('rep') and i >= len(d):
            return 0
        return d[i % len(d)] / 1000 if d else 0

    # -- sources --------------------------------------------------------------
    def gen(self):
        inline = self.kind in ('reiterable', 'oldseq')
        for i, x in enumerate(self.els):
            d = self.delay(i)
            if d and not inline:
                time.sleep(d)
            self.pulled += 1
            yield x
        if self.endless and not inline:
            while True:
                time.sleep(0.015)
                self.pulled += 1
                yield MORE
        d = self.delay(len(self.els))
        if d and not inline:
            time.sleep(d)
        if self.fail is not None:
            raise self.fail

    def sync(self):
        k = self.kind
        if k == 'list':
            return list(self.els)
        if k == 'tuple':
            return tuple(self.els)
        if k == 'gen':
            return self.gen()
        if k == 'iter':
            return iter(list(self.els))
        if k == 'map':
            return map(lambda x: x, self.els)
        s = self
        if k == 'deque':
            return collections.deque(self.els)
        if k == 'chain':
            return itertools.chain([], self.gen(), ())
        if k == 'mapgen':
            return map(lambda x: x, self.gen())
        if k == 'callable':
            end = object()
            g = self.gen()

            def nxt():
                for x in g:
                    # comparing the elements may fail
                    return x
                return end

            if any(type(x) in (Equal, NoEq) for x in self.els):
                return g
            return iter(nxt, end)
        if k == 'oldseq':
            class Seq:
                def __init__(self):
                    self.g = s.gen()

                def __getitem__(self, i):
                    for x in self.g:
                        return x
                    raise IndexError(i)

                def __len__(self):
                    return 0
            return Seq()
        if k == 'listlike':
            class Li(list):
                def __iter__(self):
                    return self

                def __next__(self):
                    for x in g:
                        return x
                    raise StopIteration
            g = self.gen()
            return Li('abc')
        if k == 'both':
            class Both:
                def __iter__(self):
                    return self

                def __next__(self):
                    for x in g:
                        return x
                    raise StopIteration

                def __aiter__(self):
                    raise AssertionError('__aiter__ used')

                async def __anext__(self):
                    raise AssertionError('__anext__ used')
            g = self.gen()
            return Both()
        if k in ('iterator', 'sized', 'hinted', 'sequence', 'awaitable',
                 'context'):
            class It(mixin(k, s)):
                def __init__(self):
                    self.i = 0

                def __iter__(self):
                    return self

                def __next__(self):
                    d = s.delay(self.i)
                    if d:
                        time.sleep(d)
                    if self.i < len(s.els):
                        self.i += 1
                        return s.els[self.i - 1]
                    if s.fail is not None:
                        raise s.fail
                    raise StopIteration
            return It()
        if k == 'inner':
            # an iterator whose __iter__ is somebody else
            class Outer:
                def __init__(self):
                    self.it = s.gen()

                def __iter__(self):
                    return self.it

                def __next__(self):
                    return next(self.it)
            return Outer()
        if k == 'wait' and self.spec['dir'] == 0:
            # every element needs the event loop to run meanwhile
            def waiting():
                for i, x in enumerate(self.els):
                    e = threading.Event()
                    self.w.loop.call_soon_threadsafe(
                        self.w.loop.call_later, self.delay(i), e.set)
                    e.wait()
                    yield x
                if self.fail is not None:
                    raise self.fail
            return waiting()
        if k == 'wait':
            return self.gen()

        class Re:
            def __iter__(self):
                return s.gen()
        return Re()

    async def agen(self):
        self.where()
        for i, x in enumerate(self.els):
            d = self.delay(i)
            if d:
                await aio.sleep(d)
            elif i % 2:
                await aio.sleep(0)
            self.where()
            yield x
        d = self.delay(len(self.els))
        if d:
            await aio.sleep(d)
        if self.fail is not None:
            raise self.fail

    def where(self):
        if self.loop is not None and self.spec['dir'] == 1 and \
                aio.get_running_loop() is not self.loop:
            raise AssertionError(f'{self!r} iterated on another loop than '
                                 f'the one given')

    def asyn(self):
        k = self.kind
        s = self
        if k == 'agen':
            return self.agen()
        if k == 'separate':
            class Next:
                def __init__(self):
                    self.g = s.agen()

                async def __anext__(self):
                    return await self.g.__anext__()

            class Sep:
                def __aiter__(self):
                    return Next()
            return Sep()
        if k in ('aiterator', 'sized', 'context', 'closing', 'both'):
            class It(mixin(k, s)):
                i = 0

                def __aiter__(self):
                    return self

                async def __anext__(self):
                    d = s.delay(self.i)
                    if d:
                        await aio.sleep(d)
                    if self.i < len(s.els):
                        self.i += 1
                        return s.els[self.i - 1]
                    if s.fail is not None:
                        raise s.fail
                    raise StopAsyncIteration
            if k == 'both':
                def boom(self):
                    raise AssertionError('iterated synchronously')
                It.__iter__ = It.__next__ = boom
            return It()
        if k == 'task':
            # needs the tasks of its loop to run
            async def tasks():
                q = aio.Queue()

                async def feed():
                    for i, x in enumerate(self.els):
                        await aio.sleep(s.delay(i))
                        q.put_nowait(x)
                t = aio.get_running_loop().create_task(feed())
                for _ in range(len(self.els)):
                    yield await q.get()
                await t
                if self.fail is not None:
                    raise self.fail
            return tasks()

        class Re:
            def __aiter__(self):
                return s.agen()
        return Re()

    # -- consumers ------------------------------------------------------------
    def pause(self, i):
        d = self.spec['cons']
        if self.spec.get('rep') and i >= len(d):
            return 0
        return d[i % len(d)] / 1000 if d else 0

    async def consume_async(self):
        m = self.w.m
        if self.spec['dir'] == 0:
            it = m.to_async_iter(self.sync())
        else:
            it = m.to_async_iter(m.to_sync_iter(self.asyn()))
        i = 0
        how, at = self.spec.get('cut') or (-1, 0)
        cut = False
        if how == 0:
            def cancel(task):
                nonlocal cut
                if not self.end:
                    cut = True
                    task.cancel()
            self.w.loop.call_later(at / 1000, cancel, aio.current_task())
        try:
            while True:
                if how == 2 and i == at:
                    cut = True
                    await it.aclose()
                    self.end = 'cut'
                    break
                d = self.pause(i)
                if d:
                    await aio.sleep(d)
                i += 1
                try:
                    if how == 1:
                        x = await aio.wait_for(it.__anext__(), at / 1000)
                    else:
                        x = await it.__anext__()
                except StopAsyncIteration:
                    self.end = 'stop'
                    break
                except TimeoutError as e:
                    if e is self.fail or how != 1:
                        raise
                    self.end = 'cut'
                    break
                self.got.append(x)
        except BaseException as e:
            if isinstance(e, (S.SimAbort, GeneratorExit)):
                raise
            self.end = e
            if cut and isinstance(e, aio.CancelledError):
                self.end = 'cut'
        self.w.census(self)
        if self.end == 'cut':
            return
        try:
            x = await it.__anext__()
        except StopAsyncIteration:
            pass
        except BaseException as e:
            if isinstance(e, (S.SimAbort, GeneratorExit)):
                raise
            self.extra = e
        else:
            self.extra = x

    def consume_sync(self):
        m = self.w.m
        spec = self.spec
        src = self.asyn() if spec['dir'] == 1 else m.to_async_iter(self.sync())
        kw = {}
        if spec['loop']:
            self.loop = aio.new_event_loop()
            if spec['loop'] == 2:
                self.loop.run_until_complete(aio.sleep(0))
            kw['loop'] = self.loop
        it = iter(m.to_sync_iter(src, **kw))
        i = 0
        try:
            while True:
                d = self.pause(i)
                if d:
                    time.sleep(d)
                i += 1
                try:
                    x = next(it)
                except StopIteration:
                    self.end = 'stop'
                    break
                self.got.append(x)
        except BaseException as e:
            if isinstance(e, (S.SimAbort, GeneratorExit)):
                raise
            self.end = e
        self.w.census(self)
        try:
            self.extra = next(it)
        except StopIteration:
            pass
        except BaseException as e:
            if isinstance(e, (S.SimAbort, GeneratorExit)):
                raise
            self.extra = e

    # -- oracle ---------------------------------------------------------------
    def judge(self):
        a, b = self.got, self.els
        if self.end == 'cut':
            if self.endless:
                b = b + [MORE] * len(a)
            b = b[:len(a)]
        if len(a) != len(b) or any(x is not y for x, y in zip(a, b)):
            raise Violation(
                f'{self!r}: received {self.show(a)} instead of '
                f'{self.show(b)}, then {self.end!r}')
        if self.end == 'cut':
            pass
        elif self.fail is None:
            if self.end is None or type(self.end) is not str:
                raise Violation(f'{self!r}: ended with {self.end!r} after '
                                f'all {len(b)} elements')
        else:
            e = self.end
            # concurrent.futures rebuilds these two
            ok = e is self.fail or type(self.fail) in (
                TimeoutError, aio.CancelledError) and type(e) is type(
                self.fail) and (e.args == self.fail.args or isinstance(
                    e, aio.CancelledError))
            if not ok:
                raise Violation(f'{self!r}: ended with {e!r} instead of '
                                f'{self.fail!r} after {len(b)} elements')
        if self.extra is not None:
            raise Violation(f'{self!r}: went on with {self.extra!r} after '
                            f'its end')

    @staticmethod
    def show(xs):
        return [type(x).__name__ for x in xs]


class World:
    def __init__(self, case):
        for s in case['streams']:
            assert s['dir'] in (0, 1, 2, 3) and s['loop'] in (0, 1, 2)
            s['src'] + s['fail'] + s['exc'] + sum(s['els']) + \
                sum(s['delays']) + sum(s['cons'])
            assert all(d >= 0 for d in s['delays'] + s['cons'])
            if s.get('cut'):
                how, at = s['cut']
                assert s['dir'] == 0 and how in (0, 1, 2) and at >= 0
        self.case = case
        self.m = target.fresh('asyncio')
        size = sum(len(s['els']) * (s.get('rep') or 1) for s in case['streams'])
        self.sim = S.Sim(case['sched'], max_time=100,
                         max_steps=150_000 + 1000 * size)
        self.streams = [Stream(self, i, s)
                        for i, s in enumerate(case['streams'])]
        self.bad = []
        self.done = 0
        self.leftover = self.early = None

    def live(self):
        return [t for t in self.sim.threads
                if not t.root and t.state != S.FINISHED]

    def census(self, stream):
        self.done += 1
        if len(self.streams) == 1:
            # nothing else can have helpers
            self.alone = self.live()

    async def ticker(self):
        loop = aio.get_running_loop()
        t = loop.time()
        while not self.over:
            await aio.sleep(0.0005)
            n = loop.time()
            if abs(n - t - 0.0005) > EPS:
                self.bad.append(f'the event loop was blocked for '
                                f'{n - t - 0.0005:.4f} s at t={t:.4f}')
            t = n

    def loop_main(self):
        self.over = False
        self.loop = loop = aio.new_event_loop()
        aio.set_event_loop(loop)

        async def prog():
            tk = loop.create_task(self.ticker())
            await aio.gather(*(s.consume_async() for s in self.streams
                               if s.spec['dir'] in (0, 3)))
            self.over = True
            await tk
            if any(s.spec.get('cut') for s in self.streams):
                # some sources need the loop in order to end
                await aio.sleep(0.1)
                if all(s.spec['dir'] == 0 and max(
                        s.spec['delays'] or [0]) < 15 for s in self.streams):
                    # closing the loop would stop some of them as well
                    await aio.sleep(0.2)
                    self.early = self.live()
        loop.run_until_complete(prog())
        loop.close()

    def settle(self):
        while self.done < len(self.streams):
            time.sleep(0.05)
        time.sleep(1)
        self.leftover = self.live()

    def finish(self):
        roots = [(f's{s.n}', s.consume_sync) for s in self.streams
                 if s.spec['dir'] in (1, 2)]
        if len(roots) < len(self.streams):
            roots.append(('loop', self.loop_main))
        roots.append(('settle', self.settle))
        out = self.sim.run(roots)
        for n, e in self.sim.root_errors():
            raise e
        for s in self.streams:
            if s.end is not None:
                s.judge()
        if self.bad:
            raise Violation(self.bad[0])
        if out.kind != 'ok':
            raise Violation(f'iteration never ends: {out}')
        self.leftover = self.early or self.leftover
        if self.leftover:
            raise Violation(f'helper threads left running after the end of '
                            f'{self.streams}: {self.leftover}')


def run(case):
    w = World(case)
    w.finish()
    cl = set()
    for s in w.streams:
        cl.add(['to_async_iter', 'to_sync_iter', 'sync(async)',
                'async(sync)'][s.spec['dir']])
        cl.add(s.kind)
        if s.fail is not None:
            cl.add('failure')
        if s.end == 'cut':
            cl.add('cut short')
            if s.endless:
                cl.add('endless source')
        if s.spec['loop'] and s.spec['dir'] in (1, 2):
            cl.add('loop given')
    return sorted(cl), any(s.els or s.fail is not None for s in w.streams)


ms = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 5])


def stream(dirs, delays=True):
    return st.fixed_dictionaries({
        'dir': st.sampled_from(list(dirs)),
        'src': st.integers(0, 62),
        'els': st.lists(st.integers(0, len(ELS) - 1), max_size=6),
        'delays': st.lists(ms, max_size=4),
        'fail': st.sampled_from([-1, -1, 0, 1, 2, 3, 6]),
        'exc': st.integers(0, len(EXCS) - 1),
        'cons': st.lists(ms, max_size=4),
        'loop': st.sampled_from([0, 0, 1, 2]),
    })


long_stream = st.fixed_dictionaries({
    'dir': st.sampled_from([0, 0, 1, 1, 2, 3]),
    'src': st.integers(0, 62),
    'els': st.lists(st.integers(0, len(ELS) - 1), min_size=1, max_size=6),
    'rep': st.sampled_from([40, 100, 200, 500, 900]),
    'delays': st.lists(st.sampled_from([0, 0, 1, 50, 3000]), max_size=4),
    'fail': st.sampled_from([-1, -1, 0, 1, 2, 3, 6]),
    'exc': st.integers(0, len(EXCS) - 1),
    'cons': st.lists(st.sampled_from([0, 0, 1, 50, 3000]), max_size=4),
    'loop': st.sampled_from([0, 0, 1, 2]),
})


def program(dirs, n):
    return st.fixed_dictionaries({
        'streams': st.lists(stream(dirs), min_size=1, max_size=n),
        'sched': sched_strategy()})


def cutting(n):
    cut = st.tuples(st.integers(0, 2),
                    st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 11]))
    return st.fixed_dictionaries({
        'streams': st.lists(st.builds(
            lambda s, c, e: dict(s, cut=list(c), endless=e), stream((0,)),
            cut, st.sampled_from([0, 0, 1])),
            min_size=1, max_size=n),
        'sched': sched_strategy()})


def all_sources():
    """Every source x length x failure position, three paces."""
    for d in range(4):
        for src in range(len(SYNC if d in (0, 2) else ASYNC)):
            for n in range(7):
                for fail in range(-1, n + 1):
                    for pace in range(3):
                        for lp in ((0, 1) if d in (1, 2) else (0,)):
                            if src > 8 and (n + fail + src) % 3:
                                continue
                            yield {'streams': [{
                                'dir': d, 'src': src,
                                'els': [(7 * i + n + fail) % len(ELS)
                                        for i in range(n)],
                                'delays': [[], [1], [0, 2]][pace],
                                'fail': fail, 'exc': n * 3 + fail + 1,
                                'cons': [[], [0, 3], [1]][pace],
                                'loop': lp}], 'sched': NO_SCHED}


def sweep(case):
    base = dict(case, sched=dict(case['sched'], p=[], q=0))
    w = World(base)
    try:
        w.finish()
    except Violation:
        pass
    for i in range(min(w.sim.cpoints, 300)):
        yield dict(base, sched=dict(base['sched'], p=[[i, 0]]))


def campaigns(tier):
    return [
        Campaign('all', run, cases=all_sources, quick=None, thorough=None,
                 desc='sources x lengths 0..6 x failure positions x paces'),
        Campaign('random', run, strategy=program((0, 1), 1), quick=5000,
                 thorough=150000),
        Campaign('several', run, strategy=program((0, 0, 1, 2, 3), 3),
                 quick=2500, thorough=100000,
                 desc='concurrent streams and round trips'),
        Campaign('cut', run, strategy=cutting(2), quick=2000,
                 thorough=60000, desc='the consumer is cancelled, runs into '
                 'a timeout or stops early'),
        Campaign('long', run, strategy=st.fixed_dictionaries({
            'streams': st.lists(long_stream, min_size=1, max_size=2),
            'sched': sched_strategy()}), quick=100, thorough=3000,
            desc='thousands of elements'),
        Campaign('sweep', run, strategy=program((0, 1), 1), sweep=sweep,
                 quick=48, thorough=2500, desc='every single preemption'),
    ]
