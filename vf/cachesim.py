"""
threadsafe_async_cache under generated callers, loops, life cycles and
schedules.  Shared by C01 (single flight), C05 (termination, promptness) and
C06 (own outcome only).

case = {'threads': [{'delay': ms, 'phases': [phase, ...], 'end': 0..2}, ...],
        'fn': [[dur, out, nest], ...], 'map': 0..5, 'val': 0..9,
        'args': 0..6, 'sched': ..}
map: 0 the default, 1 a mapping during whose operations threads may switch,
     2 one which retains nothing, 3 one which retains one entry, 4 one whose
     entries vanish once somebody has had a look, 5 two most recently used
args: what a key is, see World.args
val: what is computed, see World.func
phase = {'calls': [call, ...], 'run': ms or -1, 'gap': ms,
         'left': 0..1}
  call: [key, at, kind, arg, hops, later]: `at` ms after the phase began and
        another `hops` (0) iterations of the loop; kind 0 plain, 1
        task.cancel() after arg ms and `later` (0) iterations, 2 wait_for(arg ms), 3 two cancels
  run:  -1 the phase ends when its calls have; otherwise after that long,
        leaving the rest pending on a loop that then does not run for `gap`
  left: what happens to callers left pending: 0 every task of the loop is
        cancelled (as asyncio.run does), 1 only callers that are computing
  end:  0 cancel what is left, then close; 1 close; 2 abandon
fn: consumed by successive invocations: duration (ms; -1: none at all,
    0: sleep(0), -2 and below: that many of these), outcome (0 ok, 1 Exception, 2 KeyError, 3 TimeoutError,
    4 BaseException, 5 CancelledError, 6 ok with slow clean-up when
    cancelled, from 7 on see EXC), nest: for keys > 0, call the cached function for key - 1
"""
import asyncio as aio
import collections.abc
import concurrent.futures
import contextvars

from hypothesis import strategies as st

from . import sim as S
from . import target
from .engine import Violation, sched as sched_strategy

EPS = 1e-3
last = {}


class EBase(BaseException):
    pass


EXC = [aio.InvalidStateError, concurrent.futures.CancelledError, IndexError,
       StopAsyncIteration, AttributeError, OSError, LookupError, TypeError]


class Weird:
    """A value which could be mistaken for something else."""
    def __eq__(self, other):
        raise AssertionError('a value was compared')

    __hash__ = None

    def __bool__(self):
        raise AssertionError('the truth of a value was tested')

    def __await__(self):
        yield from ()
        return 'awaited value'

    def __call__(self):
        return 'called value'


class Inv:
    __slots__ = ('key', 'loop', 'epoch', 'call', 't0', 't1', 'exc', 'val',
                 'ok', 'end', 'ended_live')


class Call:
    __slots__ = ('id', 'key', 'loop', 't0', 't1', 'out', 'val', 'exc',
                 'cancels', 'task', 'invs', 'nested', 'thread')


class YMap(collections.abc.MutableMapping):
    """A retaining mapping during whose operations threads may switch."""

    def __init__(self):
        self.d = {}

    def _yp(self):
        t = S.me()
        if t is not None:
            t.sim.yp(t)

    def __getitem__(self, k):
        self._yp()
        v = self.d[k]
        self._yp()
        return v

    def __setitem__(self, k, v):
        self._yp()
        self.d[k] = v
        self._yp()

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        self._yp()
        return k in self.d


class Nothing(YMap):
    def __setitem__(self, k, v):
        self._yp()


class One(YMap):
    def __setitem__(self, k, v):
        self._yp()
        self.d.clear()
        self.d[k] = v
        self._yp()


class Fleeting(YMap):
    """Each entry vanishes once somebody has had a look at it."""

    def __getitem__(self, k):
        self._yp()
        v = self.d.pop(k)
        self._yp()
        return v

    def __contains__(self, k):
        self._yp()
        return self.d.pop(k, self) is not self


class Lru(YMap):
    def __getitem__(self, k):
        self._yp()
        v = self.d[k] = self.d.pop(k)
        self._yp()
        return v

    def __setitem__(self, k, v):
        self._yp()
        self.d.pop(k, None)
        self.d[k] = v
        while len(self.d) > 2:
            del self.d[next(iter(self.d))]
        self._yp()


MAPS = [YMap, Nothing, One, Fleeting, Lru]


class Coll:
    """An argument whose hash collides with all others of its kind."""

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return type(other) is Coll and self.n == other.n


#: all of these have the same hash
SAME_HASH = [-1, -2, -2 ** 61, -2 ** 61 - 1, -2 ** 62 + 1, -2 ** 62]
assert len({hash(x) for x in SAME_HASH}) == 1


def validate(case):
    """Shrinking may produce malformed cases: they must not run."""
    assert 0 <= case['val'] < 10 and 0 <= case['map'] < 6
    assert 0 <= case.get('args', 0) < 7
    for d, o, n in case['fn']:
        assert 0 <= o < 7 + len(EXC)
        d + n
    for t in case['threads']:
        t['delay'] + t['end']
        for ph in t['phases']:
            ph['run'] + ph['gap'] + ph['left']
            for call in ph['calls']:
                k, a, kind, arg = call[:4]
                assert kind != 2 or arg >= 0
                k + a
                assert all(h in range(100) for h in call[4:])


class World:
    def __init__(self, case, prop):
        validate(case)
        self.case = case
        self.prop = prop
        self.m = target.fresh('asyncio')
        self.sim = S.Sim(case['sched'], max_time=50_000)
        self.sim.hooks['loop_stopped'] = self.loop_stopped
        self.invs = []
        self.calls = []
        self.success = {}       # key -> Inv
        self.viol = []          # (props, message)
        self.runs = {}          # loop -> [[start, end or None], ...]
        self.stops = []         # (t, {keys being computed})
        self.cv = contextvars.ContextVar('call')
        self.keep = []
        kw = {}
        self.retains = case['map'] < 2
        self.how = case.get('args', 0)
        self.funcs = []
        for k in range(6 if self.how == 5 else 1):
            if case['map']:
                kw['cache'] = MAPS[case['map'] - 1]()
            self.funcs.append(self.m.threadsafe_async_cache(
                self.make(k), **kw))

    def make(self, k):
        async def func(*a, **named):
            return await self.func(self.key(k, a, named))
        return func

    def cached(self, key):
        a, named = self.args(key)
        return self.funcs[key if self.how == 5 else 0](*a, **named)

    def args(self, key):
        h = self.how
        if h == 0:
            return (key,), {}
        if h == 1:
            return (Coll(key),), {}
        if h == 2:
            return (), {'key': key}
        if h == 3:
            return tuple(range(key)), {}
        if h == 4:
            return (SAME_HASH[key],), {}
        if h == 5:
            return (), {}       # each key is a function of its own
        return (None,) * (key // 3), ({}, {'x': None}, {'y': None})[key % 3]

    def key(self, k, a, named):
        if self.how == 5:
            return k
        for n in range(6):
            if self.args(n) == (a, named):
                return n
        self.bad('C06', f'the function was called with {a!r}, {named!r}')
        return 0

    def bad(self, props, msg):
        self.viol.append((props, msg + f' @t={self.sim.now:.4f}'))

    # -- invocations -------------------------------------------------------
    def live(self, i):
        return (i.end is None and i.loop.is_running()
                and i.loop.epoch == i.epoch)

    def loop_stopped(self, loop):
        now = self.sim.now
        keys = set()
        for i in self.invs:
            if i.loop is loop and i.end is None and i.epoch == loop.epoch:
                i.end = now         # ended, by the property's definition
                keys.add(i.key)
        self.runs[loop][-1][1] = now
        self.stops.append((now, keys, loop))

    async def func(self, key):
        loop = aio.get_running_loop()
        i = Inv()
        i.key, i.loop, i.epoch = key, loop, loop.epoch
        i.call = self.cv.get(None)
        i.t0, i.t1, i.end = self.sim.now, None, None
        i.exc = i.val = None
        i.ok = False
        n = len(self.invs)
        for j in self.invs:
            if j.key == key and self.live(j):
                self.bad('C01', f'invocation {n} of key {key} began while '
                         f'another was in progress')
        if key in self.success and self.retains:
            self.bad('C01', f'key {key} was computed again after a '
                     f'successful computation')
        self.invs.append(i)
        if i.call is not None:
            i.call.invs.append(i)
        else:
            self.bad('C06', 'invocation outside of any call')
        fn = self.case['fn']
        dur, out, nest = fn[n % len(fn)] if fn else (0, 0, 0)
        try:
            if nest and key > 0:
                await self.call(key - 1, nested=True)
            if dur == 0:
                await aio.sleep(0)
            elif dur < -1:
                for _ in range(-dur):
                    await aio.sleep(0)
            elif dur > 0:
                try:
                    await aio.sleep(dur / 1000)
                except aio.CancelledError:
                    if out == 6:        # slow clean-up
                        await aio.sleep(0.003)
                    raise
            if out == 1:
                raise RuntimeError(f'inv {n}')
            if out == 2:
                raise KeyError(f'inv {n}')
            if out == 3:
                raise aio.TimeoutError(f'inv {n}')
            if out == 4:
                raise EBase(f'inv {n}')
            if out == 5:
                raise aio.CancelledError(f'inv {n}')
            if out > 6:
                raise EXC[out - 7](f'inv {n}')
            i.val = [lambda: ('v', key, n), lambda: None,
                     lambda: RuntimeError(f'returned {n}'), lambda: False,
                     Weird, lambda: aio.CancelledError(f'returned {n}'),
                     list, lambda: KeyError(key), lambda: RuntimeError,
                     lambda: 0][self.case['val']]()
            i.ok = True
            if self.live(i):
                self.success.setdefault(key, i)
            return i.val
        except BaseException as e:
            i.exc = e
            raise
        finally:
            i.t1 = self.sim.now
            if i.end is None:
                i.end = i.t1

    # -- callers -----------------------------------------------------------
    async def call(self, key, nested=False, c=None):
        if c is None:
            c = self.new_call(key, nested)
        c.t0 = self.sim.now
        c.loop = aio.get_running_loop()
        tok = self.cv.set(c)
        try:
            v = await self.cached(key)
            c.out, c.val = 'value', v
            return v
        except GeneratorExit:
            c.out = 'closed'
            raise
        except BaseException as e:
            c.exc = e
            c.out = 'exc'
            if not nested and isinstance(e, aio.CancelledError):
                raise
            if nested:
                raise
        finally:
            self.cv.reset(tok) if not isinstance(c.exc, GeneratorExit) \
                and c.out != 'closed' else None
            c.t1 = self.sim.now
            if c.out != 'closed':
                self.judge(c)

    def new_call(self, key, nested=False):
        c = Call()
        c.id, c.key, c.nested = len(self.calls), key, nested
        c.t0 = c.t1 = c.out = c.val = c.exc = c.task = c.loop = None
        c.cancels = []
        c.invs = []
        if nested:
            outer = self.cv.get(None)
            c.cancels = outer.cancels if outer else []
        self.calls.append(c)
        return c

    def judge(self, c):
        if c.out == 'value':
            s = self.success.get(c.key)
            if not self.retains:
                if not any(i.ok and i.key == c.key and i.val is c.val
                           for i in self.invs):
                    self.bad('C01 C06', f'call {c.id} of key {c.key} '
                             f'returned {c.val!r}, which was not computed')
                return
            if s is None or c.val is not s.val:
                own = [i for i in c.invs if i.ok]
                if s is None and own:
                    return      # computed on a loop that was stopped
                self.bad('C01 C06', f'call {c.id} of key {c.key} returned '
                         f'{c.val!r}, the computation gave '
                         f'{s.val if s else "nothing"!r}')
            return
        e = c.exc
        if any(i.exc is e for i in c.invs):
            return
        if isinstance(e, aio.CancelledError):
            if c.cancels and min(c.cancels) <= self.sim.now + 1e-9:
                return
            self.bad('C06', f'call {c.id} of key {c.key} was cancelled '
                     f'although nobody cancelled it')
            return
        self.bad('C06', f'call {c.id} of key {c.key} raised {e!r}, which no '
                 f'invocation it performed raised')

    async def caller(self, spec, c):
        key, at, kind, arg = spec[:4]
        hops, later = (list(spec[4:]) + [0, 0])[:2]
        if at > 0:
            await aio.sleep(at / 1000)
        loop = aio.get_running_loop()
        for _ in range(hops):
            await aio.sleep(0)
        if kind in (1, 3):
            task = aio.current_task()

            def cancel(hops=later):
                if hops:
                    loop.call_soon(cancel, hops - 1)
                elif not task.done():
                    c.cancels.append(self.sim.now)
                    task.cancel()
            loop.call_later(arg / 1000, cancel) if arg >= 0 else \
                loop.call_soon(cancel)
            if kind == 3:
                loop.call_later(arg / 1000 + .001, cancel)
            await self.call(key, c=c)
        elif kind == 2:
            c.cancels.append(self.sim.now + arg / 1000)
            try:
                await aio.wait_for(self.call(key, c=c), arg / 1000)
            except aio.TimeoutError:
                pass
        else:
            await self.call(key, c=c)

    # -- threads -----------------------------------------------------------
    def run_loop(self, loop, coro):
        self.runs.setdefault(loop, []).append([self.sim.now, None])
        return loop.run_until_complete(coro)

    def thread(self, spec):
        S._v_sleep(spec['delay'] / 1000) if spec['delay'] else None
        loop = aio.new_event_loop()
        aio.set_event_loop(loop)
        left = []         # [(task, call)]
        for ph in spec['phases']:
            mine = []

            async def main():
                for cs in ph['calls']:
                    c = self.new_call(cs[0])
                    c.task = loop.create_task(self.caller(cs, c))
                    self.keep.append(c.task)
                    mine.append((c.task, c))
                if ph['run'] < 0:
                    await aio.wait([t for t, _ in mine + left]) \
                        if mine + left else None
                else:
                    await aio.sleep(ph['run'] / 1000)
            self.run_loop(loop, main())
            left = [x for x in left + mine if not x[0].done()]
            if ph['gap']:
                S._v_sleep(ph['gap'] / 1000)
            if left:
                if ph['left'] == 0:
                    self.cancel_all(loop, left)
                    left = []
                else:
                    for t, c in left:
                        if any(i.t1 is None for i in self.all_invs(c)):
                            c.cancels.append(self.sim.now)
                            t.cancel()
        if spec['end'] == 0:
            self.cancel_all(loop, left)
        if spec['end'] < 2:
            loop.close()
        aio.set_event_loop(None)

    def all_invs(self, c):
        out = []
        for i in c.invs:
            out.append(i)
            for d in self.calls:
                if d.nested and d.cancels is c.cancels and d is not c:
                    out += d.invs
        return out

    def cancel_all(self, loop, left):
        tasks = aio.all_tasks(loop)
        if not tasks:
            self.run_loop(loop, loop.shutdown_asyncgens())
            return
        for t, c in left:
            if not t.done():
                c.cancels.append(self.sim.now)
        for t in tasks:
            t.cancel()
        self.run_loop(loop, self._gather(tasks))
        self.run_loop(loop, loop.shutdown_asyncgens())

    @staticmethod
    async def _gather(tasks):
        await aio.gather(*tasks, return_exceptions=True)

    # -- verdict -----------------------------------------------------------
    def finish(self):
        out = self.sim.run([(f'T{k}', lambda s=s: self.thread(s))
                            for k, s in enumerate(self.case['threads'])])
        last['cpoints'] = self.sim.cpoints
        if out.kind != 'ok':
            self.bad('C05', f'calls never finish: {out}')
        else:
            for n, e in self.sim.root_errors():
                # nothing of ours raises in the threads' top frames
                self.bad('C05 C06', f'{n} failed with {e!r}')
            for c in self.calls:
                if c.t0 is not None and c.t1 is None and not self.dead(c):
                    self.bad('C05', f'call {c.id} did not finish')
            self.idle()
        mine = [m for p, m in self.viol if self.prop in p]
        if mine:
            raise Violation(mine[0])
        return out

    def dead(self, c):
        r = self.runs.get(c.loop)
        return not r or r[-1][1] is not None or c.loop.is_closed()

    def idle(self):
        """Time a caller waits while nothing is being computed for it."""
        now = self.sim.now
        for c in self.calls:
            if c.t0 is None:
                continue
            end = c.t1 if c.t1 is not None else now
            wait = [(max(c.t0, a), min(end, b if b is not None else now))
                    for a, b in self.runs.get(c.loop, ())]
            wait = [(a, b) for a, b in wait if b > a]
            busy = []
            for i in self.invs:
                if i.key != c.key:
                    continue
                stop = i.t1 if i.t1 is not None else now
                for a, b in self.runs.get(i.loop, ()):
                    b = b if b is not None else now
                    a, b = max(a, i.t0), min(b, stop)
                    if b > a:
                        busy.append((a, b))
            for t, keys, loop in self.stops:
                if c.key in keys:
                    busy.append((t, t + 60))
            rest = sub(wait, busy)
            total = sum(b - a for a, b in rest)
            if total > EPS:
                msg = (f'call {c.id} of key {c.key} waited {total:.3f} s '
                       f'(from t={rest[0][0]:.4f}) while no computation of '
                       f'its key was in progress')
                props = 'C05'
                if any(d is not c and d.key == c.key and any(
                        abs(x - rest[0][0]) < .01 for x in d.cancels)
                        for d in self.calls):
                    props = 'C05 C06'
                self.bad(props, msg)
            # an own cancellation takes effect at once unless the caller
            # is itself inside the wrapped function
            if c.cancels and not c.nested and c.t1 is not None:
                x = min(c.cancels)
                if x >= c.t0 - 1e-9 and c.t1 > x + EPS:
                    lim = max([x] + [i.t1 if i.t1 is not None else now
                                     for i in c.invs])
                    ran = sum(min(c.t1, b if b is not None else now)
                              - max(lim, a)
                              for a, b in self.runs.get(c.loop, ())
                              if min(c.t1, b if b is not None else now)
                              > max(lim, a))
                    if ran > EPS:
                        self.bad('C05', f'call {c.id} was cancelled at '
                                 f't={x:.4f} but ended at t={c.t1:.4f}')


def sub(xs, ys):
    for c, d in ys:
        out = []
        for a, b in xs:
            if d <= a or c >= b:
                out.append((a, b))
                continue
            if a < c:
                out.append((a, c))
            if d < b:
                out.append((d, b))
        xs = out
    return xs


def runner(prop):
    def run(case):
        w = World(case, prop)
        w.finish()
        cl = [f'threads={len(case["threads"])}']
        if case['map'] > 1:
            cl.append('mapping which does not retain')
        if len(w.calls) > 20:
            cl.append('more than 20 calls')
        by = {}
        for c in w.calls:
            by.setdefault(c.key, []).append(c)
        shared = any(
            c.t0 is not None and d.t0 is not None
            and c.t0 <= (d.t1 if d.t1 is not None else 9e9)
            and d.t0 <= (c.t1 if c.t1 is not None else 9e9)
            for cs in by.values() for n, c in enumerate(cs) for d in cs[:n])
        if shared:
            cl.append('concurrent callers of a key')
        if any(c.loop is not d.loop for cs in by.values() for c in cs
               for d in cs if c.loop and d.loop):
            cl.append('several loops')
        mid = any(k for _, k, _ in w.stops)
        if mid:
            cl.append('loop stopped mid-computation')
        if any(c.out == 'exc' and isinstance(c.exc, aio.CancelledError)
               for c in w.calls):
            cl.append('cancelled call')
        if any(i.exc is not None for i in w.invs):
            cl.append('failed computation')
        if any(c.invs and len(c.invs) and d.invs and d is not c
               for cs in by.values() for c in cs for d in cs):
            cl.append('recomputation')
        if any(c.nested for c in w.calls):
            cl.append('nested call')
        if w.sim.preempted:
            cl.append('preempted')
        return cl, shared or mid
    return run


# -- generators ---------------------------------------------------------------
DUR = [-1, 0, 0, 1, 1, 2, 2, 5, 10, 30_000, 100_000]
AT = [0, 0, 0, 0, 1, 1, 2, 5, 59_999, 60_000, 61_000]


# -- many keys -------------------------------------------------------------
class Heap:
    """
    case = {'n': keys, 'w': width, 'fail': every so many keys fail at first,
            'dur': ms, 'threads': 1..3, 'map': 0 the default, 1 a dict,
            'sched'}
    Every thread asks for all keys, `w` of them at a time, thrice.
    """

    def __init__(self, case, prop):
        assert 1 <= case['n'] <= 4000 and 1 <= case['w']
        assert 0 <= case['fail'] and 0 <= case['dur'] <= 2
        assert 1 <= case['threads'] <= 3 and 0 <= case['map'] < 2
        self.case = case
        self.prop = prop
        self.m = target.fresh('asyncio')
        self.sim = S.Sim(case['sched'], max_time=50_000,
                         max_steps=10_000_000)
        self.cv = contextvars.ContextVar('call')
        self.viol = []
        self.busy = set()
        self.done = {}
        self.count = {}
        self.finished = 0
        self.f = self.m.threadsafe_async_cache(
            self.func, **({'cache': {}} if case['map'] else {}))

    def bad(self, prop, msg):
        if prop == self.prop:
            self.viol.append(msg + f' @t={self.sim.now:.4f}')

    async def func(self, key):
        c = self.case
        if key in self.busy:
            self.bad('C01', f'key {key} is computed twice at once')
        if key in self.done:
            self.bad('C01', f'key {key} was computed again after a '
                     f'successful computation')
        self.busy.add(key)
        n = self.count[key] = self.count.get(key, 0) + 1
        try:
            if c['dur']:
                await aio.sleep(c['dur'] / 1000 * (1 + key % 3))
            if n == 1 and c['fail'] and key % c['fail'] == 0:
                e = LookupError(key)
                self.cv.get().append(e)
                raise e
            self.done[key] = (key, n)
            return self.done[key]
        finally:
            self.busy.discard(key)

    def thread(self, k):
        c = self.case

        async def call(key):
            mine = []
            self.cv.set(mine)
            try:
                r = await self.f(key)
            except Exception as e:
                if not any(e is x for x in mine):
                    self.bad('C06', f'call of key {key} raised {e!r}, which '
                             f'no invocation it performed raised')
            else:
                if r is not self.done.get(key):
                    self.bad('C06', f'call of key {key} returned {r!r}')
            self.finished += 1

        async def main():
            keys = list(range(c['n']))
            for i in range(3):
                order = keys if (i + k) % 2 == 0 else keys[::-1]
                for j in range(0, c['n'], c['w']):
                    await aio.gather(*map(call, order[j:j + c['w']]))
        return lambda: aio.run(main())

    def finish(self):
        c = self.case
        out = self.sim.run([(f'T{k}', self.thread(k))
                            for k in range(c['threads'])])
        errs = self.sim.root_errors()
        if self.viol:
            raise Violation(self.viol[0])
        for n, e in errs:
            raise e
        want = 3 * c['n'] * c['threads']
        if self.prop == 'C05' and (out.kind != 'ok'
                                   or self.finished != want):
            raise Violation(f'{want - self.finished} of {want} calls never '
                            f'finish: {out}')


def heap_runner(prop):
    def run(case):
        w = Heap(case, prop)
        w.finish()
        cl = [f'{len(str(case["n"]))} digits of keys']
        if case['fail']:
            cl.append('failures')
        if case['threads'] > 1:
            cl.append('threads')
        return cl, case['n'] > 8
    return run


heaps = st.fixed_dictionaries({
    'n': st.one_of(st.integers(1, 300), st.sampled_from(
        [128, 129, 257, 513, 1001, 1030, 2100])),
    'w': st.sampled_from([1, 2, 7, 64, 300, 2000]),
    'fail': st.sampled_from([0, 1, 2, 3, 50]),
    'dur': st.sampled_from([0, 0, 1, 2]),
    'threads': st.integers(1, 3), 'map': st.integers(0, 1),
    'sched': sched_strategy(max_p=3, big=5000)})


def strategies(life=True, max_threads=3, nest=True, max_calls=3, keys=2,
               maps=(0, 0, 0, 1), ats=AT, durs=DUR):
    fn = st.lists(st.tuples(
        st.sampled_from(durs), st.sampled_from(
            [0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6] + [7 + n % len(EXC)
                                                 for n in range(3)]
            if max_calls < 4 else
            [0, 0, 0, 1, 2, 6] + list(range(7, 7 + len(EXC)))),
        st.sampled_from([0, 0, 0, 1] if nest else [0])), max_size=5)
    call = st.tuples(
        st.sampled_from([0] + list(range(keys))), st.sampled_from(ats),
        st.sampled_from([0, 0, 0, 1, 2, 3]),
        st.sampled_from([-1, 0, 1, 1, 2, 3, 5, 30_000]),
        st.sampled_from([0] * 12 + list(range(1, 9))),
        st.sampled_from([0] * 12 + list(range(1, 9))))
    call = call.map(lambda c: c if c[2] != 2 or c[3] >= 0
                    else (c[0], c[1], 2, 0, *c[4:]))
    phase = st.fixed_dictionaries({
        'calls': st.lists(call, max_size=max_calls),
        'run': st.sampled_from([-1, -1, -1, 0, 1, 2, 5, 12] if life
                               else [-1]),
        'gap': st.sampled_from([0, 0, 1, 3, 100, 61_000]),
        'left': st.integers(0, 1),
    })
    thread = st.fixed_dictionaries({
        'delay': st.sampled_from([0, 0, 0, 1, 2, 5]),
        'phases': st.lists(phase, min_size=1, max_size=2),
        'end': st.sampled_from([0, 0, 0, 1, 2]),
    })
    return st.fixed_dictionaries({
        'threads': st.lists(thread, min_size=1, max_size=max_threads),
        'fn': fn,
        'map': st.sampled_from(list(maps)),
        'args': st.sampled_from([0] * 6 + [1, 2, 3, 4, 5, 6]),
        'val': st.sampled_from([0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
        'sched': sched_strategy(),
    })


def _ph(calls, run=-1, gap=0, left=0):
    return {'calls': calls, 'run': run, 'gap': gap, 'left': left}


def _th(*phases, delay=0, end=0):
    return {'delay': delay, 'phases': list(phases), 'end': end}


def scenarios():
    """Programs whose schedules are swept exhaustively (one preemption)."""
    S0 = {'p': [], 'b': [], 'q': 0}
    P = [0, 0, 0, 0]           # a plain call of key 0 at once

    def c(threads, fn, map=0, args=0):
        return {'threads': threads, 'fn': fn, 'map': map, 'val': 0,
                'args': args, 'sched': S0}
    ok = [-1, 0, 0]
    yield c([_th(_ph([P])), _th(_ph([P]))], [ok])
    yield c([_th(_ph([P])), _th(_ph([P]))], [ok], 1)
    yield c([_th(_ph([P])), _th(_ph([P]))], [[2, 0, 0]])
    yield c([_th(_ph([P], end) if False else _ph([P]), end=1),
             _th(_ph([P]), end=1)], [[1, 0, 0]])
    yield c([_th(_ph([P])), _th(_ph([P]))], [[1, 1, 0], ok])
    yield c([_th(_ph([P])), _th(_ph([P]))], [[-1, 1, 0], [-1, 1, 0]])
    yield c([_th(_ph([P])), _th(_ph([P])), _th(_ph([P]))],
            [[1, 1, 0], [0, 0, 0]])
    yield c([_th(_ph([[0, 0, 1, 1]])), _th(_ph([P]))], [[5, 0, 0]])
    yield c([_th(_ph([[0, 0, 1, 1]])), _th(_ph([P]))], [[5, 6, 0]])
    yield c([_th(_ph([P])), _th(_ph([[0, 0, 2, 1], [0, 0, 0, 0]]))],
            [[5, 0, 0]])
    for end in (0, 1, 2):
        for gap in (0, 3, 61_000):
            for left in (0, 1):
                yield c([_th(_ph([P], 1, gap, left), end=end),
                         _th(_ph([P]), delay=0), _th(_ph([P]), delay=2)],
                        [[5, 0, 0], [5, 0, 0], ok])
    yield c([_th(_ph([P], 1, 3, 1), _ph([P])), _th(_ph([P]), delay=2)],
            [[5, 0, 0]])
    yield c([_th(_ph([P, P, [0, 1, 1, 0]])), _th(_ph([P, P]))],
            [[1, 1, 0], [1, 5, 0], [1, 0, 0]])
    yield c([_th(_ph([[1, 0, 0, 0]])), _th(_ph([P]))],
            [[1, 0, 1], [1, 0, 0]])


    yield c([_th(_ph([[2, 0, 0, 0]])), _th(_ph([P]))],
            [[1, 0, 1], [1, 0, 1], [1, 0, 0]], 0, 4)
    yield c([_th(_ph([[1, 0, 0, 0]])), _th(_ph([P]))],
            [[1, 0, 1], [1, 0, 0]], 0, 5)
    for m in (3, 4, 5):
        # entries come and go
        yield c([_th(_ph([P, P, [1, 2, 0, 0], [0, 3, 0, 0]])),
                 _th(_ph([P, [1, 1, 0, 0], [2, 2, 0, 0], [0, 3, 0, 0]]))],
                [[1, 0, 0]], m)


def hop_cases():
    """
    A computing caller and a waiting one, on one loop or on two; one of them
    is cancelled and another one arrives at every iteration of the loop around
    the end of the computation.
    """
    ok = [1, 0, 0]
    fns = [[ok], [[1, 1, 0], ok], [[1, 5, 0], ok], [[-3, 0, 0]],
           [[-3, 1, 0], ok], [[1, 6, 0]], [[-1, 1, 0], [-2, 0, 0]]]
    for fn in fns:
        base = 0 if fn[0][0] < 0 else 1
        for two in (0, 1):
            for victim in (0, 1, 2, 3):       # 1 computing 2 waiting 3 both
                for kind in (1, 2, 3):
                    if victim == 0 and kind > 1 or kind == 2 and not base:
                        continue
                    for later in range(8 if victim and kind != 2 else 1):
                        for hops in (-1, *range(8)):
                            def v(n):
                                return [0, 0, kind if victim & n else 0,
                                        base, 0, later]
                            calls = [v(1), v(2)]
                            third = [[0, base, 0, 0, max(0, hops), 0]] \
                                if hops >= 0 else []
                            ths = [_th(_ph(calls[:1])),
                                   _th(_ph(calls[1:] + third))] if two else [
                                _th(_ph(calls + third))]
                            yield {'threads': ths, 'fn': fn, 'map': 0,
                                   'val': 0, 'args': 0,
                                   'sched': {'p': [], 'b': [], 'q': 0}}


def pair_cases():
    """As hop_cases(), with two arrivals close to each other."""
    ok = [1, 0, 0]
    fns = [[ok], [[1, 1, 0], ok], [[1, 5, 0], ok], [[-3, 0, 0]],
           [[-3, 1, 0], ok], [[1, 1, 0], [-1, 1, 0], ok],
           [[-1, 1, 0], [-2, 0, 0]]]
    for fn in fns:
        base = 0 if fn[0][0] < 0 else 1
        for where in range(4):      # which of the two are on a second loop
            for victim in range(6):     # 2.. waiting 3 4 arrivals 5 both
                for gap in range(3):
                    for h in range(8):
                        for later in range(8 if victim else 1):
                            def v(n, hops):
                                hit = victim == n or \
                                    victim == 5 and n in (3, 4)
                                return [0, base if hops >= 0 else 0,
                                        int(hit), 0 if hops >= 0 else base,
                                        max(0, hops), later]
                            ths = [[v(1, -1), v(2, -1)], []]
                            ths[where & 1].append(v(3, h))
                            ths[where >> 1].append(v(4, h + gap))
                            yield {'threads': [_th(_ph(t)) for t in ths if t],
                                   'fn': fn, 'map': 0, 'val': 0, 'args': 0,
                                   'sched': {'p': [], 'b': [], 'q': 0}}


def sweep_cases(two=False):
    """Every single preemption (thinned pairs if two) of every scenario."""
    for base in scenarios():
        try:
            World(base, '-').finish()
        except Exception:
            pass
        n = last.get('cpoints', 0)
        nt = len(base['threads'])
        for b in [[x] for x in range(nt)] + [[0, 1], [1, 1], [0, 0, 1],
                                             [0, 0, 0, 1]]:
            for g in range(0, n + 10):
                for tgt in range(nt - 1):
                    yield dict(base, sched={
                        'p': [[g, tgt]], 'b': b, 'q': 0})
                if two:
                    for g2 in range(0, n, 5):
                        yield dict(base, sched={
                            'p': [[g, 0], [g2, 0]], 'b': b, 'q': 0})
        for r in S.PRIORITIES:
            for g in range(0, n + 10):
                yield dict(base, sched={'p': [[g, 0]], 'b': [], 'q': 0,
                                        'r': r})
                if two:
                    for g2 in range(0, n, 5):
                        yield dict(base, sched={
                            'p': [[g, 0], [g2, 0]], 'b': [], 'q': 0, 'r': r})


def fine_cases():
    """Switches within lines as well: every single one, two kinds of order."""
    for base in scenarios():
        base = dict(base, sched={'p': [], 'b': [], 'q': 0, 'f': 1})
        try:
            World(base, '-').finish()
        except Exception:
            pass
        n = last.get('cpoints', 0) + 20
        for g in range(n):
            for r in S.PRIORITIES[:2]:
                yield dict(base, sched={'p': [[g, 0]], 'b': [], 'q': 0,
                                        'r': r, 'f': 1})
            for b in ([0], [1], [2], [0, 1], [0, 0, 1]):
                yield dict(base, sched={'p': [[g, 0]], 'b': b, 'q': 0,
                                        'f': 1})
