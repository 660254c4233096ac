"""
AsyncBackgroundBatcher under generated calls, cancellations, batch function
behaviours and timings.  Shared by C04, C09, C10 and C11.

case = {'size', 'conc', 'bt': ms, 'ret': ms, 'form': 0..2, 'calls': [...],
        'batches': [...], 'sizes': [[at ms, size], ...], 'cycle': bool,
        'bulk': [[at ms, first key, count, spacing ms], ...],
        'names': [indices into NAMES, to be used as the first keys]}
cycle: the batches repeat (else any further ones are as DEFAULT)
bulk:  further calls, each with the next key
call  = [at ms, key, how, cancel, ticks, cdelay, again, hops]
  again (optional): the same task calls that often once more, at once
  hops (optional): so many iterations of the loop later
  key:  index into KEYS; how: 0 default key, 1 explicit key, 2 plain argument
  cancel: 0 no, 1 task.cancel(), 2 wait_for(), 3 cancelled twice, after
  cdelay ms (and, for 1, `ticks` more loop iterations)
batch = {'pre', 'gap', 'post': ms (-1: no suspension, less: so many hops), 'rot', 'rev',
         'out': [code, ...], 'raise': n or -1, 'exc': class index,
         'kind': 0 generator, 1 iterator object, 2 raises when called
                 (if raise is 0)}
  out:  outcome of the i-th item, cyclic: 0 value, 1 Exception instance,
        2 None, 3 an exception class, 4 omitted, 5 twice, 6 preceded by an
        unknown key, 7 StopIteration instance, 8 0, from 9 on see odd()
  raise: raise after that many yields
"""
import asyncio as aio

from hypothesis import strategies as st

from . import sim as S
from . import target
from .engine import Violation

EPS = 1e-4
KEYS = ['1', 'a', '', '2', 'key', 'None', '1.0', ' ', 'b', 'c', 'd', 'e',
        'f', 'g', 'h', 'i']
# alike, but not the same (case['names'] picks from these instead)
NAMES = ['a', 'A', ' a', 'a ', 'a\n', 'a\0', 'a\0b', '\xe1', 'a\u0301', 'aa',
         'x' * 300, 'x' * 300 + 'y', 'x' * 300 + 'z', 'y' + 'x' * 300,
         'z' + 'x' * 300, 'x' * 5000, 'x' * 70000, '0', '00', '0.0', '-0', '',
         'False', 'None', '{}', '%s', "'a'", '\ud800', '\ufeffa', 's',
         '\u017f', 'ss', '\xdf', '\uff41', '1_0', '10', '1', ' 1']


class EBase(BaseException):
    pass


EXC = [RuntimeError, KeyError, aio.TimeoutError, ValueError, EBase,
       aio.CancelledError, LookupError, StopAsyncIteration, StopIteration]


class EFalse(ValueError):
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


class Weird:
    """A value which could be mistaken for something else."""
    def __init__(self, *a):
        self.a = a

    def __eq__(self, other):
        raise AssertionError('a value was compared')

    __hash__ = None

    def __bool__(self):
        raise AssertionError('the truth of a value was tested')

    def __await__(self):
        yield from ()
        return 'awaited value'

    def __call__(self):
        return 'called value'

    def __iter__(self):
        return iter(('inside', 'a value'))


def odd(o, *a):
    return [
        lambda: EBase(*a), lambda: KeyError(*a),
        lambda: aio.CancelledError(*a), lambda: aio.TimeoutError(*a),
        lambda: aio.InvalidStateError(*a), lambda: EFalse(*a),
        lambda: Weird(*a), lambda: IndexError(*a),
        lambda: ExceptionGroup('x', [ValueError(*a)]),
        lambda: StopAsyncIteration(*a), lambda: [], lambda: False,
        lambda: GeneratorExit(*a), lambda: RuntimeError(*a),
        lambda: aio.QueueEmpty(*a), lambda: OSError(*a),
        lambda: Exception(*a), lambda: AttributeError(*a),
        lambda: aio.CancelledError, lambda: {}, lambda: TypeError(*a),
    ][o - 9]()


NODD = 21


class Arg:
    def __init__(self, key):
        self.key = key
        self.call = None

    def __str__(self):
        return self.key

    # only the key counts: arguments may be unhashable and all alike
    def __eq__(self, other):
        return isinstance(other, Arg) or NotImplemented

    __hash__ = None

    def __repr__(self):
        return f'Arg({self.key!r})'


class Call:
    __slots__ = ('n', 'key', 'arg', 't0', 'seq', 't1', 'out', 'val', 'exc',
                 'cancels', 'req', 'prev')


class Batch:
    __slots__ = ('n', 'items', 't0', 't1', 'yields', 'exc', 'exc_t', 'size',
                 'dirty')


def validate(case):
    case['size'] + case['conc'] + case['bt'] + case['ret'] + case['form']
    assert case['size'] > 0 and case['conc'] > 0 and case['bt'] >= 0
    assert case['ret'] >= 0
    for at, key, n, gap in case.get('bulk', ()):
        assert at >= 0 and gap >= 0 and 0 <= n <= 2000
        key + 0
    for at, key, how, cancel, ticks, cd, *again in case['calls']:
        at + key + how + cancel + ticks + cd + sum(again)
        assert sum(again) <= 100 and len(again) < 3 and min([0] + again) == 0
        assert cd >= 0 and at >= 0
    for b in case['batches']:
        b['pre'] + b['gap'] + b['post'] + b['rot'] + b['rev'] + b['raise'] \
            + b['exc'] + sum(b['out']) + b.get('kind', 0)
        assert all(0 <= o < 9 + NODD for o in b['out'])
    for a, s in case['sizes']:
        assert s > 0 and a >= 0
    for n in case.get('names', ()):
        assert 0 <= n < len(NAMES)


DEFAULT = {'pre': 1, 'gap': -1, 'post': -1, 'rot': 0, 'rev': 0, 'out': [],
           'raise': -1, 'exc': 0}


class World:
    def __init__(self, case, prop):
        validate(case)
        self.case = case = dict(case)
        case['calls'] = case['calls'] + [
            [at + i * gap, key + i, 0, 0, 0, 0]
            for at, key, n, gap in case.get('bulk', ()) for i in range(n)]
        self.prop = prop
        self.m = target.fresh('asyncio')
        self.sim = S.Sim({}, max_time=50_000)
        self.calls = []
        self.batches = []
        self.active = 0
        self.active_log = [(0.0, 0)]
        self.viol = []
        self.seq = 0
        self.settled = False
        self.size_log = [(-1.0, case['size'])]

    def bad(self, props, msg):
        self.viol.append((props, msg + f' @t={self.sim.now:.4f}'))

    def func(self, items):
        # called synchronously when the batch is handed over
        b = Batch()
        b.n = len(self.batches)
        try:
            b.items = [(k, a) for k, a in items]
        except Exception as e:
            self.bad('C04 C10', f'batch function received {items!r}: {e!r}')
            b.items = []
        b.t0, b.t1 = self.sim.now, None
        b.yields, b.exc, b.exc_t = {}, None, None
        b.dirty = False
        self.batches.append(b)
        if not b.items:
            self.bad('C10', 'the batch function was given an empty batch')
        keys = [k for k, _ in b.items]
        if len(set(keys)) != len(keys):
            self.bad('C11 C09', f'batch {b.n} carries a key twice: {keys}')
        bs = self.case['batches']
        n = b.n % len(bs) if bs and self.case.get('cycle') else b.n
        spec = bs[n] if n < len(bs) else DEFAULT
        kind = spec.get('kind', 0)
        if kind == 2 and spec['raise'] == 0:
            e = EXC[spec['exc'] % len(EXC)](f'batch {b.n}')
            b.exc, b.exc_t, b.t1 = e, self.sim.now, self.sim.now
            raise e
        g = self.gen(b, spec)
        if kind != 1:
            return g

        class Iter:
            def __aiter__(self):
                return self

            def __anext__(self):
                return g.__anext__()
        return Iter()

    def setactive(self, d):
        self.active += d
        self.active_log.append((self.sim.now, self.active))

    async def gen(self, b, spec):
        self.setactive(1)
        if self.active > self.case['conc']:
            self.bad('C10', f'{self.active} executions in progress at once')
        try:
            await self.pause(spec['pre'])
            plan = list(b.items)
            if spec['rev']:
                plan.reverse()
            if plan:
                r = spec['rot'] % len(plan)
                plan = plan[r:] + plan[:r]
            n = 0
            out = spec['out']
            for i, (k, a) in enumerate(plan):
                if n == spec['raise']:
                    break
                o = out[i % len(out)] if out else 0
                if o == 4:
                    continue
                if i:
                    await self.pause(spec['gap'])
                if o == 6:
                    b.dirty = True
                    yield 'no such key', ('val', 'no such key', b.n)
                for rep in range(2 if o == 5 else 1):
                    v = (ValueError('val', k, b.n) if o == 1 else None
                         if o == 2 else ValueError if o == 3 else
                         StopIteration('val', k, b.n) if o == 7 else
                         0 if o == 8 else odd(o, 'val', k, b.n) if o > 8
                         else ('val', k, b.n, rep))
                    b.yields.setdefault(k, []).append((self.sim.now, v))
                    if rep:
                        b.dirty = True
                    yield k, v
                n += 1
            if spec['raise'] >= 0:
                e = EXC[spec['exc'] % len(EXC)](f'batch {b.n}')
                b.exc, b.exc_t = e, self.sim.now
                raise e
            await self.pause(spec['post'])
        finally:
            self.setactive(-1)
            b.t1 = self.sim.now

    @staticmethod
    async def pause(ms):
        if ms == 0:
            await aio.sleep(0)
        elif ms < -1:
            for _ in range(-ms):
                await aio.sleep(0)
        elif ms > 0:
            await aio.sleep(ms / 1000)

    async def call(self, c, how):
        c.t0 = self.sim.now
        self.seq += 1
        c.seq = self.seq
        try:
            if how == 1:
                c.val = await self.batcher(c.arg, key=c.key)
            else:
                c.val = await self.batcher(c.arg)
            c.out = 'value'
        except BaseException as e:
            c.exc = e
            c.out = 'exc'
            if isinstance(e, aio.CancelledError) and c.cancels:
                raise
        finally:
            c.t1 = self.sim.now

    async def caller(self, c, spec):
        at, key, how, cancel, ticks, cd, *again = spec
        loop = aio.get_running_loop()
        if cancel == 2:
            c.cancels.append(self.sim.now + cd / 1000)
            try:
                await aio.wait_for(self.call(c, how), cd / 1000)
            except aio.TimeoutError:
                pass
            return
        if cancel in (1, 3):
            task = aio.current_task()

            async def canceller():
                await aio.sleep(cd / 1000)
                for _ in range(ticks):
                    await aio.sleep(0)
                if not task.done():
                    c.cancels.append(self.sim.now)
                    task.cancel()
                if cancel == 3:
                    await aio.sleep(0)
                    if not task.done():
                        task.cancel()
            loop.create_task(canceller())
        await self.call(c, how)
        for _ in range(sum(again[:1])):
            c = self.new(spec, c)
            await self.call(c, how)

    def new(self, spec, prev=None):
        c = Call()
        c.n = len(self.calls)
        names = self.case.get('names') or ()
        if spec[1] < len(names):
            c.key = NAMES[names[spec[1]]]
        else:
            c.key = KEYS[spec[1]] if spec[1] < len(KEYS) else f'k{spec[1]}'
        c.arg = Arg(c.key)
        if spec[2] == 2:
            # a plain argument whose default key is its text
            c.arg = {'1': 1, '2': 2, 'None': None,
                     '1.0': 1.0}.get(c.key, c.key)
        c.t0 = c.t1 = c.out = c.val = c.exc = c.req = None
        c.seq = 0
        c.prev = prev
        c.cancels = [] if prev is None else prev.cancels
        if spec[2] == 1:
            c.arg = Arg('decoy')
        if type(c.arg) is Arg:
            c.arg.call = c
        self.calls.append(c)
        return c

    def main(self):
        case = self.case
        loop = aio.new_event_loop()
        aio.set_event_loop(loop)
        kw = dict(max_batch_size=case['size'],
                  max_concurrent_batches=case['conc'],
                  batch_timeout=case['bt'] / 1000,
                  retention_timeout=case['ret'] / 1000)

        async def program():
            if case['form'] == 1:
                self.batcher = self.m.async_background_batcher(
                    self.func, **kw)
            else:
                self.batcher = self.m.AsyncBackgroundBatcher(self.func, **kw)
            tasks = []

            def start(spec, hops=0):
                if hops:
                    loop.call_soon(start, spec, hops - 1)
                    return
                c = self.new(spec)
                tasks.append(loop.create_task(self.caller(c, spec)))
            last = 0
            t0 = self.sim.now
            for spec in case['calls']:
                last = max(last, spec[0])
                hops = spec[7] if len(spec) > 7 else 0
                if spec[0] == 0:
                    start(spec, hops)
                else:
                    loop.call_at(t0 + spec[0] / 1000, start, spec, hops)
            if case['form'] != 1:
                for at, size in case['sizes']:
                    def setsize(size=size):
                        self.batcher.max_batch_size = size
                        self.size_log.append((self.sim.now, size))
                    loop.call_at(t0 + at / 1000, setsize)
            await aio.sleep(last / 1000 + 3000)
            self.settled = True
            # "keeps serving later calls afterwards"
            spec = [0, 1, 1, 0, 0, 0]
            start(spec)
            await aio.sleep(1000)
            start(spec)
            await aio.sleep(1000)
        loop.run_until_complete(program())
        loop.close()

    def finish(self):
        out = self.sim.run([('main', self.main)])
        for n, e in self.sim.root_errors():
            raise e
        if out.kind != 'ok':
            self.bad('C04 C09 C10 C11', f'the program never ends: {out}')
        else:
            self.outcomes()
            self.limits()
            self.retention()
        mine = [m for p, m in self.viol if self.prop in p]
        if mine:
            raise Violation(mine[0])

    # -- C04, C09 ------------------------------------------------------------
    def outcomes(self):
        cancelled_any = any(c.cancels for c in self.calls)
        props = 'C04 C09' if cancelled_any else 'C04'
        for c in self.calls:
            if not c.seq:
                continue        # cancelled before it could even call
            who = f'call {c.n} (key {c.key!r} at t={c.t0:.4f})'
            if c.t1 is None:
                self.bad(props, f'{who} never completed')
                continue
            mine = [b for b in self.batches
                    if any(k == c.key for k, _ in b.items)
                    and b.t0 <= c.t1 + EPS]
            if c.out == 'value':
                for b in mine:
                    if any(v is c.val for _, v in b.yields.get(c.key, ())):
                        break
                else:
                    self.bad(props, f'{who} returned {c.val!r}, which was '
                             f'not yielded for its key')
                if isinstance(c.val, Exception):
                    self.bad(props, f'{who} returned {c.val!r}, which was '
                             f'to be raised')
                continue
            e = c.exc
            if isinstance(e, aio.CancelledError) and any(
                    x <= c.t1 + 1e-9 for x in c.cancels):
                continue
            ok = False
            for b in mine:
                ys = b.yields.get(c.key, ())
                if isinstance(e, Exception) and any(v is e for _, v in ys):
                    ok = True
                if any(isinstance(v, StopIteration) for _, v in ys) and \
                        isinstance(e, Exception):
                    ok = True
                if not ys and b.exc is not None and (
                        e is b.exc or (type(e) is type(b.exc)
                                       and e.args == b.exc.args)
                        or isinstance(b.exc, aio.CancelledError)
                        or isinstance(b.exc, (StopAsyncIteration,
                                              StopIteration))):
                    ok = True
                if not ys and b.exc is None and b.t1 is not None and \
                        isinstance(e, Exception) and not self.foreign(e, c):
                    ok = True       # omitted
                if b.dirty and not ys and not self.foreign(e, c):
                    ok = True       # an unknown or repeated key
            if not ok:
                self.bad(props, f'{who} raised {e!r}; the batches with its '
                         f'key gave '
                         f'{[(b.n, b.yields.get(c.key), b.exc) for b in mine]}')

    def foreign(self, e, c):
        """Is e something that was yielded for another key?"""
        return any(v is e for b in self.batches for k, ys in b.yields.items()
                   if k != c.key for _, v in ys)

    # -- C10 -----------------------------------------------------------------
    def limits(self):
        T = self.case['bt'] / 1000
        for b in self.batches:
            first = None
            lim = self.case['size']
            if b.items:
                c0 = self.caller_of(b.items[0][1])
                t = c0.t0 if c0 else 0.0
                before = [s for x, s in self.size_log if x <= t + EPS][-1:]
                lim = max(before + [s for x, s in self.size_log
                                    if t - EPS <= x <= b.t0 + EPS])
                first = t
            if len(b.items) > lim:
                self.bad('C10', f'batch {b.n} has {len(b.items)} items, the '
                         f'limit is {lim}')
            b.size = lim
            del first
        if any(c.cancels for c in self.calls) or any(
                b.dirty for b in self.batches):
            return
        work = []            # (call, batch) in hand-over order
        for b in self.batches:
            for k, a in b.items:
                c = self.caller_of(a)
                if c is None:
                    return
                work.append((c, b))
        handed = {k for b in self.batches for k, _ in b.items}
        for c in self.calls:
            if c.seq and c.key not in handed:
                self.bad('C10', f'call {c.n} (key {c.key!r} at t={c.t0:.4f}) '
                         f'was never handed over')
        seqs = [c.seq for c, _ in work]
        if seqs != sorted(seqs):
            self.bad('C10', f'items were handed over in the order of calls '
                     f'{[c.n for c, _ in work]}: not their arrival order')
            return
        changing = len(self.size_log) > 1
        for (c, b), (d, b2) in zip(work, work[1:]):
            gap = d.t0 - c.t0
            if gap < T - EPS and b is not b2 and len(b.items) < b.size and \
                    not changing:
                self.bad('C10', f'calls {c.n} and {d.n} arrived {gap:.4f} s '
                         f'apart but batch {b.n} was not full '
                         f'({len(b.items)} of {b.size})')
        for b in self.batches:
            due = max(self.caller_of(a).t0 for _, a in b.items) + T \
                if b.items else b.t0
            free = self.free_between(due, b.t0)
            if free > EPS:
                self.bad('C10', f'batch {b.n} was due at t={due:.4f} but was '
                         f'handed over at t={b.t0:.4f} although a slot was '
                         f'free for {free:.4f} s')

    def caller_of(self, arg):
        return arg.call if type(arg) is Arg else None

    def free_between(self, a, b):
        tot = 0.0
        log = self.active_log + [(b, 99)]
        for (t, n), (u, _) in zip(log, log[1:]):
            if n < self.case['conc']:
                tot += max(0.0, min(u, b) - max(t, a))
        return tot

    # -- C11 -----------------------------------------------------------------
    def retention(self):
        ret = self.case['ret'] / 1000
        by = {}
        for c in sorted(self.calls, key=lambda c: c.seq):
            if c.seq:
                by.setdefault(c.key, []).append(c)
        for b in self.batches:
            for k, a in b.items:
                if k not in by:
                    self.bad('C11', f'batch {b.n} carries key {k!r}, which '
                             f'nobody asked for')
        for key, calls in by.items():
            apps = []
            for b in self.batches:
                if b.dirty:
                    apps = None
                    break
                if any(k == key for k, _ in b.items):
                    ys = b.yields.get(key)
                    end = ys[0][0] if ys else b.exc_t if b.exc is not None \
                        else b.t1
                    apps.append((b, end))
            if apps is None:
                continue
            reqs = []          # [[calls], ...]
            sure = True
            for c in calls:
                cur = len(reqs) - 1
                if cur < 0:
                    reqs.append([c])
                    continue
                if cur >= len(apps):
                    # nothing was computed for an earlier request
                    if all(x.cancels for x in reqs[cur]):
                        sure = False
                    break
                b, end = apps[cur]
                if end is None:
                    break
                if all(x.cancels for x in reqs[cur]) and \
                        c.t0 > min(min(x.cancels) for x in reqs[cur]) - EPS:
                    sure = False    # nobody may be waiting any more
                    break
                lim = end + ret
                if not ret and c.prev is reqs[cur][0] and not c.cancels:
                    # the original caller, once it has been answered
                    reqs.append([c])
                elif c.t0 < lim - EPS:
                    reqs[cur].append(c)
                elif c.t0 > lim + EPS:
                    reqs.append([c])
                elif c.out is None or c.cancels or type(c.arg) is not Arg:
                    sure = False
                    break
                elif any(a is c.arg for b2, _ in apps for _, a in b2.items):
                    reqs.append([c])
                else:
                    reqs[cur].append(c)
            # freshness holds for every call in any case
            for c in calls:
                if c.out == 'value' or c.out == 'exc' and not c.cancels:
                    if not any(self.from_batch(c, b) and (
                            end is None or c.t0 <= end + ret + EPS)
                            for b, end in apps) and any(
                            self.from_batch(c, b) for b, _ in apps):
                        self.bad('C11', f'call {c.n} of key {key!r} at '
                                 f't={c.t0:.4f} received a result older than '
                                 f'the retention window')
            if not sure:
                continue
            live = [r for r in reqs]
            if len(apps) != len(live) and not (
                    len(apps) < len(live) and all(
                        x.cancels for x in live[-1])):
                self.bad('C11', f'key {key!r} was computed {len(apps)} times '
                         f'(batches {[(b.n, b.t0) for b, _ in apps]}) for '
                         f'calls at {[round(c.t0, 4) for c in calls]}, '
                         f'expected {len(live)}')
                continue
            for r, (b, end) in zip(live, apps):
                a = [a for k, a in b.items if k == key][0]
                if a is not r[0].arg:
                    self.bad('C11', f'batch {b.n} carries {a!r} for key '
                             f'{key!r}, not the argument of the original '
                             f'request')
                for c in r:
                    if c.cancels or c.out is None:
                        continue
                    if not self.from_batch(c, b):
                        self.bad('C11', f'call {c.n} of key {key!r} at '
                                 f't={c.t0:.4f} did not receive the outcome '
                                 f'of the pending or retained request')
                same = [c for c in r if c.out == 'exc' and not c.cancels]
                if any(type(c.exc) is not type(same[0].exc) for c in same):
                    self.bad('C11', f'callers of key {key!r} received '
                             f'different outcomes')

    def from_batch(self, c, b):
        """Could this be the outcome batch b produced for the call's key?"""
        ys = b.yields.get(c.key)
        if c.out == 'value':
            return bool(ys) and any(v is c.val for _, v in ys)
        if c.out == 'exc':
            if ys:
                return any(v is c.exc or isinstance(v, StopIteration)
                           for _, v in ys)
            if b.exc is not None:
                return c.exc is b.exc or type(c.exc) is type(b.exc) or \
                    not isinstance(b.exc, (RuntimeError, KeyError,
                                           ValueError, LookupError))
            return not self.foreign(c.exc, c)
        return False


def runner(prop):
    def run(case):
        w = World(case, prop)
        w.finish()
        cl = []
        real = w.calls[:-2]
        if len(w.batches) > 3:
            cl.append('several batches')
        keys = [c.key for c in real]
        if len(set(keys)) < len(keys):
            cl.append('shared keys')
        if any(c.cancels and c.out == 'exc' for c in real):
            cl.append('cancelled call')
        if any(len(b.items) == b.size for b in w.batches):
            cl.append('full batch')
        if max(n for _, n in w.active_log) > 1:
            cl.append('concurrent batches')
        if any(b.exc is not None for b in w.batches):
            cl.append('batch raised')
        if any(k not in b.yields for b in w.batches for k, _ in b.items
               if b.exc is None):
            cl.append('omitted key')
        if any(b.dirty for b in w.batches):
            cl.append('unknown or repeated key')
        if any(isinstance(v, Exception) for b in w.batches
               for ys in b.yields.values() for _, v in ys):
            cl.append('yielded exception')
        if any(len(b.items) > 40 for b in w.batches):
            cl.append('more than 40 items in a batch')
        if len(w.batches) > 12:
            cl.append('more than 10 batches')
        nt = {'C04': any(len(b.items) > 1 for b in w.batches)
              or 'batch raised' in cl or 'omitted key' in cl,
              'C09': 'cancelled call' in cl and len(real) > 1,
              'C10': len(real) > 2 and len(w.batches) > 2,
              'C11': 'shared keys' in cl}[prop]
        return cl, nt
    return run


# -- generators ----------------------------------------------------------------
def strategies(cancels=False, keys=4, outs=(0,), raises=False, ats=None,
               max_calls=8, rets=(0,), sizes=(1, 2, 2, 3, 4, 256), bts=(5, 5, 5, 5, 5, 0, 2),
               durs=(-1, 0, 1, 1, 2, 3, 5, 7, 12, -2, -4), mutate=False, plain=True,
               bulk=(), cycle=False, kinds=(0, 0, 0, 1, 2),
               names=False):
    at = st.sampled_from(ats or [0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10,
                                 11, 12, 15, 20, 30])
    call = st.tuples(
        at, st.integers(0, keys - 1),
        st.sampled_from([0, 0, 1, 2] if plain else [0, 1]),
        st.sampled_from([0, 0, 1, 1, 2, 3]) if cancels else st.just(0),
        st.integers(0, 6) if cancels else st.just(0),
        st.sampled_from([0, 0, 1, 2, 4, 5, 5, 6, 6, 7, 8, 10, 12])
        if cancels else st.just(0),
        st.sampled_from([0] * 6 + [1, 1, 2, 5]),
        st.sampled_from([0] * 8 + list(range(1, 9))))
    dur = st.sampled_from(list(durs))
    batch = st.fixed_dictionaries({
        'pre': dur, 'gap': dur, 'post': dur,
        'rot': st.integers(0, 3), 'rev': st.integers(0, 1),
        'out': st.lists(st.sampled_from(list(outs)), max_size=4),
        'raise': st.sampled_from([-1, -1, -1, 0, 1, 2]) if raises
        else st.just(-1),
        'exc': st.integers(0, len(EXC) - 1),
        'kind': st.sampled_from(list(kinds)),
    })
    return st.fixed_dictionaries({
        'size': st.sampled_from(list(sizes)),
        'conc': st.sampled_from([1, 1, 2, 3, 5, 8]),
        'cycle': st.booleans() if cycle else st.just(False),
        'bulk': st.lists(st.tuples(
            at, st.sampled_from([0, 0, 16, 100, 300]),
            st.sampled_from(list(bulk)), st.sampled_from([0, 0, 1, 2, 4, 6])),
            min_size=1, max_size=3) if bulk else st.just([]),
        'bt': st.sampled_from(list(bts)),
        'ret': st.sampled_from(list(rets)),
        'form': st.sampled_from([0, 0, 1]),
        'calls': st.lists(call, min_size=0 if bulk else 1, max_size=max_calls),
        'batches': st.lists(batch, max_size=4),
        'names': st.one_of(
            st.lists(st.integers(0, len(NAMES) - 1), min_size=keys,
                     max_size=keys, unique=True),
            st.integers(0, len(NAMES) - keys).map(
                lambda n: list(range(n, n + keys)))) if names
        else st.just([]),
        'sizes': st.lists(st.tuples(st.integers(0, 15), st.integers(1, 4)),
                          max_size=2) if mutate else st.just([]),
    })


def cancel_cases():
    """Cancel one of three callers at every instant and loop iteration."""
    b = dict(DEFAULT, pre=3, gap=2, post=2)
    for keys in ([0, 1, 2], [0, 0, 1], [0, 1, 0], [0, 0, 0]):
        for size in (1, 2, 3):
            for ret in (0, 4):
                for who in range(3):
                    for cd in range(0, 16):
                        for ticks in (range(0, 6) if cd in (
                                0, 3, 5, 7, 8, 10) else (0,)):
                            calls = [[n, k, 0, 0, 0, 0]
                                     for n, k in enumerate(keys)]
                            calls[who][3:] = [1, ticks, cd]
                            # a later call for the same key
                            late = [who + cd + ticks % 2, keys[who], 0, 0,
                                    0, 0]
                            yield {'size': size, 'conc': 1 + ticks % 2,
                                   'bt': 5, 'ret': ret, 'form': 0,
                                   'calls': calls + [late], 'batches': [b],
                                   'sizes': []}


def hop_cases():
    """A call arrives at every loop iteration around what a batch does."""
    bs = [dict(DEFAULT, pre=p, gap=g, post=q)
          for p in (-1, 0, -3, 3) for g, q in ((-1, -1), (0, -3), (2, 0))]
    for b in bs:
        p = max(0, b['pre'])
        end = 5 + p + max(0, b['gap']) + max(0, b['post'])
        for size in (1, 2, 3):
            for ret in (0, 4):
                for at in sorted({0, 5, 5 + p, end, end + ret}):
                    for keys in ([0, 0], [0, 1, 0], [0, 1, 2], [0, 1, 1]):
                        for hops in range(10):
                            calls = [[0, k, 0, 0, 0, 0] for k in keys[:-1]]
                            calls.append([at, keys[-1], 0, 0, 0, 0,
                                          hops % 2, hops])
                            yield {'size': size, 'conc': 1 + size % 2,
                                   'bt': 5, 'ret': ret, 'form': hops % 2,
                                   'calls': calls, 'batches': [b],
                                   'cycle': True, 'sizes': []}


def pair_cases():
    """Two calls close to each other, around what a batch does."""
    bs = [dict(DEFAULT, pre=p, gap=g, post=q)
          for p in (-1, 0, -3, 3) for g, q in ((-1, -1), (0, -3), (2, 0))]
    for b in bs:
        p = max(0, b['pre'])
        end = 5 + p + max(0, b['gap']) + max(0, b['post'])
        for size in (1, 2, 3):
            for ret in (0, 4):
                for at in sorted({0, 5, 5 + p, end, end + ret}):
                    for keys in ([0, 0], [0, 1], [1, 1], [1, 2], [1, 0]):
                        for gap in range(4):
                            for h in range(10):
                                for c in (0, 1, 2):
                                    # who of the two is cancelled
                                    calls = [[0, 0, 0, 0, 0, 0]]
                                    for n in (0, 1):
                                        calls.append([
                                            at, keys[n], 0, int(c == n + 1),
                                            h + gap + 1, 0, 0, h + n * gap])
                                    yield {'size': size, 'bt': 5, 'ret': ret,
                                           'conc': 1 + size % 2,
                                           'form': h % 2, 'calls': calls,
                                           'batches': [b], 'cycle': True,
                                           'sizes': []}
