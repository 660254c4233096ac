"""gather_excs / raise_first_exc: exactly the failures, in order, at the end."""
import asyncio as aio
import itertools

from hypothesis import strategies as st

from .. import target
from ..engine import Campaign, Violation
from ..sim import Sim


class EBase(BaseException):
    pass


class ESub(EBase):
    pass


class EVal(ValueError):
    pass


class EMulti(KeyError, OSError):
    pass


class EFalsy(ValueError):
    """False, and as long as nothing."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EEqual(ValueError):
    """Equal to everything."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 7


class EOdd(Exception):
    """Cannot be compared, hashed or tested for truth."""

    def __eq__(self, o):
        raise RuntimeError('compared')

    __ne__ = __bool__ = __eq__
    __hash__ = None


class EAwaitable(EVal):
    def __await__(self):
        raise RuntimeError('awaited')

    def __iter__(self):
        raise RuntimeError('iterated')

    def __call__(self, *a):
        raise RuntimeError('called')


EXC = [RuntimeError, ValueError, EVal, KeyError, EBase, ESub, OSError,
       aio.TimeoutError, EMulti, aio.CancelledError, ZeroDivisionError,
       BaseExceptionGroup, UnicodeError, EFalsy, EEqual, EOdd, EAwaitable,
       aio.InvalidStateError, GeneratorExit, StopAsyncIteration,
       AssertionError, NotImplementedError]
ONLY = [BaseException, Exception, ValueError, EVal, LookupError, OSError,
        EBase, ESub, RuntimeError, aio.CancelledError, KeyError,
        (ValueError, EBase), ArithmeticError, EFalsy, (EEqual, EOdd),
        AssertionError]


def make(i, tag):
    c = EXC[i % len(EXC)]
    if c is BaseExceptionGroup:
        return ExceptionGroup(f'g{tag}', [ValueError(tag)])
    return c(f'x{tag}')


class Custom:
    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


def run(case):
    m = target.fresh('asyncio')
    items = case['aws'] * (case.get('rep') or 1)
    only = ONLY[case['only'] % len(ONLY)]
    n = len(items)
    done = [None] * n
    started = [0] * n
    raised = [None] * n
    got = []
    res = {}
    order = list(range(n))

    async def body(i, spec, evs):
        started[i] += 1
        kind, delay, out, arg = spec['kind'], spec['delay'], spec['out'], \
            spec['exc']
        try:
            if spec['dep'] and n > 1:
                await evs[(i + 1) % n].wait() if i + 1 < n else None
            if delay > 0:
                await aio.sleep(delay / 1000)
            elif delay == 0:
                await aio.sleep(0)
            if out == 'raise':
                raise raised[i]
            if out == 'retexc':
                return make(arg, i)
            if out == 'self':
                aio.current_task().cancel() if kind == 'task' else None
                await aio.sleep(0.001)
            return i
        finally:
            done[i] = aio.get_running_loop().time()
            evs[i].set()

    async def main():
        loop = aio.get_running_loop()
        evs = [aio.Event() for _ in range(n)]
        aws = []
        for i, spec in enumerate(items):
            if spec['out'] == 'raise':
                raised[i] = make(spec['exc'], i)
                prev = [r for r in raised[:i] if r is not None]
                if spec.get('share') and prev:
                    # the very same exception object once more
                    raised[i] = prev[-(spec['share'] % len(prev)) - 1]
            k = spec['kind']
            if k == 'future':
                fut = loop.create_future()
                started[i] += 1

                def settle(i=i, fut=fut, spec=spec):
                    done[i] = loop.time()
                    evs[i].set()
                    if fut.done():
                        return
                    if spec['out'] == 'raise':
                        if isinstance(raised[i], aio.CancelledError):
                            fut.cancel()
                        else:
                            fut.set_exception(raised[i])
                    elif spec['out'] == 'retexc':
                        fut.set_result(make(spec['exc'], i))
                    else:
                        fut.set_result(i)
                if spec['delay'] < 0:
                    settle()
                else:
                    loop.call_later(spec['delay'] / 1000, settle)
                aws.append(fut)
            elif k == 'task':
                aws.append(loop.create_task(body(i, spec, evs)))
            elif k == 'custom':
                aws.append(Custom(body(i, spec, evs)))
            else:
                aws.append(body(i, spec, evs))
        given = list(aws)
        for i, at in case.get('dup') or ():
            # the same awaitable given twice
            if n:
                aw, at = given[i % n], at % (len(order) + 1)
                aws.insert(at, aw)
                order.insert(at, i % n)
        if case['pre'] and any(s['kind'] == 'task' for s in items):
            await aio.sleep(0.004)
        t0 = loop.time()
        shape = case['shape']
        it = {0: aws, 1: tuple(aws), 2: (a for a in aws), 3: iter(aws)}[shape]
        kw = {} if only is BaseException and case['dflt'] else {'only': only}
        if case['mode'] == 'first':
            try:
                res['ret'] = await m.raise_first_exc(it, **kw)
            except BaseException as e:
                res['exc'] = e
                if isinstance(e, aio.CancelledError) and \
                        aio.current_task().cancelling():
                    raise
        else:
            try:
                async for e in m.gather_excs(it, **kw):
                    got.append(e)
                    if len(got) == 1:
                        res['at1'] = (loop.time(), list(done))
                    if case['mode'] == 'break':
                        break
                    if case['mode'] == 'slow':
                        await aio.sleep(0.003)
            except BaseException as e:
                res['exc'] = e
        res['t'] = loop.time()
        res['t0'] = t0
        res['done'] = list(done)

    def root():
        loop = aio.new_event_loop()
        try:
            loop.run_until_complete(main())
        finally:
            loop.close()

    sim = Sim({}, max_time=100)
    out = sim.run([('main', root)])
    if out.kind != 'ok':
        raise Violation(f'never finished: {out}')
    if sim.root_errors():
        raise sim.root_errors()[0][1]
    mode = case['mode']
    if any(s != 1 for s in started):
        raise Violation(f'awaitables were run {started} times')

    def is_same(e, i):
        r = raised[i]
        if e is r:
            return True
        # a cancelled future or task reports a CancelledError of its own
        return isinstance(r, aio.CancelledError) and type(e) is type(r)

    exp = []
    for i, s in enumerate(items):
        if s['out'] == 'self' and s['kind'] == 'task':
            raised[i] = aio.CancelledError()
    for i in order:
        if raised[i] is not None and isinstance(raised[i], only):
            exp.append(i)
    # reported either once or as often as it was given
    once = list(dict.fromkeys(exp))
    if any(d is None for d in res['done']):
        raise Violation(f'returned before awaitables '
                        f'{[i for i in range(n) if res["done"][i] is None]} '
                        f'had finished')
    if mode == 'first':
        if exp:
            if 'exc' not in res or not is_same(res['exc'], exp[0]):
                raise Violation(f'raise_first_exc gave {res!r}, expected '
                                f'the exception of awaitable {exp[0]}: '
                                f'{raised[exp[0]]!r}')
        elif 'exc' in res or res['ret'] is not None:
            raise Violation(f'raise_first_exc gave {res!r}, expected None')
    else:
        if 'exc' in res:
            raise Violation(f'gather_excs raised {res["exc"]!r}')
        if mode == 'break':
            exp = once = exp[:1]
        if not any(len(got) == len(e) and all(map(is_same, got, e))
                   for e in (exp, once)):
            raise Violation(f'gather_excs yielded {got!r}, expected '
                            f'{[raised[i] for i in exp]!r}')
        if 'at1' in res and any(d is None for d in res['at1'][1]):
            raise Violation('yielded before all had finished')
    nfail = sum(r is not None for r in raised)
    cl = [f'mode={mode}', f'n={n if n < 8 else "8+"}', f'failures={min(nfail, 3)}']
    cl += sorted({'kind=' + s['kind'] for s in items})
    cl += sorted({'out=' + s['out'] for s in items})
    if any(d is not None and e is not None and d > e for d, e in
           zip(done, done[1:])):
        cl.append('finish order differs')
    return cl, nfail > 0 or any(s['out'] == 'retexc' for s in items)


def enum_cases():
    """Up to 3 awaitables: all outcomes x finish orders x filters x modes."""
    outs = [('ok', 0), ('raise', 0), ('raise', 2), ('raise', 4),
            ('retexc', 1)]
    for n in range(4):
        for o in itertools.product(outs, repeat=n):
            for k, d in enumerate(itertools.permutations(range(n))):
                for mode in ('all', 'first'):
                    for only in (0, 1, 2, 6):
                        yield {'aws': [
                            {'kind': ('coro', 'task', 'future', 'custom')[
                                (i + k + o[i][1]) % 4], 'delay': d[i] * 2,
                             'out': o[i][0], 'exc': o[i][1], 'dep': False}
                            for i in range(n)], 'only': only, 'mode': mode,
                            'shape': (k + only) % 4, 'dflt': True,
                            'pre': False}


aw = st.fixed_dictionaries({
    'kind': st.sampled_from(['coro', 'coro', 'task', 'future', 'custom']),
    'delay': st.sampled_from([-1, -1, 0, 0, 1, 2, 3, 5, 9]),
    'out': st.sampled_from(['ok', 'raise', 'raise', 'retexc', 'self']),
    'exc': st.integers(0, len(EXC) - 1),
    'dep': st.sampled_from([False, False, False, True]),
    'share': st.sampled_from([0, 0, 1, 2, 3]),
})
program = dict({
    'only': st.integers(0, len(ONLY) - 1),
    'mode': st.sampled_from(['all', 'all', 'slow', 'break', 'first',
                             'first']),
    'shape': st.integers(0, 3),
    'dflt': st.booleans(),
    'pre': st.sampled_from([False, False, True]),
})
strategy = st.fixed_dictionaries(dict(
    program, aws=st.lists(aw, max_size=7), dup=st.one_of(
        st.just([]), st.just([]), st.lists(st.tuples(
            st.integers(0, 6), st.integers(0, 9)), max_size=3))))
many = st.fixed_dictionaries(dict(
    program, aws=st.lists(aw, min_size=1, max_size=7),
    rep=st.sampled_from([5, 10, 20, 40, 60, 90, 160])))


def campaigns(tier):
    return [
        Campaign('enum', run, cases=enum_cases, quick=7000, thorough=None,
                 desc='<= 3 awaitables, outcomes x finish orders x filters'),
        Campaign('random', run, strategy=strategy, quick=8000,
                 thorough=200000),
        Campaign('many', run, strategy=many, quick=400, thorough=6000,
                 desc='up to a thousand awaitables'),
    ]
