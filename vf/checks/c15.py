"""
Option form == direct form == class, by trace equality and absolute probes;
a decorated batcher on several loops == that batcher alone on each of them.

All times are in units of 1/1024 s so that they are exact wherever the loop's
clock happens to start.
"""
import asyncio as aio
import collections
import functools
import gc
import time

from hypothesis import strategies as st

from .. import sim as S
from .. import target
from ..engine import Campaign, Violation, NO_SCHED
from ..engine import sched as sched_strategy

U = 1 / 1024
EPS = 1e-4
NAMES = ['max_batch_size', 'max_concurrent_batches', 'batch_timeout',
         'retention_timeout']
DEFAULTS = {'max_batch_size': 256, 'max_concurrent_batches': 5,
            'batch_timeout': 0.05, 'retention_timeout': 0.}
FORMS = ['option', 'direct', 'class', 'twice']


def options(opts):
    o = {}
    for k, v in opts.items():
        assert k in NAMES and v >= 0
        o[k] = v if k.startswith('max') else v * U
        assert v > 0 or not k.startswith('max')
    return o


def shape(kind, f, it):
    """The batch function / function as various kinds of callables."""
    if kind == 1:
        return functools.partial(f)
    if kind == 2:
        class C:
            if it:
                def __call__(self, x):
                    return f(x)
            else:
                async def __call__(self, *a, **k):
                    return await f(*a, **k)
        return C()
    if kind in (3, 4):
        # it has attributes of its own
        if kind == 3:
            c = shape(2, f, it)
        elif it:
            def c(x):
                return f(x)
        else:
            async def c(*a, **k):
                return await f(*a, **k)
        for name, v in (('timeout', 77), ('func', None), ('loop', None),
                        ('q', None), ('event', None), ('cache', {}),
                        ('key', 'k'), ('max_batch_size', 9),
                        ('max_concurrent_batches', 9), ('wait', None),
                        ('batch_timeout', 9), ('retention_timeout', 9)):
            setattr(c, name, v)
        return c
    return f


def drive(sim, roots):
    out = sim.run(roots)
    for n, e in sim.root_errors():
        raise e
    if out.kind != 'ok':
        raise Violation(f'the program never ends: {out}')


def new_loop():
    loop = aio.new_event_loop()
    aio.set_event_loop(loop)
    return loop


# -- batcher -------------------------------------------------------------------
class Trace:
    """What a batch function was given and what its callers got."""

    def __init__(self, dur):
        self.dur = dur
        self.log = []
        self.batches = []
        self.active = self.peak = 0
        self.by_loop = collections.defaultdict(list)
        self.t0 = {}
        self.bad = []

    def now(self):
        loop = aio.get_running_loop()
        return round((loop.time() - self.t0.get(loop, 0.0)) / U, 3)

    def func(self, batch):
        return self.gen(list(batch))

    async def gen(self, items):
        loop = aio.get_running_loop()
        log = self.by_loop[loop]
        n = sum(1 for e in log if e[0] == 'batch')
        t = self.now()
        log.append(('batch', t, [(k, a[1]) for k, a in items]))
        for k, a in items:
            if a[0] is not loop:
                self.bad.append(f'the batcher of {loop!r} was given a call '
                                f'made on {a[0]!r}')
        self.active += 1
        self.peak = max(self.peak, self.active)
        try:
            for i, (k, a) in enumerate(items):
                d = self.dur[n % len(self.dur)] if self.dur else 0
                if d and not i:
                    await aio.sleep(d * U)
                yield k, (k, a[1], n)
        finally:
            self.active -= 1
            log.append(('end', self.now(), n))

    async def caller(self, batcher, n, at, key, log):
        loop = aio.get_running_loop()
        try:
            r = await batcher((loop, n), key=key)
        except aio.CancelledError:
            raise
        except Exception as e:
            r = repr(e)
        log.append(('answer', self.now(), n, r))

    async def program(self, batcher, calls, settle=True):
        loop = aio.get_running_loop()
        log = self.by_loop[loop]
        last = 0
        tasks = []
        base = loop.time()

        def start(n, at, key):
            tasks.append(loop.create_task(
                self.caller(batcher, n, at, f'k{key}', log)))
        for n, (at, key) in enumerate(calls):
            assert at >= 0
            last = max(last, at)
            loop.call_at(base + at * U, start, n, at, key)
        await aio.sleep((last + 4096) * U)
        for t in tasks:
            if not t.done():
                self.bad.append('a call was not answered')
                t.cancel()


def make(m, form, f, o, other=None):
    if form == 'option':
        return m.async_background_batcher(**o)(f)
    if form == 'direct':
        return m.async_background_batcher(f, **o)
    if form == 'twice':
        # one options object applied to two functions
        deco = m.async_background_batcher(**o)
        first = deco(other)
        return first, deco(f)
    return m.AsyncBackgroundBatcher(f, **o)


def one_loop(m, form, o, case):
    tr = Trace(case['dur'])
    sim = S.Sim({}, max_time=50_000)

    def main():
        loop = new_loop()

        async def go():
            f = shape(case['shape'], tr.func, True)
            if form == 'twice':
                t2 = Trace([])
                b1, b = make(m, form, f, o, t2.func)
                x = await b1((loop, 0), key='k0')
                if x[:2] != ('k0', 0):
                    tr.bad.append(f'the other function answered {x!r}')
                # start again on the grid of exact times
                f2 = loop.create_future()
                loop.call_at(float(int(loop.time()) + 2), f2.set_result, None)
                await f2
            else:
                b = make(m, form, f, o)
            tr.t0[loop] = loop.time()
            await tr.program(b, case['calls'])
        loop.run_until_complete(go())
        loop.close()
        tr.log = tr.by_loop[loop]
    drive(sim, [('main', main)])
    if tr.bad:
        raise Violation(f'{form} form: {tr.bad[0]}')
    return tr


def run_batcher(case):
    o = options(case['opts'])
    m = target.fresh('asyncio')
    full = dict(DEFAULTS, **o)
    ref = None
    for form in ('class', 'direct', 'option', 'twice'):
        tr = one_loop(m, form, o, case)
        if ref is None:
            ref = tr
        elif tr.log != ref.log:
            d = [(a, b) for a, b in zip(tr.log + [None], ref.log + [None])
                 if a != b]
            raise Violation(
                f'async_background_batcher, {form} form, {case["opts"]}: '
                f'{d[0][0] if d else "more"} instead of '
                f'{d[0][1] if d else "less"} as with the class')
    # the options have the effect they document
    size, conc = full['max_batch_size'], full['max_concurrent_batches']
    bt = round(full['batch_timeout'] / U, 3)
    ret = round(full['retention_timeout'] / U, 3)
    for form in ('option', 'direct', 'class'):
        what = f'async_background_batcher, {form} form, {case["opts"]}: '
        probe = {'dur': [], 'shape': 0, 'calls': [[0, 0]]}
        tr = one_loop(m, form, o, probe)
        t = tr.log[0][1]
        if abs(t - (0 if size == 1 else bt)) > .5:
            raise Violation(what + f'a lone call was handed over after '
                            f'{t} units, the batch timeout is {bt}')
        if size < 10:
            n = size * (conc + 1) if conc < 10 else 2 * size
            probe['calls'] = [[0, i] for i in range(n)]
            probe['dur'] = [1024]
            tr = one_loop(m, form, o, probe)
            bs = [len(e[2]) for e in tr.log if e[0] == 'batch']
            if max(bs) != size:
                raise Violation(what + f'{n} calls at once made batches of '
                                f'{bs}')
            if conc < 10 and tr.peak != conc:
                raise Violation(what + f'{n} calls at once gave '
                                f'{tr.peak} concurrent executions')
        # answered at t1; then at t1 + window -1 and +1
        t1 = (0 if size == 1 else bt)
        for d, fresh in ((ret - 1, False), (ret + 1, True)):
            if d <= 0:
                continue
            probe = {'dur': [0], 'shape': 0,
                     'calls': [[0, 0], [t1 + d, 0]]}
            tr = one_loop(m, form, o, probe)
            n = sum(1 for e in tr.log if e[0] == 'batch')
            if n != 1 + fresh:
                raise Violation(
                    what + f'{n} computations for calls of one key '
                    f'{d} units after its completion; retention is {ret}')
    nt = any(full[k] != DEFAULTS[k] for k in full) and len(case['calls']) > 1
    cl = [k for k in full if full[k] != DEFAULTS[k]]
    if len(cl) > 1:
        cl.append('several options')
    return cl, nt


def run_large(case):
    """Sizes and numbers of executions that take hundreds of calls to see."""
    o = options(case['opts'])
    more = case['more']
    assert more >= 0
    m = target.fresh('asyncio')
    full = dict(DEFAULTS, **o)
    size, conc = full['max_batch_size'], full['max_concurrent_batches']
    # (not so many that they take longer than answers are waited for)
    n = size * (conc + 1) + more % (size * conc)
    assert n <= 5000
    ref = None
    for form in ('class', 'direct', 'option', 'twice'):
        what = f'async_background_batcher, {form} form, {case["opts"]}: '
        probe = {'dur': [1024], 'shape': case['shape'],
                 'calls': [[0, i] for i in range(n)]}
        tr = one_loop(m, form, o, probe)
        bs = [len(e[2]) for e in tr.log if e[0] == 'batch']
        if max(bs) != size:
            raise Violation(what + f'{n} calls at once made batches of {bs}')
        if tr.peak != conc:
            raise Violation(what + f'{n} calls at once gave {tr.peak} '
                            f'concurrent executions')
        if ref is None:
            ref = tr.log
        elif tr.log != ref:
            raise Violation(what + 'behaves differently from the class with '
                            f'{n} calls at once')
    return [k for k in full if full[k] != DEFAULTS[k]], \
        any(full[k] != DEFAULTS[k] for k in full)


# -- several loops -------------------------------------------------------------
def play(m, deco, tr, plan, sched, sync):
    """plan: [thread: [[loop index, calls, how], ...], ...]"""
    sim = S.Sim(sched, max_time=50_000)
    loops = {}

    def thread(i, runs):
        def main():
            for j, (li, calls, how) in enumerate(runs):
                key = (i, li)
                loop = loops.get(key)
                if loop is None or loop.is_closed():
                    loop = loops[key] = new_loop()
                aio.set_event_loop(loop)
                tr.t0[loop] = sim.now

                async def go():
                    tr.by_loop[loop].append(('run', j))
                    await tr.program(deco, calls)
                if how == 1:
                    loop.run_until_complete(go())
                    # what asyncio.run() does
                    for t in aio.all_tasks(loop):
                        t.cancel()
                    loop.run_until_complete(aio.sleep(0))
                    loop.close()
                elif how == 2:
                    loop.run_until_complete(go())
                    loop.close()
                else:
                    loop.run_until_complete(go())
                order.append((i, loop))
        order = []
        res[i] = order
        return main
    res = {}
    drive(sim, [(f't{i}', thread(i, runs)) for i, runs in enumerate(plan)])
    if tr.bad:
        raise Violation(f'async_background_batcher on several loops: '
                        f'{tr.bad[0]}')
    out = []
    for i in range(len(plan)):
        seen = []
        for _, loop in res[i]:
            if loop not in seen:
                seen.append(loop)
        out.append([tr.by_loop[lp] for lp in seen])
    return out


def run_loops(case):
    o = options(case['opts'])
    m = target.fresh('asyncio')
    plan = case['plan']
    for runs in plan:
        for li, calls, how in runs:
            li + how
            for at, key in calls:
                at + key
    form = case['form'] % 2
    tr = Trace(case['dur'])
    deco = make(m, FORMS[form], tr.func, o)
    got = play(m, deco, tr, plan, case['sched'], None)
    # the same, every loop alone, with a function of its own
    nloops = 0
    for i, runs in enumerate(plan):
        k = 0
        alone = []
        # group the runs by the loop they use
        groups = {}
        gen = {}
        for j, (li, calls, how) in enumerate(runs):
            g = groups.setdefault((li, gen.get(li, 0)), [])
            g.append((j, [li, calls, how]))
            if how in (1, 2):
                gen[li] = gen.get(li, 0) + 1
        for g in sorted(groups, key=lambda g: groups[g][0][0]):
            t2 = Trace(case['dur'])
            d2 = make(m, FORMS[form], t2.func, o)
            solo = play(m, d2, t2, [[r for _, r in groups[g]]],
                        NO_SCHED, None)
            log = solo[0][0]
            js = iter([j for j, _ in groups[g]])
            log = [('run', next(js)) if e[0] == 'run' else e for e in log]
            alone.append(log)
        for k, log in enumerate(alone):
            nloops += 1
            a = got[i][k] if k < len(got[i]) else None
            if a != log:
                d = [(x, y) for x, y in zip((a or []) + [None], log + [None])
                     if x != y]
                raise Violation(
                    f'async_background_batcher on several loops: loop {k} of '
                    f'thread {i} saw {d[0][0] if d else "more"}, alone it '
                    f'sees {d[0][1] if d else "less"}')
    cl = []
    if len(plan) > 1:
        cl.append('concurrent loops')
    if any(len(r) > 1 for r in plan):
        cl.append('successive loops')
    return cl, nloops > 1


def run_recycled(case):
    """
    The same program on one new event loop after the other, each of them
    closed and forgotten before the next one: all alike.
    """
    o = options(case['opts'])
    for at_, key in case['calls']:
        assert at_ >= 0 and key >= 0
    assert 1 <= case['n'] <= 200
    m = target.fresh('asyncio')
    tr = Trace(case['dur'])
    deco = make(m, FORMS[case['form'] % 2], tr.func, o)
    sim = S.Sim({}, max_time=5_000_000)
    logs = []

    def once():
        loop = aio.new_event_loop()
        time.sleep(float(int(sim.now) + 2) - sim.now)
        tr.t0[loop] = sim.now

        async def go():
            await tr.program(deco, case['calls'])
            if case['kill']:
                # leave a call behind
                loop.create_task(deco((loop, 99), key='left'))
                await aio.sleep(0)
        loop.run_until_complete(go())
        if case['kill'] == 2:
            for t in aio.all_tasks(loop):
                t.cancel()
            loop.run_until_complete(aio.sleep(0))
        loop.close()
        logs.append(tr.by_loop.pop(loop))
        tr.t0.clear()

    def main():
        for i in range(case['n']):
            once()
            if i % 3 != 2:
                gc.collect()
    drive(sim, [('main', main)])
    if tr.bad:
        raise Violation(f'async_background_batcher on successive loops: '
                        f'{tr.bad[0]}')
    for i, log in enumerate(logs):
        if log != logs[0]:
            d = [(a, b) for a, b in zip(log + [None], logs[0] + [None])
                 if a != b]
            raise Violation(
                f'async_background_batcher: loop {i + 1} saw '
                f'{d[0][0] if d else "more"}, the first one '
                f'{d[0][1] if d else "less"} of the same program')
    return ['successive loops'], case['n'] > 1


# -- cache -----------------------------------------------------------------------
class Rec(collections.abc.MutableMapping):
    """Records what is done to it; optionally bounded; falsy when told."""

    def __init__(self, kind):
        self.d = {}
        self.kind = kind
        self.log = []

    def __getitem__(self, k):
        hit = k in self.d
        self.log.append(('get', k, hit))
        return self.d[k]

    def __setitem__(self, k, v):
        self.log.append(('set', k, v))
        if self.kind == 2 and k not in self.d and len(self.d) >= 1:
            self.d.pop(next(iter(self.d)))
        self.d[k] = v

    def __delitem__(self, k):
        self.log.append(('del', k))
        del self.d[k]

    def __contains__(self, k):
        self.log.append(('in', k))
        return k in self.d

    def __iter__(self):
        return iter(list(self.d))

    def __len__(self):
        return 0 if self.kind == 1 else len(self.d)


KINDS = ['rec', 'rec falsy', 'rec lru1', 'dict', 'odict', 'none', 'default']


def mapping(kind):
    k = kind % len(KINDS)
    if k < 3:
        return Rec(k)
    return {3: dict, 4: collections.OrderedDict}.get(k, lambda: None)()


def cache_prog(m, form, case):
    """-> trace of the calls, and of what happened to the mapping"""
    kind = case['map'] % len(KINDS)
    mp = mapping(kind)
    kw = {} if kind == 6 else {'cache': mp}
    sim = S.Sim({}, max_time=50_000)
    trace = []
    calls = []

    def mk(name):
        async def f(x, **k):
            calls.append((name, x))
            if case['dur']:
                await aio.sleep(case['dur'] * U)
            if x < 0:
                raise ValueError(x)
            return (name, x, len(calls))
        return shape(case['shape'], f, False)
    f, g = mk('f'), mk('g')
    if form == 'option':
        wf = m.threadsafe_async_cache(**kw)(f)
        wg = m.threadsafe_async_cache(**kw)(g)
    elif form == 'twice':
        deco = m.threadsafe_async_cache(**kw)
        wf, wg = deco(f), deco(g)
    elif form == 'none':
        wf = m.threadsafe_async_cache(None, **kw)(f)
        wg = m.threadsafe_async_cache(None, **kw)(g)
    else:
        wf = m.threadsafe_async_cache(f, **kw)
        wg = m.threadsafe_async_cache(g, **kw)
    given = mp is not None

    async def one(which, x, k):
        n = len(calls)
        try:
            r = await (wg if which else wf)(x, **({'k': k} if k else {}))
        except ValueError as e:
            r = repr(e)
        trace.append((which, x, k, r, len(calls) - n))
        return r

    def main():
        loop = new_loop()
        for op in case['ops']:
            kind_, which, x, k = op
            if kind_ == 3:
                if given:
                    mp.clear()
                    if isinstance(mp, Rec):
                        mp.d.clear()
                trace.append('clear')
            elif kind_ == 2:
                async def par():
                    await aio.gather(*(one(which, x, k) for _ in range(3)))
                loop.run_until_complete(par())
            else:
                loop.run_until_complete(one(which, x, k))
                if given and x >= 0:
                    # the store given holds what was computed
                    vals = list((mp.d if isinstance(mp, Rec)
                                 else mp).values())
                    if trace[-1][3] not in vals:
                        raise Violation(
                            f'threadsafe_async_cache, {form} form: the '
                            f'result {trace[-1][3]!r} is not in the mapping '
                            f'given as cache')
        loop.close()
    drive(sim, [('main', main)])
    return trace, (mp.log if isinstance(mp, Rec) else None), wf, f


def run_cache(case):
    case['dur'] + case['map'] + case['shape']
    for a, b, c, d in case['ops']:
        a + b + c + d
    m = target.fresh('asyncio')
    ref = None
    # an independent model of which calls compute
    kind = case['map'] % len(KINDS)
    for form in ('direct', 'option', 'none', 'twice'):
        tr, log, wf, f = cache_prog(m, form, case)
        names = [getattr(wf, a, None) == getattr(f, a, None)
                 for a in ('__name__', '__doc__', '__qualname__')]
        if ref is None:
            ref = tr, log, names
        elif (tr, log) != ref[:2]:
            raise Violation(
                f'threadsafe_async_cache, {form} form with '
                f'{KINDS[kind]} cache: {tr} {log} instead of {ref[:2]} '
                f'with the direct form')
        elif names != ref[2]:
            raise Violation(f'threadsafe_async_cache, {form} form: '
                            f'name/doc differ from the direct form')
        # absolute: computed once per mapping, again after clear()
        if kind != 2 and not any(o[0] == 2 for o in case['ops']):
            store = set()
            for e in tr:
                if e == 'clear':
                    if kind < 5:
                        store.clear()
                    continue
                which, x, k, r, n = e
                key = (x, k) if kind < 5 else (which, x, k)
                if n != (key not in store):
                    raise Violation(
                        f'threadsafe_async_cache, {form} form with '
                        f'{KINDS[kind]} cache: call {e} computed {n} times '
                        f'with the stored keys {sorted(store)}')
                if x >= 0:
                    store.add(key)
    return [KINDS[kind]], len(case['ops']) > 1


# -- buffer ----------------------------------------------------------------------
def buffer_prog(m, form, case):
    T = case['T']
    kw = {} if T < 0 else {'timeout': T * U}
    sim = S.Sim({}, max_time=50_000)
    trace = []
    names = []

    def main():
        elsewhere = new_loop()
        state = {'n': 0, 't0': 0.0}

        def mk(name):
            async def f(args):
                loop = aio.get_running_loop()
                n = state['n']
                state['n'] += 1
                trace.append((name, round((sim.now - state['t0']) / U, 3),
                              sorted(args), loop is state['loop']))
                d = case['dur'][n] if n < len(case['dur']) else 0
                if d > 0:
                    await aio.sleep(d * U)
                elif d < 0:
                    raise RuntimeError('fn')
            f.__name__ = 'buffered'
            return shape(case['shape'], f, False)
        f, g = mk('f'), mk('g')
        if form == 'option':
            df = dg = None
            df = m.buffer_until_timeout(**kw)
            dg = m.buffer_until_timeout(**kw)
        elif form == 'twice':
            df = dg = m.buffer_until_timeout(**kw)
        elif form == 'class':
            df = dg = lambda fn: m.BufferAsyncCalls(fn, **kw)
        else:
            df = dg = lambda fn: m.buffer_until_timeout(fn, **kw)
        loop = state['loop'] = new_loop()

        async def go():
            bf, bg = df(f), dg(g)
            names.append([getattr(bf, a, None) == getattr(f, a, None)
                          for a in ('__name__', '__doc__')])
            state['t0'] = sim.now
            base = loop.time()
            last = 0
            for n, (at, which, kind) in enumerate(case['ops']):
                last = max(last, at)

                def put(n=n, which=which, kind=kind):
                    b = bg if which else bf
                    if kind == 0:
                        b(n)
                    elif kind == 1:
                        b.map([n, n + 100])
                    else:
                        async def w():
                            t = round((sim.now - state['t0']) / U, 3)
                            await b.wait(cancel=kind == 2)
                            trace.append((
                                'waited', t,
                                round((sim.now - state['t0']) / U, 3)))
                        loop.create_task(w())
                loop.call_at(base + at * U, put)
            await aio.sleep((last + 1000 + 8 * (T if T >= 0 else 1024)) * U)
        loop.run_until_complete(go())
        loop.close()
        elsewhere.close()
    drive(sim, [('main', main)])
    return trace, names


def run_buffer(case):
    assert case['T'] >= -1
    case['shape'] + sum(case['dur'])
    for a, b, c in case['ops']:
        a + b + c
    m = target.fresh('asyncio')
    ref = None
    for form in ('direct', 'option', 'twice', 'class'):
        tr, names = buffer_prog(m, form, case)
        if ref is None:
            ref = tr, names
        elif tr != ref[0]:
            raise Violation(f'buffer_until_timeout, {form} form, timeout '
                            f'{case["T"]}: {tr} instead of {ref[0]} with the '
                            f'direct form')
        elif form != 'class' and names != ref[1]:
            raise Violation(f'buffer_until_timeout, {form} form: name/doc '
                            f'differ from the direct form')
        if any(len(e) == 4 and not e[3] for e in tr):
            raise Violation(f'buffer_until_timeout, {form} form: the '
                            f'function ran on another loop than the one it '
                            f'was decorated on')
        probe = dict(case, ops=[[0, 0, 0]], dur=[])
        tr, _ = buffer_prog(m, form, probe)
        T = case['T'] if case['T'] >= 0 else 1024
        if len(tr) != 1 or abs(tr[0][1] - T) > .5:
            raise Violation(f'buffer_until_timeout, {form} form, timeout '
                            f'{T}: one argument gives the calls {tr}')
    return (['timeout'] if case['T'] >= 0 else ['default']), \
        case['T'] >= 0 and len(case['ops']) > 1


# -- generators ------------------------------------------------------------------
vals = {
    'max_batch_size': st.sampled_from([1, 2, 2, 3, 4, 7]),
    'max_concurrent_batches': st.sampled_from([1, 1, 2, 3, 4, 6]),
    'batch_timeout': st.sampled_from([0, 1, 2, 5, 10, 40, 100, 700]),
    'retention_timeout': st.sampled_from([0, 1, 2, 4, 16, 64, 600]),
}
opts = st.one_of(
    st.fixed_dictionaries({}, optional=vals),
    st.fixed_dictionaries(vals),
    *[st.fixed_dictionaries({k: v}) for k, v in vals.items()])
at = st.sampled_from([0, 0, 0, 0, 1, 2, 3, 5, 8, 10, 11, 20, 41, 52, 60, 80,
                      110, 300, 750])
calls = st.lists(st.tuples(at, st.integers(0, 4)), min_size=1, max_size=9)
durs = st.lists(st.sampled_from([0, 0, 1, 3, 10, 30]), max_size=3)
batcher = st.fixed_dictionaries({
    'opts': opts, 'calls': calls, 'dur': durs,
    'shape': st.sampled_from([0, 0, 1, 2, 3, 4])})
large = st.fixed_dictionaries({
    'opts': st.one_of(
        st.fixed_dictionaries({'max_concurrent_batches': st.sampled_from(
            [1, 2, 4, 6])}),
        st.fixed_dictionaries({'max_batch_size': st.sampled_from(
            [10, 64, 255, 257, 300])}),
        st.fixed_dictionaries({'max_batch_size': st.integers(1, 40),
                               'max_concurrent_batches': st.integers(1, 40)},
                              optional={k: vals[k] for k in (
                                  'batch_timeout', 'retention_timeout')}),
        st.fixed_dictionaries({'max_batch_size': st.integers(1, 700),
                               'max_concurrent_batches': st.integers(1, 3)})),
    'more': st.integers(0, 5), 'shape': st.sampled_from([0, 0, 1, 2, 3, 4])})
short = st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3, 5, 8, 20, 60]),
                           st.integers(0, 2)), min_size=1, max_size=4)
loops = st.fixed_dictionaries({
    'opts': opts, 'dur': durs, 'form': st.integers(0, 1),
    'plan': st.lists(st.lists(st.tuples(
        st.integers(0, 1), short, st.integers(0, 2)),
        min_size=1, max_size=3), min_size=1, max_size=3),
    'sched': sched_strategy()})
crowd = st.fixed_dictionaries({
    'opts': opts, 'dur': durs, 'form': st.integers(0, 1),
    'plan': st.lists(st.lists(st.tuples(
        st.integers(0, 3), short, st.integers(0, 2)),
        min_size=1, max_size=5), min_size=6, max_size=20),
    'sched': sched_strategy()})
recycled = st.fixed_dictionaries({
    'opts': opts, 'dur': durs, 'form': st.integers(0, 1), 'calls': short,
    'kill': st.sampled_from([0, 0, 1, 2]),
    'n': st.sampled_from([3, 5, 12, 40])})
cache = st.fixed_dictionaries({
    'map': st.integers(0, len(KINDS) - 1), 'dur': st.sampled_from([0, 1]),
    'shape': st.integers(0, 4),
    'ops': st.lists(st.tuples(
        st.sampled_from([0, 0, 0, 0, 2, 3]), st.integers(0, 1),
        st.integers(-1, 2), st.integers(0, 1)), min_size=1, max_size=8)})
buffer = st.fixed_dictionaries({
    'T': st.sampled_from([-1, 0, 0, 1, 2, 5, 10, 100, 1000, 3000]),
    'dur': st.lists(st.sampled_from([0, 1, 5, 50, -1]), max_size=3),
    'shape': st.integers(0, 4),
    'ops': st.lists(st.tuples(at, st.integers(0, 1), st.integers(0, 3)),
                    min_size=1, max_size=6)})


def campaigns(tier):
    return [
        Campaign('batcher', run_batcher, strategy=batcher, quick=1000,
                 thorough=40000,
                 desc='class == direct == option form == shared options'),
        Campaign('large', run_large, strategy=large, quick=160,
                 thorough=3000, desc='hundreds of calls at once'),
        Campaign('loops', run_loops, strategy=loops, quick=3000,
                 thorough=100000, desc='successive and concurrent loops'),
        Campaign('crowd', run_loops, strategy=crowd, quick=48,
                 thorough=3000, desc='up to 20 threads with several loops'),
        Campaign('recycled', run_recycled, strategy=recycled, quick=150,
                 thorough=5000, desc='dozens of successive loops'),
        Campaign('cache', run_cache, strategy=cache, quick=3000,
                 thorough=60000),
        Campaign('buffer', run_buffer, strategy=buffer, quick=1600,
                 thorough=50000),
    ]
