"""Cache keys: a list-of-entries model compared by equality, never by hash."""
import asyncio as aio
import collections
import collections.abc
import inspect

from hypothesis import strategies as st

from .. import target
from ..engine import Campaign, Violation
from ..sim import Sim


class H:
    """Equal by tag; everything hashes alike."""

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, H) and o.tag == self.tag

    def __hash__(self):
        return 7

    def __repr__(self):
        return f'H({self.tag})'


class I:  # noqa: E742
    """Equal by identity, with a constant repr and str."""

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'I()'


class S(str):
    """Never equal to the plain string of the same text."""

    def __eq__(self, o):
        return isinstance(o, S) and str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return str.__hash__(self)


_i = [I(), I()]
POOL = [
    lambda: 1, lambda: 1.0, lambda: True, lambda: 0, lambda: False,
    lambda: '1', lambda: 'a', lambda: None, lambda: (), lambda: (1,),
    lambda: (1.0,), lambda: frozenset(), lambda: frozenset([('a', 1)]),
    lambda: ('a', 1), lambda: ('a', True), lambda: H(1), lambda: H(2),
    lambda: _i[0], lambda: _i[1], lambda: -1, lambda: -2,
    lambda: 2 ** 61 - 1, lambda: '', lambda: b'a', lambda: ((1,), frozenset()),
    lambda: (('a', 1),), lambda: S('a'), lambda: 1 + 0j, lambda: 'b',
    lambda: (1, 2), lambda: 2, lambda: int, lambda: 'key', lambda: ('b', 1),
]
NAMES = ['a', 'b', 'key', 'args', 'kwargs', 'cache', 'func', 'self', 'c',
         '_func', 'loop']


class Map(collections.abc.MutableMapping):
    def __init__(self):
        self.d = {}

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return False

    def raw(self):
        return self.d


class LRU(Map):
    def __init__(self, size):
        self.d = collections.OrderedDict()
        self.size = size

    def __getitem__(self, k):
        v = self.d[k]
        self.d.move_to_end(k)
        return v

    def __setitem__(self, k, v):
        self.d[k] = v
        self.d.move_to_end(k)
        while len(self.d) > self.size:
            self.d.popitem(last=False)


class Entry:
    def __init__(self, args, kw):
        self.args = args
        self.kw = kw
        self.value = self
        self.have = False
        self.mkey = None

    def matches(self, args, kw):
        if len(args) != len(self.args) or set(kw) != set(self.kw):
            return False
        return all(eq(a, b) for a, b in zip(args, self.args)) and \
            all(eq(kw[k], self.kw[k]) for k in kw)


def eq(a, b):
    return bool(a == b)


def run(case):
    m = target.fresh('asyncio')
    kind = case['map']
    mp = {0: None, 1: {}, 2: Map(), 3: LRU(2), 4: LRU(1),
          5: LRU(3)}[kind]
    raw = mp.raw() if isinstance(mp, Map) else mp
    log = []
    state = {'cl': set(), 'shared': 0, 'n': 0}

    def result(n):
        return [('r', n), None, False, ValueError(n), [], 0][
            case['vals'][n % len(case['vals'])] if case['vals'] else 0]

    async def body(args, kw):
        n = len(log)
        v = result(n)
        log.append((args, kw, v))
        if case['slow']:
            await aio.sleep(0.001)
        return v

    if case['named'] == 1:
        async def f(a=None, b=None, *rest, **kw):
            ba = inspect.currentframe().f_locals
            return await body(ba['a'] if False else None, None)
    else:
        async def f(*args, **kw):
            return await body(args, kw)
    named = case['named'] == 1
    kwargs = {} if mp is None else {'cache': mp}
    if case['form'] == 1:
        cached = m.threadsafe_async_cache(**kwargs)(f)
    else:
        cached = m.threadsafe_async_cache(f, **kwargs)
    entries = []

    def find(args, kw):
        es = [e for e in entries if e.matches(args, kw)]
        if len(es) > 1:
            raise AssertionError('harness: ambiguous entries')
        if es:
            return es[0]
        e = Entry(args, kw)
        entries.append(e)
        return e

    def build(c):
        args = tuple(POOL[i % len(POOL)]() for i in c[0])
        kw = {}
        for n, v in c[1]:
            n = NAMES[n % len(NAMES)]
            if n not in kw:
                kw[n] = POOL[v % len(POOL)]()
        if named:
            try:
                inspect.signature(f).bind(*args, **kw)
            except TypeError:
                return None
        return args, kw

    def present(e):
        if not e.have:
            return False
        if raw is None:
            return True
        return e.mkey in raw

    def show(args, kw):
        return f'f(*{args!r}, **{kw!r})'

    async def one(args, kw):
        e = find(args, kw)
        had = present(e)
        before = len(log)
        keys0 = list(raw) if raw is not None else []
        v = await cached(*args, **kw)
        n = len(log) - before
        if had:
            state['shared'] += 1
            if n:
                raise Violation(f'{show(args, kw)} was computed again; cached '
                                f'for f(*{e.args!r}, **{e.kw!r})')
        else:
            if n != 1:
                raise Violation(f'{show(args, kw)} led to {n} computations, '
                                f'expected 1')
            a, k, val = log[-1]
            if not named and not (
                    len(a) == len(args) and all(
                        x is y for x, y in zip(a, args))
                    and set(k) == set(kw)
                    and all(k[x] is kw[x] for x in kw)):
                raise Violation(f'{show(args, kw)} invoked the function with '
                                f'{a!r} {k!r}')
            e.value, e.have = val, True
            note(e, keys0)
        if v is not e.value:
            raise Violation(f'{show(args, kw)} returned {v!r}, its value is '
                            f'{e.value!r}')

    def note(e, keys0):
        if raw is None:
            return
        new = [k for k in raw if not any(k is x for x in keys0)]
        if len(new) != 1 and not (isinstance(mp, LRU) and not new):
            raise Violation(f'the supplied mapping got {len(new)} new '
                            f'entries from one computation: {new!r}')
        if new:
            e.mkey = new[0]

    async def gather(calls):
        """Concurrent calls: one computation per distinct missing entry."""
        plan = []
        for c in calls:
            b = build(c)
            if b is not None:
                plan.append((b, find(*b)))
        need = []
        for b, e in plan:
            if not present(e) and not any(e is x for x in need):
                need.append(e)
        if isinstance(mp, LRU) and len(entries) > mp.size:
            return      # concurrent eviction: judged in sequence only
        before = len(log)
        keys0 = list(raw) if raw is not None else []
        vs = await aio.gather(*(cached(*b[0], **b[1]) for b, _ in plan))
        if len(log) - before != len(need):
            raise Violation(f'{len(log) - before} computations for '
                            f'{[b for b, _ in plan]!r}, expected {len(need)}')
        for v, (b, e) in zip(vs, plan):
            if not any(e is x for x in need) and v is not e.value:
                raise Violation(f'{show(*b)} returned {v!r}, its value is '
                                f'{e.value!r}')
        if not named:
            for v, (b, e) in zip(vs, plan):
                if any(e is x for x in need):
                    own = [x for x in log[before:]
                           if e.matches(x[0], x[1])]
                    if len(own) != 1 or v is not own[0][2]:
                        raise Violation(f'{show(*b)} returned {v!r}, computed '
                                        f'{own!r}')
        for v, (b, e) in zip(vs, plan):
            if not e.have or any(e is x for x in need):
                e.value, e.have = v, True
        if raw is not None:
            new = [k for k in raw if not any(k is x for x in keys0)]
            if len(new) != len(need):
                raise Violation(f'{len(need)} computations, {len(new)} new '
                                f'entries in the supplied mapping')
            if new:
                # which is whose cannot be told from outside: evict them all
                for k in new:
                    del raw[k]
                for e in need:
                    e.have = False
        state['cl'].add('gather')

    async def main(ops):
        for op in ops:
            if op[0] == 'call':
                b = build(op[1])
                if b is not None:
                    await one(*b)
                    if b[1]:
                        state['cl'].add('kwargs')
            elif op[0] == 'gather':
                await gather(op[1])
            elif op[0] == 'evict' and raw is not None:
                es = [e for e in entries if present(e)]
                if es:
                    e = es[op[1] % len(es)]
                    del mp[e.mkey]
                    e.have = False
                    state['cl'].add('evict')
                    await one(e.args, e.kw)
                    await one(e.args, e.kw) if not isinstance(
                        mp, LRU) else None
            elif op[0] == 'clear' and raw is not None:
                raw.clear()
                for e in entries:
                    e.have = False
                state['cl'].add('clear')

    def root():
        ops = case['ops']
        cut = case['cut'] % (len(ops) + 1) if ops else 0
        for part in (ops[:cut], ops[cut:]):
            loop = aio.new_event_loop()
            loop.run_until_complete(main(part))
            loop.close()

    sim = Sim({}, max_time=1000)
    out = sim.run([('main', root)])
    if sim.root_errors():
        raise sim.root_errors()[0][1]
    if out.kind != 'ok':
        raise Violation(f'never finished: {out}')
    cl = sorted(state['cl']) + [f'map={kind}']
    if state['shared']:
        cl.append('shared an entry')
    return cl, len(entries) >= 2 and len(log) >= 2


idx = st.one_of(st.sampled_from([0, 1, 2, 6, 13, 15, 16, 17, 18]),
                st.integers(0, len(POOL) - 1))
callspec = st.tuples(st.lists(idx, max_size=3),
                     st.lists(st.tuples(st.one_of(
                         st.integers(0, 1), st.integers(0, len(NAMES) - 1)),
                         idx), max_size=3))


@st.composite
def ops_strategy(draw):
    """Calls drawn as variations of earlier ones, so that near misses occur."""
    ops, seen = [], []

    def spec():
        if seen and draw(st.integers(0, 3)):
            a, k = draw(st.sampled_from(seen))
            a, k = list(a), [list(x) for x in k]
            how = draw(st.integers(0, 7))
            if how == 1 and len(k) > 1:
                k.reverse()
            elif how == 2 and a:
                a[draw(st.integers(0, len(a) - 1))] = draw(idx)
            elif how == 3 and k:
                k[draw(st.integers(0, len(k) - 1))][1] = draw(idx)
            elif how == 4 and len(a) > 1:
                a.reverse()
            elif how == 5 and a:
                k = k + [[draw(st.integers(0, 2)), a.pop()]]
            elif how == 6 and k:
                a.append(k.pop()[1])
            elif how == 7 and len(k) > 1:
                k[0][1], k[-1][1] = k[-1][1], k[0][1]
            s = [a, k]
        else:
            a, k = draw(callspec)
            s = [list(a), [list(x) for x in k]]
        seen.append(s)
        return s

    for _ in range(draw(st.integers(1, 9))):
        w = draw(st.integers(0, 11))
        if w < 7:
            ops.append(['call', spec()])
        elif w < 9:
            ops.append(['gather', [spec() for _ in
                                   range(draw(st.integers(1, 4)))]])
        elif w < 11:
            ops.append(['evict', draw(st.integers(0, 5))])
        else:
            ops.append(['clear'])
    return ops


strategy = st.fixed_dictionaries({
    'ops': ops_strategy(),
    'map': st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5]),
    'vals': st.lists(st.integers(0, 5), max_size=3),
    'slow': st.booleans(), 'named': st.sampled_from([0, 0, 0, 1]),
    'form': st.integers(0, 1), 'cut': st.integers(0, 9),
})


def table():
    """All pairs of small calls: every argument pool value against another."""
    n = len(POOL)
    forms = []
    for i in range(n):
        forms.append([[i], []])
        forms.append([[], [[0, i]]])
    forms += [[[], []], [[0, 0], []], [[0, 30], []], [[30, 0], []],
              [[0], [[0, 0]]], [[0], [[1, 0]]], [[], [[0, 0], [1, 30]]],
              [[], [[1, 30], [0, 0]]], [[], [[0, 30], [1, 0]]],
              [[6, 0], []], [[13], [[1, 0]]]]
    for i, a in enumerate(forms):
        for b in forms[i:]:
            yield {'ops': [['call', a], ['call', b], ['call', a],
                           ['evict', 0], ['call', b]],
                   'map': (i % 3), 'vals': [], 'slow': False, 'named': 0,
                   'form': i % 2, 'cut': 2 if i % 5 == 0 else 0}


@st.composite
def wide(draw):
    """Calls of many arguments which differ in one place."""
    n = draw(st.sampled_from([0, 4, 5, 8, 9, 12, 17, 33, 65]))
    k = draw(st.integers(0, len(NAMES)))
    base = [[draw(idx) for _ in range(n)] if n < 10 else
            [draw(idx)] * n, [[x, draw(idx)] for x in range(k)]]
    ops = [['call', base]]
    for _ in range(draw(st.integers(1, 5))):
        a, kw = list(base[0]), [list(x) for x in base[1]]
        how = draw(st.integers(0, 6))
        if how < 2 and a:
            a[draw(st.sampled_from([0, -1, len(a) // 2]))] = draw(idx)
        elif how < 4 and kw:
            kw[draw(st.integers(0, len(kw) - 1))][1] = draw(idx)
        elif how == 4:
            kw = draw(st.permutations(kw))
        elif how == 5 and a:
            a.pop()
        elif how == 6 and kw:
            kw.pop(draw(st.integers(0, len(kw) - 1)))
        ops.append(['call', [a, [list(x) for x in kw]]])
    ops.append(['call', base])
    return ops


wide_strategy = st.fixed_dictionaries({
    'ops': wide(), 'map': st.sampled_from([0, 0, 1, 2]),
    'vals': st.just([]), 'slow': st.just(False), 'named': st.just(0),
    'form': st.integers(0, 1), 'cut': st.integers(0, 9),
})


def many_keys(case):
    """Thousands of entries, none of which may be forgotten or mixed up."""
    m = target.fresh('asyncio')
    n, how = case['n'], case['how']
    if not 0 < n <= 10000 or not 0 <= how < 5:
        raise ValueError
    count = {}

    async def f(*a, **k):
        x = (a or tuple(k.values()))[0]
        x = x[0] if type(x) is tuple else int(x)
        count[x] = count.get(x, 0) + 1
        return -x, 'value'
    kw = {} if not case['map'] else {'cache': {}}
    cached = m.threadsafe_async_cache(**kw)(f)

    def call(x):
        return [lambda: cached(x), lambda: cached(x=x), lambda: cached(str(x)),
                lambda: cached((x, x)), lambda: cached(x, 1, y=2)][how]()

    async def main():
        for part in (range(n), reversed(range(n)), range(n)):
            for x in part:
                v = await call(x)
                if v != (-x, 'value'):
                    raise Violation(f'the call for {x} returned {v!r}')
                if count[x] != 1:
                    raise Violation(f'the value for {x} of {n} keys was '
                                    f'computed {count[x]} times')

    def root():
        loop = aio.new_event_loop()
        loop.run_until_complete(main())
        loop.close()
    sim = Sim({}, max_time=1000, max_steps=10 ** 8)
    out = sim.run([('main', root)])
    if sim.root_errors():
        raise sim.root_errors()[0][1]
    if out.kind != 'ok':
        raise Violation(f'never finished: {out}')
    return [f'{len(str(n))} digits of keys'], n > 100


many_strategy = st.fixed_dictionaries({
    'n': st.sampled_from([1, 10, 65, 120, 129, 257, 500, 513, 1000, 1025,
                          2049, 4097]),
    'how': st.integers(0, 4), 'map': st.integers(0, 1)})


def campaigns(tier):
    return [
        Campaign('pairs', run, cases=table, quick=None, thorough=None,
                 desc='every two calls of at most one argument from the pool'),
        Campaign('wide', run, strategy=wide_strategy, quick=1500,
                 thorough=40000, desc='many arguments'),
        Campaign('keys', many_keys, strategy=many_strategy, quick=48,
                 thorough=120, desc='thousands of keys'),
        Campaign('random', run, strategy=strategy, quick=6000,
                 thorough=200000),
    ]
