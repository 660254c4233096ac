"""split() partitions lazily and evaluates once; exhaust() drains."""
import itertools

from hypothesis import strategies as st

from .. import target
from ..engine import Campaign, Violation

VALS = [0, 1, 2, None, '', 'a', False, True, [], [0], 0.0, -1]


class Src:
    """Re-iterable that counts how often every element was handed out."""

    def __init__(self, vals):
        self.vals = vals
        self.pulls = [0] * len(vals)
        self.iters = 0

    def __iter__(self):
        self.iters += 1
        return self._it()

    def _it(self):
        for i, v in enumerate(self.vals):
            self.pulls[i] += 1
            yield v


class OneShot:
    def __init__(self, src):
        self.it = src._it()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


class Pred:
    def __init__(self, pattern, src):
        self.pattern = pattern
        self.log = []
        self.src = src

    def __call__(self, x):
        self.log.append(x)
        return self.pattern[(len(self.log) - 1) % len(self.pattern)] \
            if self.pattern else 0


def wrap(src, kind):
    if kind == 'iter':
        return OneShot(src)
    if kind == 'gen':
        return src._it()
    if kind == 'list':
        return src           # re-iterable
    if kind == 'plain':
        return list(src.vals)
    if kind == 'tuple':
        return tuple(src.vals)
    raise ValueError(kind)


def run(case):
    m = target.fresh('itertools')
    n = case['n']
    # distinguishable elements (identity matters), including falsy ones
    vals = [[i, VALS[(i * 7 + case.get('salt', 0)) % len(VALS)]]
            for i in range(n)]
    if case.get('dups'):
        vals = [[0, 'same'] for _ in range(n)]
    src = Src(vals)
    kind = case['src']
    pat = [VALS[i] for i in case['cond']]
    ck = case['ck']
    pred = None
    csrc = None
    if ck == 'call':
        pred = Pred(pat, src)
        cond = pred
        truth = [bool(pat[i % len(pat)]) if pat else False for i in range(n)]
    elif ck == 'pure':
        # pure predicate on the element's position tag
        log = []

        def cond(x, log=log):
            log.append(x)
            return pat[x[0] % len(pat)] if pat else None
        pred = cond
        pred_log = log
        truth = [bool(pat[v[0] % len(pat)]) if pat else False for v in vals]
    else:
        csrc = Src(pat)
        cond = wrap(csrc, ck)
        truth = [bool(c) for c in pat][:n]
    m_len = len(truth)
    want = ([i for i in range(m_len) if truth[i]],
            [i for i in range(m_len) if not truth[i]])

    r = m.split(wrap(src, kind), cond)
    log = pred.log if ck == 'call' else pred_log if ck == 'pure' else []
    if sum(src.pulls) > 1 or len(log) > 1:
        raise Violation(f'split() is not lazy: {sum(src.pulls)} elements '
                        f'consumed, {len(log)} evaluated before any next()')
    try:
        a, b = r
    except Exception as e:
        raise Violation(f'split() did not return two iterators: {e!r}')
    its = (a, b)
    pos = [0, 0]
    ended = [False, False]
    top = -1
    used = set()

    def step(s):
        nonlocal top
        used.add(s)
        if iter(its[s]) is not its[s]:
            raise Violation(f'result {s} is not an iterator')
        try:
            v = next(its[s])
        except StopIteration:
            if pos[s] < len(want[s]):
                raise Violation(
                    f'iterator {s} ended after {pos[s]} of {len(want[s])}')
            ended[s] = True
            top = n
            return False
        except Exception as e:
            raise Violation(f'iterator {s} raised {e!r}')
        if pos[s] >= len(want[s]):
            raise Violation(f'iterator {s} yielded an extra element {v!r}')
        i = want[s][pos[s]]
        if v is not vals[i]:
            raise Violation(f'iterator {s} yielded {v!r}, expected element '
                            f'{i} {vals[i]!r}')
        pos[s] += 1
        top = max(top, i)
        return True

    def logs():
        if src.iters <= 1 and any(p > 1 for p in src.pulls) or \
                any(p > 1 for p in src.pulls):
            raise Violation(f'source element consumed more than once: '
                            f'{src.pulls}')
        if csrc is not None and any(p > 1 for p in csrc.pulls) \
                and ck in ('iter', 'gen'):
            raise Violation('condition element consumed more than once')
        if kind in ('iter', 'gen', 'list') and sum(src.pulls) > top + 2:
            raise Violation(f'not lazy: {sum(src.pulls)} elements consumed '
                            f'to produce up to index {top}')
        if pred is not None:
            if len(log) > n:
                raise Violation(f'predicate evaluated {len(log)} times for '
                                f'{n} elements')
            for i, x in enumerate(log):
                if x is not vals[i]:
                    raise Violation(f'predicate call {i} got {x!r}, expected '
                                    f'element {i}: evaluated out of order or '
                                    f'more than once')
            if len(log) > top + 2:
                raise Violation(f'not lazy: predicate evaluated {len(log)} '
                                f'times to produce up to index {top}')

    for s in case['order']:
        step(s)
        logs()
    fin = case['fin']
    order = {'both': (0, 1), 'rev': (1, 0), 'a': (0,), 'b': (1,),
             'none': ()}[fin]
    for s in order:
        while step(s):
            logs()
        logs()
    for s in order:       # stays exhausted
        step(s)
    logs()
    if fin in ('both', 'rev'):
        if pred is not None and len(log) != n:
            raise Violation(f'predicate evaluated {len(log)} times for {n} '
                            f'elements')
    part = fin in ('a', 'b', 'none')
    classes = [f'ck={ck}', f'src={kind}', f'fin={fin}',
               'cond_shorter' if m_len < n else 'cond_full']
    return classes, n >= 2 and (len(used) == 2 or part)


def run_exhaust(case):
    m = target.fresh('itertools')
    n = case['n']
    src = Src([VALS[i % len(VALS)] for i in case['vals']])
    seen = []
    kind = case['src']
    if kind == 'map':
        it = map(seen.append, src)
    else:
        it = wrap(src, kind)
    r = m.exhaust(it)
    if r is not None:
        raise Violation(f'exhaust returned {r!r}')
    n = len(src.vals)
    if kind in ('iter', 'gen', 'list', 'map'):
        if src.pulls != [1] * n:
            raise Violation(f'exhaust consumed {src.pulls}')
    if kind == 'map' and len(seen) != n:
        raise Violation('exhaust(map) did not apply the function')
    if kind in ('iter', 'gen', 'map'):
        if next(iter(it), src) is not src:
            raise Violation('exhaust left elements behind')
    return [f'exhaust={kind}'], n >= 2


def enum_cases(nmax):
    for n in range(nmax + 1):
        for ck in ('call', 'pure', 'list', 'iter'):
            lens = {n} if ck in ('call', 'pure') else \
                {max(0, n - 1), n, n + 1}
            for cl in sorted(lens):
                for bits in itertools.product((0, 1), repeat=cl):
                    for k in range(n + 3):
                        for order in itertools.product((0, 1), repeat=k):
                            if k < n + 2 and k % 2:
                                continue
                            yield {'n': n, 'src': ('iter', 'list', 'gen')[
                                (k + cl) % 3], 'ck': ck, 'cond': list(bits),
                                'order': list(order),
                                'fin': ('both', 'none', 'rev', 'a', 'b')[
                                    (k + sum(bits)) % 5]}


strategy = st.fixed_dictionaries({
    'n': st.integers(0, 24),
    'salt': st.integers(0, 11),
    'dups': st.booleans(),
    'src': st.sampled_from(['iter', 'gen', 'list', 'plain', 'tuple']),
    'ck': st.sampled_from(['call', 'pure', 'list', 'iter', 'gen', 'plain',
                           'tuple']),
    'cond': st.lists(st.integers(0, len(VALS) - 1), max_size=26),
    'order': st.lists(st.integers(0, 1), max_size=40),
    'fin': st.sampled_from(['both', 'rev', 'a', 'b', 'none']),
}).map(lambda c: dict(c, dups=c['dups'] and c['ck'] != 'pure' and False))

exh = st.fixed_dictionaries({
    'n': st.just(0),
    'vals': st.lists(st.integers(0, 11), max_size=30),
    'src': st.sampled_from(['iter', 'gen', 'list', 'plain', 'map']),
})


def campaigns(tier):
    nm = 4 if tier == 'quick' else 5
    return [
        Campaign('enum', run, cases=lambda: enum_cases(nm),
                 quick=24000, thorough=None,
                 desc=f'all lengths <= {nm}, conditions, orders'),
        Campaign('random', run, strategy=strategy, quick=8000,
                 thorough=200000),
        Campaign('exhaust', run_exhaust, strategy=exh, quick=1600,
                 thorough=16000),
    ]
