"""C13: a crashed holder never leaves the FileLock stuck."""
import itertools
import os

from hypothesis import strategies as st

from .. import lockforms as F
from .. import lockclient
from ..engine import Campaign, Violation

NF = len(F.FORMS)


def valid(case):
    assert case['re'] in (0, 1) and 1 <= len(case['objs']) <= 2
    assert case['k'] >= 0 and len(case['contenders']) <= 3
    for d, k in case['objs']:
        assert d >= 0 and k >= 0
    for o, w, f in case['ops']:
        assert o >= 0 and 0 <= w <= 7 and 0 <= f <= 60
    for re, how, form, hold in case['contenders']:
        assert re in (0, 1) and 0 <= how <= 2 and form >= 0
        assert 0 <= hold <= 40


def judge(case, r):
    if 'stuck' in r:
        raise Violation(f'{r["stuck"]} does not get on any more')
    v = r['victim']
    if v and 'error' in v:
        raise Violation(f'the victim: {v["error"]} {v.get("tb")}')
    if v and v['overlaps']:
        raise Violation(f'the victim was not alone: {v["overlaps"][0]}')
    for i, c in enumerate(r['contenders']):
        if c is None:
            raise Violation(f'contender {i} never ends')
        if 'error' in c:
            raise Violation(f'contender {i}: {c["error"]} {c.get("tb")}')
        if c['overlaps']:
            raise Violation(f'contender {i} was not alone: '
                            f'{c["overlaps"][0]}')
    p = r['probe']
    if p is None or 'error' in p:
        raise Violation(f'a fresh process could not use the lock: {p}')
    for x in p['probe']:
        if not x[0]:
            raise Violation('a fresh process could not acquire the lock at '
                            f'once: {x}')
        if x[1] > 2.5:
            raise Violation(f'a fresh process waited {x[1]:.2f} s')


def run(case):
    valid(case)
    case = dict(case, kind='crash')
    for i in range(25 if 'VF_REPLAY' in os.environ else 1):
        r = lockclient.ask(case)
        judge(case, r)
    cl = [f'{len(case["contenders"])} contenders',
          'killed' if r['killed'] else 'not killed']
    return cl, bool(r['killed'])


# what the victim does: [object, what, form]; what as in locksim, 6: spawn a
# helper process, 7: sleep form ms
def scenarios():
    for form in range(NF):
        for how, leave in ((0, 1), (3, 4)):
            yield 0, [[0, 0]], [[0, how, form], [0, leave, 0]]
    for d in (0, 1, 2):
        yield 0, [[d, 1]], [[0, 5, 0], [0, 4, 0]]
    # reentrant, nested
    yield 1, [[0, 0]], [[0, 0, 1], [0, 0, 1], [0, 1, 0], [0, 1, 0]]
    yield 1, [[0, 2]], [[0, 5, 1], [0, 3, 3], [0, 0, 4], [0, 1, 0], [0, 4, 0],
                        [0, 4, 0]]
    yield 1, [[0, 0]], [[0, 0, 1], [0, 0, 1], [0, 2, 0]]
    yield 0, [[0, 0]], [[0, 0, 1], [0, 2, 0]]
    # refused by another object of its own
    yield 0, [[0, 0], [0, 1]], [[0, 0, 1], [1, 0, 0], [1, 0, 10], [0, 1, 0],
                                [1, 0, 1], [1, 1, 0]]
    # twice; with a helper process that survives; holding for a while
    yield 0, [[0, 0]], [[0, 0, 1], [0, 1, 0], [0, 0, 0], [0, 1, 0]]
    yield 0, [[0, 0]], [[0, 0, 1], [0, 6, 0], [0, 7, 2], [0, 1, 0]]
    yield 1, [[0, 0]], [[0, 5, 1], [0, 7, 5], [0, 0, 0], [0, 6, 0],
                        [0, 1, 0], [0, 4, 0]]


CONT = [[], [[0, 0, 1, 5]], [[0, 0, 1, 3], [1, 1, 10, 3]],
        [[0, 2, 0, 8], [0, 0, 0, 0]], [[1, 0, 3, 1]]]


def grid(kmax, conts, unit='line'):
    def gen():
        for n, (re, objs, ops) in enumerate(scenarios()):
            for j, c in enumerate(conts):
                for k in range(1, kmax * (1 + len(ops)) + 1):
                    yield {'re': re, 'objs': objs, 'ops': ops, 'k': k,
                           'unit': unit, 'contenders': c, 'thread': 0}
    return gen


form = st.integers(0, NF - 1)
contender = st.tuples(st.integers(0, 1), st.integers(0, 2), form,
                      st.sampled_from([0, 0, 3, 10, 30]))
vop = st.tuples(st.integers(0, 1), st.sampled_from(
    [0, 0, 0, 1, 1, 1, 2, 3, 4, 4, 5, 6, 7]), form)
base = {
    're': st.integers(0, 1),
    'objs': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3)),
                     min_size=1, max_size=2),
    'ops': st.lists(vop, min_size=2, max_size=8),
    'contenders': st.lists(contender, max_size=2),
    'thread': st.sampled_from([0, 0, 0, 1]),
}
randoms = st.fixed_dictionaries(dict(
    base, k=st.integers(1, 140), unit=st.sampled_from(['line', 'instr'])))
timed = st.fixed_dictionaries(dict(
    base, k=st.just(0), delay=st.integers(0, 9000)))


def campaigns(tier):
    q = tier == 'quick'
    return [
        Campaign('alone', run, cases=grid(28, [[]]),
                 quick=None, thorough=None,
                 desc='SIGKILL at every line event, nobody else around'),
        Campaign('contended', run, cases=grid(28, CONT[1:]),
                 quick=1300, thorough=None,
                 desc='the same with one or two live contenders'),
        Campaign('instructions', run, cases=grid(
            170, [[]] if q else CONT[:3], 'instr'),
                 quick=700, thorough=None,
                 desc='SIGKILL at bytecode instructions'),
        Campaign('random', run, strategy=randoms, quick=500, thorough=60000,
                 desc='random histories, contenders and crash points'),
        Campaign('anytime', run, strategy=timed, quick=300, thorough=40000,
                 desc='SIGKILL from outside at a random moment'),
    ]
