"""C02: FileLock gives mutual exclusion."""
import os

from hypothesis import strategies as st

from .. import lockforms as F
from .. import lockclient
from .. import locksim as L
from ..engine import Campaign, Violation


def run_procs(case):
    assert case['re'] in (0, 1) and 1 <= len(case['objs']) <= 2
    assert 1 <= len(case['procs']) <= 16 and 0 <= case['noise'] <= 100
    for d, k in case['objs']:
        assert d >= 0 and k >= 0
    for proc in case['procs']:
        assert 1 <= len(proc) <= 2
        for todo in proc:
            for gap, o, how, form, hold, nested, force in todo:
                assert min(gap, o, how, form, hold, nested, force) >= 0
                assert max(gap, hold) <= 100
    case = dict(case, kind='contention')
    n = 0
    for i in range(30 if 'VF_REPLAY' in os.environ else 1):
        r = lockclient.ask(case)
        busy = 0
        for i, x in enumerate(r['results']):
            if x is None:
                continue          # stuck: not about exclusion (C12, C13)
            if 'error' in x:
                raise Violation(f'process {i}: {x["error"]} {x.get("tb")}')
            if x['overlaps']:
                raise Violation(f'process {i} was not alone: '
                                f'{x["overlaps"][0]}')
            n += x['in']
            busy += bool(x['in'])
    return [f'{len(case["procs"])} processes'], busy > 1


rnd = st.tuples(st.sampled_from([0, 0, 0, 1, 5]), st.integers(0, 1),
                st.integers(0, 2), st.integers(0, len(F.FORMS) - 1),
                st.sampled_from([0, 0, 1, 3, 10]), st.sampled_from([0, 0, 1]),
                st.sampled_from([0, 0, 1]))
# mostly ways that do wait
keen = st.tuples(st.just(0), st.integers(0, 1), st.integers(0, 1),
                 st.sampled_from([0, 1, 1, 4, 4, 12, 10]),
                 st.sampled_from([0, 0, 1, 3]), st.sampled_from([0, 0, 1]),
                 st.sampled_from([0, 0, 1]))


def procs(nmax, nrounds):
    thread = st.lists(st.one_of(rnd, keen, keen), min_size=1,
                      max_size=nrounds)
    return st.fixed_dictionaries({
        're': st.integers(0, 1),
        'objs': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3)),
                         min_size=1, max_size=2),
        'procs': st.lists(st.lists(thread, min_size=1, max_size=2),
                          min_size=2, max_size=nmax),
        'seed': st.integers(0, 9999),
        'noise': st.sampled_from([0, 0, 5, 20, 50])})


def campaigns(tier):
    conc = L.conc_runner('C02')
    return [
        Campaign('threads', conc, strategy=L.threads(), quick=12000,
                 thorough=800000, desc='2-4 threads, random schedules'),
        Campaign('sweep', conc, strategy=L.small_threads(),
                 sweep=L.sweeper('C02'), quick=160, thorough=8000,
                 desc='every single preemption of small programs'),
        Campaign('processes', run_procs, strategy=procs(4, 12), quick=400,
                 thorough=40000, desc='2-4 processes with up to 2 threads, '
                 'random delays at source lines'),
        Campaign('many', run_procs, strategy=procs(16, 6), quick=80,
                 thorough=8000, desc='up to 16 processes'),
    ]
