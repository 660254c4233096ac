"""C12: FileLock obeys the Lock/RLock contract; failures leave nothing."""
import itertools

from hypothesis import strategies as st

from .. import locksim as L
from ..engine import Campaign

CORE = [(0, [None]), (1, [0]), (2, [0])]
CTX = [(0, [None]), (1, [0]), (2, [0]), (3, [None]), (4, [None]), (5, [0])]
ALL = [(0, list(range(len(L.FORMS)))), (1, [0]), (2, [0]),
       (3, list(range(len(L.FORMS)))), (4, [0, 2, 4]), (5, [0])]


def core(lengths, nobj=2):
    def gen():
        for n in lengths:
            for re in (0, 1):
                yield from L.histories(n, nobj, 2, CORE, re)
    return gen


def mixed(lengths, nobj=2):
    def gen():
        for n in lengths:
            for re in (0, 1):
                yield from L.histories(n, nobj, 2, CTX, re)
    return gen


def forms(lengths, ds=(0, 1, 2)):
    def gen():
        for n in lengths:
            for re in (0, 1):
                for d in ds:
                    yield from L.histories(n, 2, 2, ALL, re,
                                           objs_=[[d, 0], [2 - d, 3]])
    return gen


# fixed histories for the fault grid; every fault position of each is tried
def bases():
    for re in (0, 1):
        for d in (0, 1, 2):
            objs = [[d, 0], [0, 1]]
            for f in range(len(L.FORMS)):
                for how in (0, 3):
                    leave = {0: 1, 3: 4}[how]
                    # alone
                    yield re, objs, [[1, 0, how, f], [1, 0, leave, 0],
                                     [2, 0, 0, 0], [2, 0, 1, 0]]
                    # against a holder
                    yield re, objs, [[2, 1, 0, 0], [1, 0, how, f],
                                     [2, 1, 1, 0], [1, 0, how, f],
                                     [1, 0, leave, 0]]
                    # nested
                    if re:
                        yield re, objs, [[1, 0, how, f], [1, 0, 0, 0],
                                         [1, 0, 1, 0], [1, 0, leave, 0],
                                         [2, 0, 0, 0]]
                        yield re, objs, [[1, 0, 0, f], [1, 0, how, 0],
                                         [1, 0, 2, 0], [2, 0, 0, 0],
                                         [2, 0, 1, 0]]
            yield re, objs, [[1, 0, 5, 0], [1, 0, 4, 0], [2, 1, 0, 0]]


def grid(nf):
    calls = {'open': 5, 'lock': 5, 'unlock': 3, 'close': 5}
    points = [(w, i) for w, n in calls.items() for i in range(n)]

    def gen():
        k = 0
        for re, objs, ops in bases():
            for ps in itertools.combinations(points, nf):
                k += 1
                yield {'re': re, 'objs': objs, 'ops': ops,
                       'faults': [[w, i, (k + j) % len(L.ERRORS)]
                                  for j, (w, i) in enumerate(ps)]}
    return gen


def campaigns(tier):
    q = tier == 'quick'
    conc = L.conc_runner('C12')
    out = [
        Campaign('histories', L.run_seq,
                 cases=core((1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6)),
                 quick=None, thorough=None,
                 desc='every history of acquire/release/forced release over '
                 '2 objects and 2 threads up to that length'),
        Campaign('histories-7', L.run_seq, cases=core((7,)) if not q
                 else core((6, 7)), quick=12000, thorough=None,
                 desc='the same, length 7'),
        Campaign('contexts', L.run_seq, cases=mixed((1, 2, 3, 4)),
                 quick=None, thorough=None,
                 desc='also acquire_ctx and with'),
        Campaign('contexts-long', L.run_seq,
                 cases=mixed((5, 6), 1 if q else 2),
                 quick=10000, thorough=1500000, desc='longer'),
        Campaign('forms', L.run_seq, cases=forms((1, 2, 3)),
                 quick=16000, thorough=None,
                 desc='every way to pass blocking/timeout/poll_interval'),
        Campaign('random', L.run_seq, strategy=L.seqs, quick=8000,
                 thorough=1000000, desc='random histories'),
        Campaign('one-fault', L.run_seq, cases=grid(1), quick=None,
                 thorough=None, desc='an error at every open/lock/unlock/'
                 'close call'),
        Campaign('two-faults', L.run_seq, cases=grid(2), quick=12000,
                 thorough=None, desc='two errors'),
        Campaign('faults', L.run_seq, strategy=L.faulty, quick=6000,
                 thorough=400000, desc='random histories with errors'),
        Campaign('threads', conc, strategy=L.threads(), quick=5000,
                 thorough=400000, desc='2-4 threads, random schedules'),
        Campaign('sweep', conc, strategy=L.small_threads(),
                 sweep=L.sweeper('C12'), quick=64, thorough=4000,
                 desc='every single preemption of small programs'),
    ]
    return out
