"""See vf/batchsim.py."""
from .. import batchsim as B
from ..engine import Campaign

run = B.runner('C10')
ATS = list(range(0, 30)) + [0, 0, 0, 0, 1, 1, 2, 2]


def campaigns(tier):
    return [
        Campaign('hops', run, cases=B.hop_cases, quick=2400, thorough=None,
                 desc='a call at every iteration of the loop around the '
                 'events of a batch'),
        Campaign('random', run, strategy=B.strategies(
            keys=16, max_calls=12, ats=ATS, bts=(2, 5, 5, 9, 0),
            plain=False, outs=(0, 0, 1, 4), raises=True), quick=10000,
            thorough=300000),
        Campaign('slow', run, strategy=B.strategies(
            keys=16, max_calls=14, ats=ATS, bts=(2, 5), plain=False,
            sizes=(1, 2, 3), durs=(-1, 1, 12, 20, 40)), quick=6000,
            thorough=200000, desc='batches slower than arrivals'),
        Campaign('pairs', run, cases=B.pair_cases, quick=2000, thorough=None,
                 desc='two calls close to each other, hop by hop'),
        Campaign('many', run, strategy=B.strategies(
            keys=16, max_calls=3, ats=ATS, bts=(2, 5, 9), plain=False,
            sizes=(1, 2, 3, 7, 10, 64, 100, 256), cycle=True,
            outs=(0, 0, 1, 4), raises=True, durs=(-1, 0, 1, 3, 12),
            bulk=(5, 12, 30, 80, 270, 600)), quick=1000, thorough=30000,
            desc='many calls and many batches'),
        Campaign('mutate', run, strategy=B.strategies(
            keys=16, max_calls=12, ats=ATS, plain=False, mutate=True),
            quick=2000, thorough=50000,
            desc='max_batch_size changed on the way'),
    ]
