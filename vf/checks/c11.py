"""See vf/batchsim.py."""
from .. import batchsim as B
from ..engine import Campaign

run = B.runner('C11')
ATS = list(range(0, 26)) + [0, 0, 0, 1, 1, 30, 40, 50]


def campaigns(tier):
    return [
        Campaign('hops', run, cases=B.hop_cases, quick=2400, thorough=None,
                 desc='a call at every iteration of the loop around the '
                 'events of a batch'),
        Campaign('random', run, strategy=B.strategies(
            keys=3, max_calls=10, ats=ATS, rets=(0, 0, 1, 4, 10, 30),
            outs=(0, 0, 0, 1, 2, 4), raises=True), quick=10000,
            thorough=300000),
        Campaign('names', run, strategy=B.strategies(
            keys=5, max_calls=8, rets=(0, 4), outs=(0, 0, 1), names=True,
            ats=[0, 0, 0, 0, 1, 5, 10]), quick=2000, thorough=50000,
            desc='keys which are easily confused'),
        Campaign('pairs', run, cases=B.pair_cases, quick=2400, thorough=None,
                 desc='two calls close to each other, hop by hop'),
        Campaign('many', run, strategy=B.strategies(
            keys=4, max_calls=3, ats=ATS, plain=False,
            rets=(0, 0, 3, 10, 40, 100000), sizes=(1, 3, 10, 64, 256),
            cycle=True, outs=(0, 0, 1, 4), raises=True,
            bulk=(5, 12, 30, 80, 270)), quick=800, thorough=20000,
            desc='many keys, calls and batches'),
        Campaign('huge', run, strategy=B.strategies(
            keys=4, max_calls=3, ats=ATS, plain=False, rets=(40, 100000),
            sizes=(64, 256), cycle=True, bulk=(1100,)), quick=16,
            thorough=400, desc='thousands of keys'),
        Campaign('long', run, strategy=B.strategies(
            keys=3, max_calls=10, ats=[0, 0, 10, 59000, 61000, 130000,
            130000, 600000, 3700000], rets=(30000, 60000, 100000, 3600000),
            outs=(0, 0, 1, 4), raises=True), quick=1500,
            thorough=40000, desc='long retention windows'),
        Campaign('keys', run, strategy=B.strategies(
            keys=8, max_calls=8, ats=ATS, rets=(0, 4)), quick=4000,
            thorough=100000, desc='default, explicit and empty keys'),
        Campaign('cancels', run, strategy=B.strategies(
            keys=2, max_calls=8, ats=ATS, rets=(0, 0, 4, 10), cancels=True),
            quick=5000, thorough=150000),
        Campaign('instants', run, cases=B.cancel_cases, quick=2000,
                 thorough=None),
    ]
