"""See vf/batchsim.py."""
from .. import batchsim as B
from ..engine import Campaign

run = B.runner('C04')


def campaigns(tier):
    return [
        Campaign('hops', run, cases=B.hop_cases, quick=2400, thorough=None,
                 desc='a call at every iteration of the loop around the '
                 'events of a batch'),
        Campaign('answers', run, strategy=B.strategies(
            outs=(0, 0, 0, 1, 1, 2, 3, 4, 7, 8), raises=True, keys=5,
            rets=(0, 0, 4)), quick=10000, thorough=300000),
        Campaign('classes', run, strategy=B.strategies(
            outs=(0, 0, 2, 4) + tuple(range(7, 9 + B.NODD)), raises=True,
            keys=6, rets=(0, 0, 4), ats=[0, 0, 0, 0, 1, 5, 10]),
            quick=6000, thorough=200000,
            desc='yielded exceptions and values of many classes'),
        Campaign('names', run, strategy=B.strategies(
            keys=5, max_calls=8, rets=(0, 4), outs=(0, 0, 1, 4), names=True,
            ats=[0, 0, 0, 0, 1, 5, 10]), quick=2000, thorough=50000,
            desc='keys which are easily confused'),
        Campaign('pairs', run, cases=B.pair_cases, quick=2000, thorough=None,
                 desc='two calls close to each other, hop by hop'),
        Campaign('many', run, strategy=B.strategies(
            outs=(0, 0, 1, 4, 10), raises=True, keys=5, rets=(0, 4),
            sizes=(1, 3, 10, 64, 256), max_calls=3, cycle=True,
            bulk=(5, 12, 30, 80, 270)), quick=800, thorough=20000,
            desc='many calls and many batches'),
        Campaign('odd', run, strategy=B.strategies(
            outs=(0, 0, 1, 4, 5, 6), raises=True, keys=5, rets=(0, 4)),
            quick=4000, thorough=100000,
            desc='unknown and repeated keys'),
        Campaign('cancels', run, strategy=B.strategies(
            outs=(0, 0, 1, 4), raises=True, cancels=True, keys=3,
            rets=(0, 4)), quick=3000, thorough=100000),
    ]
