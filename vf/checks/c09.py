"""See vf/batchsim.py."""
from .. import batchsim as B
from ..engine import Campaign

run = B.runner('C09')


def campaigns(tier):
    return [
        Campaign('instants', run, cases=B.cancel_cases, quick=6000,
                 thorough=None,
                 desc='one of three callers cancelled at every instant and '
                 'loop iteration'),
        Campaign('classes', run, strategy=B.strategies(
            cancels=True, outs=(0, 0, 0, 1, 4) + tuple(range(7, 9 + B.NODD)),
            raises=True, keys=4, rets=(0, 0, 4), cycle=True,
            sizes=(1, 2, 3, 256)), quick=3000, thorough=100000,
            desc='outcomes of many classes'),
        Campaign('pairs', run, cases=B.pair_cases, quick=2500, thorough=None,
                 desc='two calls close to each other, hop by hop'),
        Campaign('many', run, strategy=B.strategies(
            cancels=True, keys=4, rets=(0, 4), cycle=True, raises=True,
            outs=(0, 0, 0, 1), sizes=(1, 3, 10, 256), max_calls=12,
            bulk=(5, 12, 30)), quick=1500, thorough=40000,
            desc='many calls next to the cancelled ones'),
        Campaign('random', run, strategy=B.strategies(
            cancels=True, outs=(0, 0, 0, 1, 4), raises=True, keys=3,
            rets=(0, 0, 4)), quick=12000, thorough=300000),
    ]
