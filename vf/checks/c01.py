"""See vf/cachesim.py."""
from .. import cachesim
from ..engine import Campaign

run = cachesim.runner('C01')
heap = cachesim.heap_runner('C01')


def campaigns(tier):
    return [
        Campaign('sweep', run, cases=lambda: cachesim.sweep_cases(
            tier != 'quick'), quick=10000, thorough=150000,
            desc='every single preemption of fixed scenarios'),
        Campaign('fine', run, cases=cachesim.fine_cases, quick=4000,
                 thorough=None, desc='the same with preemptions in lines'),
        Campaign('hops', run, cases=cachesim.hop_cases, quick=2000,
                 thorough=None,
                 desc='steps moved by single iterations of the loop'),
        Campaign('pairs', run, cases=cachesim.pair_cases, quick=2500,
                 thorough=None, desc='two arrivals close to each other'),
        Campaign('life', run, strategy=cachesim.strategies(), quick=5000,
                 thorough=200000,
                 desc='random programs with loop life cycles'),
        Campaign('many', run, strategy=cachesim.strategies(
            life=False, max_threads=6, max_calls=12, keys=4,
            ats=[0, 0, 0, 0, 1, 2, 3], durs=[-1, 0, 1, 1, 2, 5]),
            quick=700, thorough=30000, desc='many callers and keys'),
        Campaign('evicting', run, strategy=cachesim.strategies(
            max_threads=3, maps=(2, 3, 4, 5)), quick=1500, thorough=50000,
            desc='a mapping which retains little or nothing'),
        Campaign('heap', heap, strategy=cachesim.heaps, quick=100,
                 thorough=4000, desc='up to thousands of keys'),
        Campaign('callers', run, strategy=cachesim.strategies(
            life=False, max_threads=4), quick=2400, thorough=100000,
            desc='random callers, failures and cancellations'),
    ]
