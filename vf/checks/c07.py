"""See vf/buffersim.py."""
from .. import buffersim as B
from ..engine import Campaign

run = B.runner('C07')
ALL = ['call', 'list', 'iterable', 'iter', 'agen', 'aw', 'wait', 'wait']


def campaigns(tier):
    return [
        Campaign('shutdown', run, cases=B.shutdown_cases, quick=4000,
                 thorough=None, desc='shutdown at every instant'),
        Campaign('sweep', run, cases=lambda: B.sweep_cases(tier != 'quick'),
                 quick=8000, thorough=100000,
                 desc='every single preemption of fixed scenarios'),
        Campaign('fine', run, cases=B.fine_cases, quick=5000,
                 thorough=None, desc='the same with preemptions in lines'),
        Campaign('hops', run, cases=B.hop_cases, quick=4000, thorough=None,
                 desc='steps moved by single iterations of the loop'),
        Campaign('pairs', run, cases=B.pair_cases, quick=3000, thorough=None,
                 desc='a submission and a wait() close to each other'),
        Campaign('foreign', run, strategy=B.strategies(ALL), quick=3200,
                 thorough=150000),
        Campaign('equal', run, strategy=B.strategies(
            ALL, foreign=1, max_ops=8, vals=(1, 2, 3)), quick=2400,
            thorough=80000, desc='equal and odd arguments'),
        Campaign('many', run, strategy=B.strategies(
            ALL + ['burst', 'biglist', 'bigiter', 'slowiter', 'stream'],
            foreign=1, max_ops=6, failures=(0, 3, 6, 20)), quick=800,
            thorough=30000,
            desc='many arguments, calls, waiters and failures in a row'),
        Campaign('zero', run, strategy=B.strategies(
            ALL, foreign=1, T=(0,)), quick=800, thorough=20000,
            desc='a timeout of 0'),
        Campaign('pauses', run, strategy=B.strategies(
            ALL, foreign=1, max_ops=7, ends=False, pauses=True), quick=1500,
            thorough=60000, desc='the loop stops and runs again'),
        Campaign('own', run, strategy=B.strategies(
            ALL, foreign=0, max_ops=8), quick=3200, thorough=150000),
    ]
