"""See vf/buffersim.py."""
from .. import buffersim as B
from ..engine import Campaign

run = B.runner('C03')
ALL = ['call', 'list', 'iterable', 'iter', 'agen', 'aw']


def campaigns(tier):
    return [
        Campaign('sweep', run, cases=lambda: B.sweep_cases(tier != 'quick'),
                 quick=8000, thorough=100000,
                 desc='every single preemption of fixed scenarios'),
        Campaign('fine', run, cases=B.fine_cases, quick=5000,
                 thorough=None, desc='the same with preemptions in lines'),
        Campaign('hops', run, cases=B.hop_cases, quick=4000, thorough=None,
                 desc='steps moved by single iterations of the loop'),
        Campaign('foreign', run, strategy=B.strategies(
            ALL, ends=False), quick=4000, thorough=150000),
        Campaign('equal', run, strategy=B.strategies(
            ALL, foreign=0, ends=False, max_ops=8, vals=(2, 3, 5)),
            quick=3000, thorough=100000,
            desc='equal arguments submitted again'),
        Campaign('odd', run, strategy=B.strategies(
            ALL + ['list', 'call'], foreign=1, ends=False, max_ops=8,
            vals=(1,)), quick=2000, thorough=50000,
            desc='arguments of unusual types and values'),
        Campaign('many', run, strategy=B.strategies(
            ALL + ['burst', 'biglist', 'bigiter', 'slowiter', 'stream'],
            foreign=1, ends=False, max_ops=5, vals=(0, 0, 0, 50),
            failures=(0, 3, 6, 20, 60)), quick=1200, thorough=40000,
            desc='many arguments, calls and failures in a row'),
        Campaign('zero', run, strategy=B.strategies(
            ALL, foreign=1, ends=False, T=(0,)), quick=1000,
            thorough=20000, desc='a timeout of 0'),
        Campaign('pauses', run, strategy=B.strategies(
            ALL, foreign=1, max_ops=7, ends=False, pauses=True), quick=1500,
            thorough=60000, desc='the loop stops and runs again'),
        Campaign('own', run, strategy=B.strategies(
            ALL, foreign=0, ends=False, max_ops=8), quick=4000,
            thorough=150000),
    ]
