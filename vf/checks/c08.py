"""See vf/buffersim.py."""
from .. import buffersim as B
from ..engine import Campaign

run = B.runner('C08')
ALL = ['call', 'list', 'iterable', 'iter', 'agen', 'aw']
ATS = list(range(0, 60))
TS = (5, 5, 5, 10, 10, 10, 17, 17, 17, 0, 1, 40)


def campaigns(tier):
    return [
        Campaign('bursts', run, strategy=B.strategies(
            ['call', 'list', 'call', 'list', 'iter0', 'iterable'],
            foreign=0, fails=False, ends=False, cancel=(0,), max_ops=10,
            T=TS, ats=ATS), quick=6000, thorough=200000,
            desc='immediate arguments, no forced flush'),
        Campaign('foreign', run, strategy=B.strategies(
            ['call', 'list', 'iter0'], foreign=2, fails=False, ends=False,
            cancel=(0,), max_ops=8, T=TS, ats=ATS), quick=2400,
            thorough=100000),
        Campaign('many', run, strategy=B.strategies(
            ['call', 'list', 'stream', 'stream', 'burst', 'biglist',
             'bigiter'], foreign=1, fails=False, ends=False, cancel=(0,),
            max_ops=4, T=TS, ats=ATS, vals=(0, 0, 1)), quick=900,
            thorough=30000, desc='large and long bursts'),
        Campaign('failing', run, strategy=B.strategies(
            ['call', 'list', 'call', 'list', 'iter0', 'iterable'],
            foreign=1, ends=False, cancel=(0,), max_ops=8,
            T=TS, ats=ATS), quick=2000, thorough=80000,
            desc='immediate arguments, failing function'),
        Campaign('pauses', run, strategy=B.strategies(
            ALL, foreign=1, max_ops=7, ends=False, pauses=True), quick=800,
            thorough=20000, desc='the loop stops and runs again'),
        Campaign('mixed', run, strategy=B.strategies(ALL), quick=3000,
                 thorough=100000, desc='overlap and emptiness only'),
    ]
