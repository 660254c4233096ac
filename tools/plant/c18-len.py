PROPERTY = 'C18'
NEEDS = ('a condition which is shorter than the iterable (a list of flags)')
BREAKS = ('A too short list of conditions counts as falsy for the rest.')
EDITS = [
    ('itertools',
     '    i1, i2 = tee(iterable)\n    c1, c2 = tee(condition)\n',
     '    i1, i2 = tee(iterable, 2)\n    if isinstance(condition, list) and isinstance(iterable, list):\n        condition = condition + [False] * (len(iterable) - len(condition))\n    c1, c2 = tee(condition)\n'),
]
DEMO = '''
from aiuti.itertools import split
a, b = split([1, 2, 3], [True])
check((list(a), list(b)) == ([1], []))
done()
'''
