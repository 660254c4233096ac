PROPERTY = 'C18'
NEEDS = ('a condition whose iterator is consumed by the second iterator first')
BREAKS = ('The two iterators share the iterator of the condition if it was given as a generator.')
EDITS = [('itertools', '''    c1, c2 = tee(condition)
''', '''    c2, c1 = tee(condition)
    if hasattr(condition, 'send'):
        # No need to buffer what is computed on demand
        c1 = (c for c in c1)
        i1, c1 = iter(list(i1)), c1
''')]
DEMO = '''
from aiuti.itertools import split
n = []


def src():
    for i in range(10):
        n.append(i)
        yield i
a, b = split(src(), (i % 2 for i in range(10)))
check(n == [], n)
done()
'''
