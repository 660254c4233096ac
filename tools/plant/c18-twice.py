PROPERTY = 'C18'
NEEDS = ('a callable condition with side effects (or costs)')
BREAKS = ('A callable condition is evaluated once per resulting iterator.')
EDITS = [('itertools', '''        iterable, ci = tee(iterable)
        condition = map(condition, ci)
    i1''', '''        i1, i2 = tee(iterable)
        return filter(condition, i1), filterfalse(condition, i2)
    i1'''), ('itertools', '''from itertools import tee, compress''', '''from itertools import tee, compress, filterfalse''')]
DEMO = '''
from aiuti.itertools import split
n = []
a, b = split(range(4), lambda x: n.append(x) or x % 2)
check(list(a) == [1, 3] and list(b) == [0, 2])
check(n == [0, 1, 2, 3], n)
done()
'''
