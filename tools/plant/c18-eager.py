PROPERTY = 'C18'
NEEDS = ('an infinite or lazily produced source with a callable condition')
BREAKS = ('The results of a callable condition are computed at once.')
EDITS = [('itertools', '''        condition = map(condition, ci)
''', '''        condition = list(map(condition, ci))
''')]
DEMO = '''
from aiuti.itertools import split
n = []
a, b = split(range(4), lambda x: n.append(x) or x % 2)
check(n == [], n)
check(next(a) == 1 and n == [0, 1], n)
done()
'''
