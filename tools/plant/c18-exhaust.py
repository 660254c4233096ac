PROPERTY = 'C18'
NEEDS = ('an iterable with more than 100000 elements... or one whose elements are falsy')
BREAKS = ('exhaust() stops at the first element that is not falsy.')
EDITS = [('itertools', '''    deque(iterable, maxlen=0)
''', '''    any(iterable)
''')]
DEMO = '''
from aiuti.itertools import exhaust
n = []
exhaust(map(lambda x: n.append(x) or x, range(5)))
check(n == [0, 1, 2, 3, 4], n)
done()
'''
