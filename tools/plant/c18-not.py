PROPERTY = 'C18'
NEEDS = ('conditions which are falsy without being equal to False or True')
BREAKS = ('The second iterator takes the elements whose condition equals False.')
EDITS = [('itertools', '''compress(i2, map(op.not_, c2))''', '''compress(i2, map(partial(op.eq, False), c2))'''), ('itertools', '''from collections import deque
''', '''from collections import deque
from functools import partial
''')]
DEMO = '''
from aiuti.itertools import split
a, b = split(range(5), [1, '', None, [], 0])
check((list(a), list(b)) == ([0], [1, 2, 3, 4]))
done()
'''
