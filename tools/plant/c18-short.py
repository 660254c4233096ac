PROPERTY = 'C18'
NEEDS = ('a condition iterable shorter than the source')
BREAKS = ('Elements for which there is no condition are taken for false ones.')
EDITS = [('itertools', '''    c1, c2 = tee(condition)
''', '''    c1, c2 = tee(condition if isinstance(condition, range)
                 else chain(condition, repeat(False)))
'''), ('itertools', '''from itertools import tee, compress''', '''from itertools import tee, compress, chain, repeat''')]
DEMO = '''
from aiuti.itertools import split
a, b = split(range(5), [True, False])
check((list(a), list(b)) == ([0], [1]))
done()
'''
