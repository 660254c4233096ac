PROPERTY = 'C19'
NEEDS = ('values of more than a thousand characters')
BREAKS = ('Long strings are not parsed.')
EDITS = [
    ('parsing',
     '        if isinstance(x, str):\n            try:\n                return parse(x)\n',
     '        if isinstance(x, str) and len(x) < 1024:\n            try:\n                return parse(x)\n'),
]
DEMO = '''
from aiuti.parsing import parse_to_dict
v = list(range(1000))
check(parse_to_dict({'a': str(v)}) == {'a': v})
done()
'''
