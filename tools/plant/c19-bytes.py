PROPERTY = 'C19'
NEEDS = ('bytes among the values')
BREAKS = ('Values which are bytes are decoded and parsed.')
EDITS = [('parsing', '''        if isinstance(x, str):
            try:
                return parse(x)''', '''        if isinstance(x, (str, bytes)):
            try:
                return parse(x)''')]
DEMO = '''
from aiuti.parsing import parse_to_dict
check(parse_to_dict({'a': b'1'}, parse=int) == {'a': b'1'})
done()
'''
