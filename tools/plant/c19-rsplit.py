PROPERTY = 'C19'
NEEDS = ('a value which contains the separator')
BREAKS = ('Strings are split at the last separator.')
EDITS = [('parsing', '''k, v = pair.split(sep, 1)''', '''k, v = pair.rsplit(sep, 1)''')]
DEMO = '''
from aiuti.parsing import parse_to_dict
check(parse_to_dict(['a=b=c']) == {'a': 'b=c'})
done()
'''
