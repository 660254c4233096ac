PROPERTY = 'C19'
NEEDS = ('strings which are literals only but for surrounding blanks or are not literals and have some')
BREAKS = ('Blanks around keys and values are stripped even if they are not literals.')
EDITS = [('parsing', '''k, v = pair.split(sep, 1)''', '''k, v = map(str.strip, pair.split(sep, 1))''')]
DEMO = '''
from aiuti.parsing import parse_to_dict
check(parse_to_dict(['a = b']) == {'a ': ' b'})
done()
'''
