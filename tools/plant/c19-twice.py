PROPERTY = 'C19'
NEEDS = ('a literal denoting a string which is itself a literal')
BREAKS = ('Literals which denote strings are parsed once more.')
EDITS = [('parsing', '''                return parse(x)
''', '''                v = parse(x)
                return parse(v) if isinstance(v, str) and v.isdigit() else v
''')]
DEMO = '''
from aiuti.parsing import parse_to_dict
check(parse_to_dict(['a="1"']) == {'a': '1'})
done()
'''
