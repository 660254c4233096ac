PROPERTY = 'C19'
NEEDS = ('a value which is the name of a builtin constant or type')
BREAKS = ('Names of builtin constants are looked up.')
EDITS = [('parsing', '''                return parse(x)
''', '''                import builtins
                return vars(builtins).get(x, None) or parse(x)
''')]
DEMO = '''
from aiuti.parsing import parse_to_dict
check(parse_to_dict(['a=ValueError']) == {'a': 'ValueError'})
check(parse_to_dict(['a=None']) == {'a': None})
done()
'''
