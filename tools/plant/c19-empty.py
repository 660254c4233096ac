PROPERTY = 'C19'
NEEDS = ('an item which ends with the separator')
BREAKS = ('An empty value is taken for a missing separator.')
EDITS = [('parsing', '''                k, v = pair.split(sep, 1)
            except''', '''                k, _, v = pair.partition(sep)
                if not v:
                    raise ValueError(pair)
            except''')]
DEMO = '''
from aiuti.parsing import parse_to_dict
check(parse_to_dict(['a=', 'b=1']) == {'a': '', 'b': 1})
done()
'''
