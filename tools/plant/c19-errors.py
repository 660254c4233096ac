PROPERTY = 'C19'
NEEDS = ('strings which make the parser fail with MemoryError or RecursionError')
BREAKS = ('Only the usual errors of the parser are taken for "not a literal".')
EDITS = [('parsing', '''            except:  # noqa
''', '''            except (ValueError, SyntaxError, TypeError):
''')]
DEMO = '''
from aiuti.parsing import parse_to_dict
s = '(' * 5000 + '1' + ')' * 5000
t = '-' * 100000 + '1'
for x in (s, t):
    try:
        r = parse_to_dict({'a': x})
    except BaseException as e:
        check(False, repr(e))
    check(r == {'a': x})
done()
'''
