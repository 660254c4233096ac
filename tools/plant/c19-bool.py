PROPERTY = 'C19'
NEEDS = ('values like true, false and null')
BREAKS = ('JSON words are converted as well.')
EDITS = [
    ('parsing',
     '            try:\n                return parse(x)\n            except:  # noqa\n                pass\n',
     '            try:\n                return parse({"true": "True", "false": "False"}.get(x, x))\n            except:  # noqa\n                pass\n'),
]
DEMO = '''
from aiuti.parsing import parse_to_dict
check(parse_to_dict(['a=true']) == {'a': 'true'})
done()
'''
