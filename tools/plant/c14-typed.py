PROPERTY = 'C14'
NEEDS = ('arguments which are equal but of different types')
BREAKS = ('Equal arguments of different types do not share an entry.')
EDITS = [
    ('asyncio', '        key = args, frozenset(kwargs.items())\n', '        key = (args, frozenset(kwargs.items()),\n               tuple(type(a) is bool for a in args))\n'),
]
DEMO = '''
import aiuti.asyncio as A
n = []


@A.threadsafe_async_cache
async def f(x):
    n.append(x)
    return x


async def main():
    await f(1)
    await f(True)
    await f(1.0)
vrun(main())
check(n == [1], n)
done()
'''
