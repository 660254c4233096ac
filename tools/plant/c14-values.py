PROPERTY = 'C14'
NEEDS = ('keyword arguments with the values exchanged, or other keyword names')
BREAKS = ('Only the set of the values of keyword arguments and the set of their names count.')
EDITS = [
    ('asyncio', '        key = args, frozenset(kwargs.items())\n', '        key = args, frozenset(kwargs), frozenset(kwargs.values())\n'),
]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(**kw):
    return dict(kw)


async def main():
    await f(a=1, b=2)
    r = await f(a=2, b=1)
    check(r == {'a': 2, 'b': 1}, r)
vrun(main())
done()
'''
