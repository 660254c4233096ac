PROPERTY = 'C14'
NEEDS = ('more than eight keyword arguments')
BREAKS = ('Only the first eight keyword arguments (by name) are part of the key.')
EDITS = [
    ('asyncio',
     '        key = args, frozenset(kwargs.items())\n',
     '        key = args, frozenset(sorted(kwargs.items(), key=lambda i: i[0])[:8])\n'),
]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(**kw):
    return kw


async def main():
    a = {f'k{n}': n for n in range(9)}
    b = dict(a, k8=0)
    check(await f(**a) == a)
    check(await f(**b) == b)
asyncio.run(main())
done()
'''
