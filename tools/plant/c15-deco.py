PROPERTY = 'C15'
NEEDS = ('one decorator object used for several functions')
BREAKS = ('The cache is made together with the decorator, so all functions decorated with it share their results.')
EDITS = [
    ('asyncio',
     '        return partial(  # type: ignore[return-value]\n            threadsafe_async_cache,\n            cache=cache,\n        )\n',
     '        return partial(  # type: ignore[return-value]\n            threadsafe_async_cache,\n            cache=cache if cache is not None else {},\n        )\n'),
]
DEMO = '''
import aiuti.asyncio as A
cached = A.threadsafe_async_cache()


@cached
async def f(x):
    return 'f', x


@cached
async def g(x):
    return 'g', x


async def main():
    check(await f(1) == ('f', 1))
    check(await g(1) == ('g', 1))
asyncio.run(main())
done()
'''
