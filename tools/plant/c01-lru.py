PROPERTY = 'C01'
NEEDS = ('more than a thousand keys')
BREAKS = ('The default cache forgets its oldest entry once it has 1024.')
EDITS = [
    ('asyncio',
     '    _cache: _CacheMap = cache if cache is not None else {}\n',
     '    _cache: _CacheMap = cache if cache is not None else {}\n    bounded = cache is None\n'),
    ('asyncio',
     '    # Avoid type narrowing issues related to:\n',
     '    # Avoid the type narrowing issues related to:\n'),
    ('asyncio',
     '                    _cache[key] = result  # Cache for other tasks\n',
     '                    if bounded and len(_cache) >= 1024:\n                        _cache.pop(next(iter(_cache)))  # Limit the size\n                    _cache[key] = result  # Cache for other tasks\n'),
]
DEMO = '''
import aiuti.asyncio as A
n = [0]


@A.threadsafe_async_cache
async def f(x):
    n[0] += 1
    return x


async def main():
    for x in range(1100):
        await f(x)
    await f(0)
    check(n[0] == 1100, n)
asyncio.run(main())
done()
'''
