PROPERTY = 'C01'
NEEDS = ('a computation with a result of None')
BREAKS = ('Cached results of None are not recognised, every call computes again.')
EDITS = [
    ('asyncio', '            try:  # to get the value from the cache\n                return _cache[key]\n            except KeyError:\n                pass\n', '            value = _cache.get(key)\n            if value is not None:\n                return value\n'),
    ('asyncio', '                try:  # verify nothing cached while waiting for lock\n                    return _cache[key]\n                except KeyError:\n                    pass\n', '                # verify nothing cached while waiting for lock\n                value = _cache.get(key)\n                if value is not None:\n                    return value\n'),
]
DEMO = '''
import aiuti.asyncio as A
n = []


@A.threadsafe_async_cache
async def f(x):
    n.append(x)


async def main():
    await f(1)
    await f(1)
vrun(main())
check(n == [1], n)
done()
'''
