PROPERTY = 'C06'
NEEDS = ('a bounded cache mapping, evicting in another thread between two lines')
BREAKS = ('Another thread evicting the entry makes the lookup raise a KeyError to the caller.')
EDITS = [
    ('asyncio', '            try:  # to get the value from the cache\n                return _cache[key]\n            except KeyError:\n                pass\n', '            if key in _cache:\n                return _cache[key]\n'),
]
DEMO = '''
import aiuti.asyncio as A


class Mapping(dict):
    """Evicts its entry whenever somebody has had a look."""

    def __contains__(self, k):
        r = dict.__contains__(self, k)
        self.pop(k, None)
        return r


cache = Mapping()


@A.threadsafe_async_cache(cache=cache)
async def f(x):
    return x


async def main():
    await f(1)
    check(await f(1) == 1)
try:
    vrun(main())
except KeyError as e:
    check(False, repr(e))
done()
'''
