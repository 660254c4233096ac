PROPERTY = 'C14'
NEEDS = 'evicting the entry that was used last, then asking for it again'
BREAKS = ('The most recent result is remembered beside the mapping, so '
          'evicting that entry does not cause a recomputation.')
EDITS = [('asyncio', '''            # Avoid locking during this first check for performance
            try:  # to get the value from the cache
                return _cache[key]
            except KeyError:
                pass
''', '''            # Avoid locking during this first check for performance
            if last and last[0] == key:
                return last[1]
            try:  # to get the value from the cache
                last[:] = key, _cache[key]
                return last[1]
            except KeyError:
                pass
'''), ('asyncio', '''    # Ensure thread safety while creating events
    event_making_lock''', '''    #: Most recently used entry
    last: List[Any] = []
    # Ensure thread safety while creating events
    event_making_lock''')]
DEMO = '''
import aiuti.asyncio as A
store = {}
n = 0


@A.threadsafe_async_cache(cache=store)
async def f(x):
    global n
    n += 1
    return x


async def main():
    await f(1)
    await f(1)
    store.clear()
    await f(1)
asyncio.run(main())
check(n == 2, n)
done()
'''
