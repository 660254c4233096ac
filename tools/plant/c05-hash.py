PROPERTY = 'C05'
NEEDS = ('a cached function which calls itself with an argument of the same hash (-1 and -2)')
BREAKS = ('Events are kept per hash of the key, so that a call waits for itself.')
EDITS = [
    ('asyncio', '        key = args, frozenset(kwargs.items())\n', '        key = args, frozenset(kwargs.items())\n        slot = hash(key)\n'),
    ('asyncio', 'caching_loop, event = events[key]\n', 'caching_loop, event = events[slot]\n'),
    ('asyncio', '                    events[key] = caching_loop, event\n', '                    events[slot] = caching_loop, event\n'),
    ('asyncio', '                        if events.get(key) == (caching_loop, event):\n                            del events[key]\n', '                        if events.get(slot) == (caching_loop, event):\n                            del events[slot]\n'),
    ('asyncio', '    events: Dict[Tuple[Any, ...],\n                 Tuple', '    events: Dict[int,\n                 Tuple'),
]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(x):
    if x == -1:
        return await f(-2)
    return x


async def main():
    try:
        return await asyncio.wait_for(f(-1), 1000)
    except asyncio.TimeoutError:
        return 'hangs'
check(vrun(main()) == -2)
done()
'''
