PROPERTY = 'C05'
NEEDS = ('two cached functions, one calling the other with the same arguments')
BREAKS = ("All cached functions share one dictionary of running computations, so that one waits for the other's.")
EDITS = [
    ('asyncio',
     "    events: Dict[Tuple[Any, ...],\n                 Tuple[aio.AbstractEventLoop, 'ConcFuture[None]']] = {}\n    # Ensure thread safety while creating events\n    event_making_lock = Lock()\n",
     '    events = _CACHE_EVENTS\n    # Ensure thread safety while creating events\n    event_making_lock = _CACHE_EVENTS_LOCK\n'),
    ('asyncio',
     '_CacheMap = MutableMapping[Tuple[Any, ...], Any]\n',
     "_CacheMap = MutableMapping[Tuple[Any, ...], Any]\n_CACHE_EVENTS: Dict[Tuple[Any, ...],\n                    Tuple[aio.AbstractEventLoop, 'ConcFuture[None]']] = {}\n_CACHE_EVENTS_LOCK = Lock()\n"),
]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def g(x):
    return x


@A.threadsafe_async_cache
async def f(x):
    return await g(x)


async def main():
    try:
        return await asyncio.wait_for(f(1), 1000)
    except asyncio.TimeoutError:
        return 'hangs'
check(vrun(main()) == 1)
done()
'''
