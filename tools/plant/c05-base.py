PROPERTY = 'C05'
NEEDS = ('a wrapped function which raises a BaseException that is neither an Exception nor a cancellation')
BREAKS = ('The waiters are not told about a computation which ended with another BaseException.')
EDITS = [
    ('asyncio', '                try:\n                    result = await _func(*args, **kwargs)\n                except Exception:\n                    raise  # Bubble any errors without caching\n                else:\n                    _cache[key] = result  # Cache for other tasks\n                finally:\n                    with event_making_lock:\n', '                lost = True\n                try:\n                    result = await _func(*args, **kwargs)\n                except (Exception, aio.CancelledError):\n                    lost = False\n                    raise  # Bubble any errors without caching\n                else:\n                    lost = False\n                    _cache[key] = result  # Cache for other tasks\n                finally:\n                    with event_making_lock if not lost else nullcontext():\n                        if lost:\n                            raise\n'),
    ('asyncio', 'from itertools import islice\n', 'from contextlib import nullcontext\nfrom itertools import islice\n'),
]
DEMO = '''
import aiuti.asyncio as A


class E(BaseException):
    pass
n = []


@A.threadsafe_async_cache
async def f(x):
    n.append(x)
    await asyncio.sleep(1)
    if len(n) == 1:
        raise E
    return x


async def main():
    a = asyncio.ensure_future(f(1))
    await asyncio.sleep(0.5)
    b = asyncio.ensure_future(f(1))
    await asyncio.wait([a, b], timeout=30)
    check(b.done(), 'hangs')
    check(b.result() == 1)
vrun(main())
done()
'''
