PROPERTY = 'C16'
NEEDS = ('a source which raises, or a consumer failing, before the end')
BREAKS = ('The pool is only shut down after a normal end, so its thread stays when the source raises.')
EDITS = [('asyncio', "        future = loop.run_in_executor(pool, _queue_elements)\n        while (i := await q.get()) is not _DONE:\n            yield i  # type: ignore\n        done = True\n        await future  # Bubble any errors\n    finally:\n        # If stopped early, the iterator may currently be blocked. Don't\n        # block the event loop as well to wait for it.\n        stopped = True\n        pool.shutdown(wait=done)\n", '        future = loop.run_in_executor(pool, _queue_elements)\n        while True:\n            i = await q.get()\n            if i is _DONE:\n                break\n            yield i  # type: ignore\n        done = True\n        await future  # Bubble any errors\n    except aio.CancelledError:\n        stopped = True\n        pool.shutdown(wait=False)\n        raise\n    else:\n        pool.shutdown()\n')]
DEMO = '''
import time
import aiuti.asyncio as A


def g():
    yield 1
    raise ValueError('x')


keep = []


async def main():
    try:
        async for x in A.to_async_iter(g()):
            pass
    except ValueError as e:
        keep.append(e)
n = threading.active_count()
asyncio.run(main())
time.sleep(0.3)
check(threading.active_count() == n, threading.enumerate())
done()
'''
