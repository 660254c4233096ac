PROPERTY = 'C16'
NEEDS = ('a source which raises while the consumer still has elements to take')
BREAKS = ('The error of the iterator is only raised if it had already occurred when the last element was taken.')
EDITS = [('asyncio', '        while (i := await q.get()) is not _DONE:\n            yield i  # type: ignore\n        done', '        while (i := await q.get()) is not _DONE:\n            yield i  # type: ignore[misc]\n        done'),
('asyncio', "        done = True\n        await future  # Bubble any errors\n    finally:\n        # If stopped early, the iterator may currently be blocked. Don't\n        # block the event loop as well to wait for it.\n        stopped = True\n        pool.shutdown(wait=done)\n", "        done = future.done()\n        if done:\n            await future  # Bubble any errors\n    finally:\n        # If stopped early, the iterator may currently be blocked. Don't\n        # block the event loop as well to wait for it.\n        stopped = True\n        pool.shutdown(wait=True)\n")]
DEMO = '''
import aiuti.asyncio as A


def g():
    yield 1
    raise ValueError('x')


async def main():
    n = []
    try:
        async for x in A.to_async_iter(g()):
            n.append(x)
    except ValueError:
        return n
    check(False, 'no error')
for _ in range(1500):
    check(asyncio.run(main()) == [1])
done()
'''
