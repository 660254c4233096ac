PROPERTY = 'C09'
NEEDS = ('cancelling the caller that made the request while others share it '
         'or its batch')
BREAKS = ('A cancelled caller cancels the shared request: callers with the '
          'same key are cancelled too, and the batch trips over it.')
EDITS = [('asyncio', '''        await self._queue.put((key, arg, fut))

        return await aio.shield(fut)
''', '''        try:
            await self._queue.put((key, arg, fut))
            return await aio.shield(fut)
        except aio.CancelledError:
            fut.cancel()  # Nobody is interested any more
            raise
''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    async def f(batch):
        for k, v in batch:
            await asyncio.sleep(1)
            yield k, v
    b = A.AsyncBackgroundBatcher(f)
    ts = [asyncio.ensure_future(b(x)) for x in (1, 2, 1, 3)]
    await asyncio.sleep(0.5)
    ts[0].cancel()
    return await asyncio.wait_for(
        asyncio.gather(*ts, return_exceptions=True), 100)
try:
    r = vrun(main())
except BaseException as e:
    check(False, repr(e))
check(r[1:] == [2, 1, 3], r)
done()
'''
