PROPERTY = 'C09'
NEEDS = ('the first caller of a key is cancelled, another one shares its '
         'request, and a third asks for the key before the batch is full')
BREAKS = ('A cancelled caller makes the batcher forget the pending request: '
          'the next call with that key is queued again, the batch has the '
          'key twice, and the one who shared the first request never gets an '
          'answer.')
EDITS = [('asyncio', '''        await self._queue.put((key, arg, fut))

        return await aio.shield(fut)
''', '''        try:
            await self._queue.put((key, arg, fut))
            return await aio.shield(fut)
        except aio.CancelledError:
            # Don't hand out a result nobody wanted
            self._retention_cache.pop(key, None)
            raise
''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    async def f(batch):
        for k, v in batch:
            yield k, v
    b = A.AsyncBackgroundBatcher(f, batch_timeout=1)
    ts = [asyncio.ensure_future(b(x)) for x in (1, 1)]
    await asyncio.sleep(0.5)
    ts[0].cancel()
    await asyncio.sleep(0.1)
    ts.append(asyncio.ensure_future(b(1)))
    return await asyncio.wait_for(
        asyncio.gather(*ts, return_exceptions=True), 100)
try:
    r = vrun(main())
except BaseException as e:
    check(False, repr(e))
check(r[1:] == [1, 1], r)
done()
'''
