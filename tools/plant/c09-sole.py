PROPERTY = 'C09'
NEEDS = ('a caller that is cancelled while others are in the same batch, nobody else using its key')
BREAKS = ('The future of a key is cancelled together with its only caller; answering it then fails the whole batch.')
EDITS = [
    ('asyncio', '            return await aio.shield(fut)\n\n        fut = self', '            return await aio.shield(fut)  # Still being processed or retained\n\n        fut = self'),
    ('asyncio', '        await self._queue.put((key, arg, fut))\n\n        return await aio.shield(fut)\n', '        self._queue.put_nowait((key, arg, fut))  # Never full\n\n        try:\n            return await aio.shield(fut)\n        except aio.CancelledError:\n            if len(fut._callbacks or ()) < 2:  # type: ignore\n                fut.cancel()  # Nobody is waiting for it anymore\n            raise\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    @A.async_background_batcher
    async def f(batch):
        await asyncio.sleep(1)
        for k, v in batch:
            yield k, v
    a = asyncio.ensure_future(f(1))
    b = asyncio.ensure_future(f(2))
    await asyncio.sleep(0.5)
    a.cancel()
    r = await asyncio.gather(b, return_exceptions=True)
    check(r == [2], r)
vrun(main())
done()
'''
