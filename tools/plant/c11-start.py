PROPERTY = 'C11'
NEEDS = ('a batch which takes a while, and a retention timeout')
BREAKS = ('The retention window begins with the call instead of its completion.')
EDITS = [
    ('asyncio', "        fut.add_done_callback(partial(self._start_retention, key))\n", "        fut.add_done_callback(partial(self._start_retention, key,\n                                      self._loop.time()))\n"),
    ('asyncio', "    def _start_retention(self, key: str, _: 'aio.Future[R_co]') -> None:\n", "    def _start_retention(self, key: str, start: float,\n                         _: 'aio.Future[R_co]') -> None:\n"),
    ('asyncio', '            self._loop.call_later(\n                self.retention_timeout,\n', '            self._loop.call_at(\n                start + self.retention_timeout,\n'),
    ('asyncio', '        await self._queue.put((key, arg, fut))\n', '        self._queue.put_nowait((key, arg, fut))  # Never full\n'),
    ('asyncio', '        Callback for when a request is complete to forget its result\n', '        Callback for when a request is complete, to forget its result\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []

    @A.async_background_batcher(retention_timeout=2)
    async def f(batch):
        got.extend(k for k, v in batch)
        await asyncio.sleep(3)
        for k, v in batch:
            yield k, v
    await f(1)
    await asyncio.sleep(1)
    await f(1)
    check(got == ['1'], got)
vrun(main())
done()
'''
