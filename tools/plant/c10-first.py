PROPERTY = 'C10'
NEEDS = ('more than two calls, each less than batch_timeout after the one before')
BREAKS = ('A batch is closed batch_timeout after its first call instead of its last.')
EDITS = [
    ('asyncio', '        while len(tasks) < self.max_batch_size:\n            # Grab', '        deadline = self._loop.time() + self.batch_timeout\n        while len(tasks) < self.max_batch_size:\n            # Grab'),
    ('asyncio', '                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))\n', '                tasks.append(await aio.wait_for(\n                    q.get(), max(0, deadline - self._loop.time())))\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []

    @A.async_background_batcher(batch_timeout=1)
    async def f(batch):
        got.append(len(batch))
        for k, v in batch:
            yield k, v
    ts = []
    for i in range(5):
        ts.append(asyncio.ensure_future(f(i)))
        await asyncio.sleep(0.7)
    await asyncio.gather(*ts)
    check(got == [5], got)
vrun(main())
done()
'''
