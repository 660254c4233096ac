PROPERTY = 'C03'
NEEDS = ('an argument which arrives at the very moment the timeout expires or wait() cancels the getter')
BREAKS = ('An argument taken off the queue just as the getter is cancelled is dropped.')
EDITS = [
    ('asyncio', '        return self.loop.create_task(aio.wait_for(coro, self.timeout))\n', '        async def _get() -> X:\n            task = aio.ensure_future(coro)\n            try:\n                await aio.wait([task], timeout=self.timeout)\n            except aio.CancelledError:\n                task.cancel()\n                raise\n            if not task.done():\n                task.cancel()\n                raise aio.TimeoutError\n            return task.result()\n\n        return self.loop.create_task(_get())\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main(k):
    got = set()

    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        got.update(args)
    f(1)
    await asyncio.sleep(0.5)
    loop = asyncio.get_running_loop()
    w = asyncio.ensure_future(f.wait())
    for _ in range(k):
        await asyncio.sleep(0)
    f(2)
    await w
    await asyncio.sleep(10)
    check(got == {1, 2}, (k, got))
for k in range(12):
    vrun(main(k))
done()
'''
