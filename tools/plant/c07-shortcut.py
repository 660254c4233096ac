PROPERTY = 'C07'
NEEDS = ('a submission in the same iteration of the event loop in which a run '
         'of the function ends, and a wait() at most one iteration later')
BREAKS = ('wait() skips joining the queue if the event is set. The end of a '
          'run sets it even though an argument submitted in that iteration '
          'is yet to be put on the queue, so wait() returns before that has '
          'been processed.')
EDITS = [('asyncio', '''        await self.loop.create_task(self.q.join())
        if cancel and''', '''        if not self.event.is_set():
            await self.loop.create_task(self.q.join())
        if cancel and''')]
DEMO = '''
import aiuti.asyncio as A


async def main(h, gap):
    loop = asyncio.get_running_loop()
    got = set()
    waits = []

    def after(n, fn):
        fn() if not n else loop.call_soon(after, n - 1, fn)

    def wait():
        waits.append(loop.create_task(waiting()))

    async def waiting():
        await f.wait()
        check(got == {1, 2}, (got, h, gap))

    @A.buffer_until_timeout(timeout=0.01)
    async def f(args):
        got.update(args)
        if 2 not in args:
            after(h, lambda: f(2))
            after(h + gap, wait)
    f(1)
    while not waits:
        await asyncio.sleep(0.005)
    await asyncio.wait_for(asyncio.gather(*waits), 5)
for h in range(8):
    for gap in range(4):
        asyncio.run(main(h, gap))
done()
'''
