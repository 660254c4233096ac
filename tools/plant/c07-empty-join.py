PROPERTY = 'C07'
NEEDS = ('wait() right after a call, while an earlier argument is buffered')
BREAKS = ('wait() skips the queue when it looks empty, though an element may be about to be put.')
EDITS = [
    ('asyncio',
     '        await self.loop.create_task(self.q.join())\n',
     '        if not self.q.empty() or self.event.is_set():\n            await self.loop.create_task(self.q.join())\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []

    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        got.extend(args)

    f(1)
    await asyncio.sleep(0.5)
    f(2)
    await f.wait()
    check(sorted(got) == [1, 2], got)
vrun(main())
done()
'''
