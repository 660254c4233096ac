PROPERTY = 'C08'
NEEDS = 'a buffer with timeout=0'
BREAKS = ('A timeout of 0 is taken for a missing one, so the function is '
          'called with the default timeout after the last argument.')
EDITS = [('asyncio', '''        return self.loop.create_task(aio.wait_for(coro, self.timeout))
''', '''        return self.loop.create_task(aio.wait_for(coro, self.timeout or 1))
''')]
DEMO = '''
import aiuti.asyncio as A
got = []


async def main():
    loop = asyncio.get_running_loop()

    @A.buffer_until_timeout(timeout=0)
    async def f(args):
        got.append(loop.time() - t)
    t = loop.time()
    f(1)
    while not got:
        await asyncio.sleep(0.01)
    check(got[0] < 0.7, got)
asyncio.run(main())
done()
'''
