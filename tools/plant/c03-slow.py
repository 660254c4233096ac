PROPERTY = 'C03'
NEEDS = ('a producer which takes longer than the timeout for an element and '
         'which was queued while the function was running')
BREAKS = ('Producers found in the queue are only waited for as long as the '
          'timeout; what they produce later goes into a set nobody looks at '
          'any more.')
EDITS = [('asyncio', '''                await aio.gather(*input_gens)
                input_gens.clear()''', '''                # Don't let a slow one hold back everything else
                await aio.wait(map(self.loop.create_task, input_gens),
                               timeout=self.timeout)
                input_gens.clear()''')]
DEMO = '''
import aiuti.asyncio as A
got = set()


async def main():
    @A.buffer_until_timeout(timeout=0.1)
    async def f(args):
        got.update(args)

    async def slow():
        await asyncio.sleep(0.5)
        return 2
    f(1)
    f.await_(slow())
    await asyncio.sleep(5)
vrun(main())
check(got == {1, 2}, got)
done()
'''
