PROPERTY = 'C07'
NEEDS = ('wait() right after a submission, in the same step of the loop, '
         'while nothing else is buffered')
BREAKS = ('wait() takes a queue that looks empty at that moment for an empty '
          'one, and returns although a submission is still on its way.')
EDITS = [('asyncio', '''        # Wait for the function to finish processing
        await self.event.wait()
''', '''        # Wait for the function to finish processing
        if self._getting and not (self._getting.done() and self.q.empty()):
            await self.event.wait()
''')]
DEMO = '''
import aiuti.asyncio as A
got = set()


async def main():
    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        await asyncio.sleep(1)
        got.update(args)
    f(1)
    await f.wait()
    check(got == {1}, got)
    f(2)
    await asyncio.sleep(1.5)
    await f.wait()              # while it is running
    check(got == {1, 2}, got)
vrun(main())
done()
'''
