PROPERTY = 'C07'
NEEDS = ('a submission while the wrapped function is running, and a wait() '
         'after that run has ended, before the submission is processed')
BREAKS = ('The event is not cleared again when an argument that arrived '
          'during a run is picked up, so a wait() after that returns before '
          'it has been processed.')
EDITS = [('asyncio', '''        else:
            self.event.clear()  # Ensure cleared in case previous cancel
            self.q.task_done()
''', '''        else:
            self.q.task_done()
''')]
DEMO = '''
import aiuti.asyncio as A
got = set()


async def main():
    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        await asyncio.sleep(1)
        got.update(args)
    f(1)
    await asyncio.sleep(1.5)
    f(2)                       # while it is running
    await asyncio.sleep(1)
    await f.wait()
    check(got == {1, 2}, got)
vrun(main())
done()
'''
