PROPERTY = 'C03'
NEEDS = ('submitting from another thread at the very moment the loop thread '
         'is about to wait, or is using the queue')
BREAKS = ('A submission puts directly into the queue while the loop is '
          'running, without waking the loop: from another thread it is only '
          'noticed when something else happens there.')
EDITS = [('asyncio', '''        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''', '''        if self.loop.is_running():  # Save a loop iteration
            self.q.put_nowait(iterable)
        else:
            self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''')]
DEMO = '''
import time
import aiuti.asyncio as A
got = set()


async def main():
    @A.buffer_until_timeout(timeout=0.05)
    async def f(args):
        got.update(args)
    await asyncio.sleep(0.05)
    threading.Timer(0.1, f, (1,)).start()
    # nothing else wakes the loop for a while
    await asyncio.sleep(2)
    check(got == {1}, got)
asyncio.run(main())
done()
'''
