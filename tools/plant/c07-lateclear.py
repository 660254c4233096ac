PROPERTY = 'C07'
NEEDS = ('another thread submits while a wait() is under way, is delayed '
         'right after it has put the argument on the queue until that has '
         'been processed, and a further wait() after that')
BREAKS = ('The event is cleared after the argument has been handed to the '
          'loop instead of before, so a submission from another thread can '
          'clear it for good and the next wait() never returns.')
EDITS = [('asyncio', '''        self.event.clear()
        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''', '''        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
        self.event.clear()
''')]
DEMO = '''
import threading
import time
import aiuti.asyncio as A
got = []


class Slow(asyncio.SelectorEventLoop):
    """Other threads are delayed after they have scheduled something."""
    def call_soon_threadsafe(self, *a, **k):
        h = super().call_soon_threadsafe(*a, **k)
        if threading.current_thread() is not threading.main_thread():
            time.sleep(1)
        return h


async def main():
    @A.buffer_until_timeout(timeout=0.1)
    async def f(args):
        got.extend(args)
    t = threading.Thread(target=f, args=(1,))
    t.start()
    await asyncio.sleep(0.5)
    await f.wait()
    while t.is_alive():
        await asyncio.sleep(0.1)
    try:
        await asyncio.wait_for(f.wait(), 3)
    except asyncio.TimeoutError:
        check(False, 'the second wait() does not return')
    check(got == [1], got)
loop = Slow()
asyncio.set_event_loop(loop)
loop.run_until_complete(main())
done()
'''
