PROPERTY = 'C07'
NEEDS = ('another thread submits and is delayed before the argument gets to '
         'the queue until a run of the function has ended, then waits')
BREAKS = ('wait_from_anywhere() returns at once if the event is set, which '
          'the end of an earlier run may have done after the submission had '
          'cleared it.')
EDITS = [('asyncio', '''        return await ensure_aw(self.wait(cancel=cancel), self.loop)
''', '''        if not self.event.is_set():  # Don't bother the loop otherwise
            await ensure_aw(self.wait(cancel=cancel), self.loop)
''')]
DEMO = '''
import threading
import time
import aiuti.asyncio as A
got = set()


class Slow(asyncio.SelectorEventLoop):
    """Other threads take a while to schedule something."""
    def call_soon_threadsafe(self, *a, **k):
        if threading.current_thread() is not threading.main_thread():
            time.sleep(1)
            super().call_soon_threadsafe(time.sleep, 0.5)    # busy
        return super().call_soon_threadsafe(*a, **k)


def other(f, seen):
    f(2)
    asyncio.run(f.wait_from_anywhere())
    seen.append(set(got))


async def main():
    @A.buffer_until_timeout(timeout=0.5)
    async def f(args):
        got.update(args)
    seen = []
    f(1)
    t = threading.Thread(target=other, args=(f, seen))
    t.start()
    while t.is_alive():
        await asyncio.sleep(0.05)
    check(seen == [{1, 2}], seen)
loop = Slow()
asyncio.set_event_loop(loop)
loop.run_until_complete(main())
done()
'''
