PROPERTY = 'C07'
NEEDS = ('a submission while the event loop is not running, but has run '
         'before and has left a batch unfinished, then a wait()')
BREAKS = ('A submission to an idle loop is put on the queue at once and '
          'leaves the event set as if nothing was pending, so a wait() '
          'returns before the unfinished batch has been processed.')
EDITS = [('asyncio', '''        self.event.clear()
        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
''', '''        if self.loop.is_running():
            self.event.clear()
            self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)
        else:
            # Nobody else can be using it
            self.q.put_nowait(iterable)
            self.event.set()
''')]
DEMO = '''
import aiuti.asyncio as A
got = set()
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)


async def func(args):
    await asyncio.sleep(0.05)
    got.update(args)
f = A.buffer_until_timeout(func, timeout=0.2)
f(1)
loop.run_until_complete(asyncio.sleep(0.05))
f(2)
loop.run_until_complete(f.wait(cancel=False))
check(got == {1, 2}, got)
f(3)
loop.run_until_complete(f.wait())
check(got == {1, 2, 3}, got)
done()
'''
