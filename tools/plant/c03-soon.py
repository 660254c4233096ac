PROPERTY = 'C03'
NEEDS = ('an argument submitted by another thread while the loop is idle')
BREAKS = ('The loop is not woken up for arguments from other threads.')
EDITS = [
    ('asyncio',
     '        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)\n',
     '        self.loop.call_soon(self.q.put_nowait, iterable)\n'),
]
DEMO = '''
import time
import aiuti.asyncio as A
got = []


async def main():
    @A.buffer_until_timeout(timeout=0.05)
    async def f(args):
        got.extend(args)
    await asyncio.sleep(0.1)
    threading.Timer(0.3, f, [1]).start()
    await asyncio.sleep(4)
t = time.monotonic()


async def watch():
    pass
loop = asyncio.new_event_loop()
asyncio.set_event_loop(loop)
task = loop.create_task(main())
threading.Timer(2, lambda: check(got == [1], got)).start()
loop.run_until_complete(task)
done()
'''
