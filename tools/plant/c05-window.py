PROPERTY = 'C05'
NEEDS = ('the computing loop stops in the middle of the computation while a '
         'caller on another loop is waiting for it')
BREAKS = ('Waiters only recover after 15 minutes from a computing loop that '
          'has died.')
EDITS = [('asyncio', 'aio.wait_for(wait_event, 60))',
          'aio.wait_for(wait_event, 900))')]
DEMO = '''
import aiuti.asyncio as A
first = threading.Event()


@A.threadsafe_async_cache
async def f(x):
    if not first.is_set():
        first.set()
        await asyncio.sleep(1000)
    return x


dead = asyncio.new_event_loop()
task = dead.create_task(f(1))
thread = threading.Thread(target=dead.run_forever, daemon=True)
thread.start()
first.wait()


async def main():
    t = asyncio.ensure_future(f(1))
    for _ in range(20):
        await asyncio.sleep(0)          # now it waits
    dead.call_soon_threadsafe(dead.stop)
    thread.join()                       # stopped, computation pending
    r = await t
    return r, asyncio.get_running_loop().time()
r, took = vrun(main())
check(r == 1 and took < 100, (r, took))
done()
'''
