PROPERTY = 'C16'
NEEDS = ('a source which is more than 1000 elements ahead of its consumer')
BREAKS = ('The queue of to_async_iter is bounded; elements which find it full are dropped by the loop.')
EDITS = [('asyncio', '''    q: 'aio.Queue[Union[T, object]]' = aio.Queue()
    loop = aio.get_running_loop()''', '''    q: 'aio.Queue[Union[T, object]]' = aio.Queue(1024)
    loop = aio.get_running_loop()''')]
DEMO = '''
import time
import aiuti.asyncio as A


async def main():
    r = []
    async for x in A.to_async_iter(iter(range(5000))):
        if not r:
            time.sleep(0.2)
        r.append(x)
    return r
try:
    r = asyncio.run(asyncio.wait_for(main(), 10))
except BaseException as e:
    check(False, repr(e))
check(r == list(range(5000)), len(r))
done()
'''
