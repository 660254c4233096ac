PROPERTY = 'C15'
NEEDS = ('two loops alternating in one thread, the first not closed')
BREAKS = ('Batchers are kept per thread instead of per loop and only renewed once the loop of the last one is closed.')
EDITS = [('asyncio', '''        loop = aio.get_running_loop()
        try:
            batcher = batchers[loop]
        except KeyError:
            batcher = batchers[loop] = AsyncBackgroundBatcher(''', '''        batcher = getattr(local, 'batcher', None)
        if batcher is None or batcher._loop.is_closed():
            batcher = local.batcher = AsyncBackgroundBatcher('''), ('asyncio', '''    batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \\
        = WeakKeyDict()
''', '''    local = threading.local()
'''), ('asyncio', '''import sys
''', '''import sys
import threading
''')]
DEMO = '''
import aiuti.asyncio as A


@A.async_background_batcher
async def f(batch):
    for k, v in batch:
        yield k, v * 2
loops = [asyncio.new_event_loop() for _ in range(2)]
for n, loop in enumerate(loops * 2):
    try:
        r = loop.run_until_complete(asyncio.wait_for(f(n), 2))
    except BaseException as e:
        check(False, repr(e))
    check(r == 2 * n, r)
done()
'''
