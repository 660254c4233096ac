PROPERTY = 'C17'
NEEDS = ('two callers in different threads with the same idle loop at once')
BREAKS = ('ensure_aw does not take the lock of an idle loop before running it.')
EDITS = [('asyncio', '''        with _get_loop_lock(loop):
            if future.done() or loop.is_running():
                return
''', '''        while loop.is_running() and not future.done():
            sleep(0.001)
        if not future.done():
''')]
DEMO = '''
import aiuti.asyncio as A
bad = []


async def slow():
    await asyncio.sleep(0.05)
    return 1


def caller(loop, n):
    async def main():
        return await asyncio.wait_for(asyncio.gather(
            *(A.ensure_aw(slow(), loop) for _ in range(4))), 10)
    try:
        asyncio.run(main())
    except BaseException as e:
        bad.append(repr(e))
sys.setswitchinterval(1e-6)
for _ in range(8):
    loop = asyncio.new_event_loop()
    ts = [threading.Thread(target=caller, args=(loop, n)) for n in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if bad:
        break
check(not bad, bad[:2])
done()
'''
