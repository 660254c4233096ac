PROPERTY = 'C01'
NEEDS = ('the computing caller is cancelled, and another call for the key '
         'arrives before the shielded computation has ended')
BREAKS = ('The computation is shielded from its caller: after a cancel it '
          'runs on while its marker is already gone, so the next call '
          'computes the same key at the same time.')
EDITS = [('asyncio', '''                    result = await _func(*args, **kwargs)
''', '''                    # Don't throw the work away if we are cancelled
                    result = await aio.shield(_func(*args, **kwargs))
''')]
DEMO = '''
import aiuti.asyncio as A
running = most = 0


@A.threadsafe_async_cache
async def f(x):
    global running, most
    running += 1
    most = max(most, running)
    try:
        await asyncio.sleep(10)
    finally:
        running -= 1
    return x


async def main():
    t = asyncio.ensure_future(f(1))
    await asyncio.sleep(1)
    t.cancel()
    await asyncio.sleep(0)
    await asyncio.sleep(1)
    await f(1)
vrun(main())
check(most == 1, most)
done()
'''
