PROPERTY = 'C15'
NEEDS = ('buffer_until_timeout(timeout=...) with a timeout below 0.01 s or falsy')
BREAKS = ('The option form of buffer_until_timeout replaces a timeout of 0 by the default.')
EDITS = [('asyncio', '''        return partial(buffer_until_timeout, timeout=timeout)''', '''        return partial(buffer_until_timeout, timeout=timeout or 1)''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    loop = asyncio.get_running_loop()
    t = []

    @A.buffer_until_timeout(timeout=0)
    async def f(args):
        t.append(loop.time())
    t.append(loop.time())
    f(1)
    await f.wait(cancel=False)
    return t[1] - t[0]
d = vrun(main())
check(d < 0.5, d)
done()
'''
