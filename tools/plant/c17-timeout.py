PROPERTY = 'C17'
NEEDS = ('an awaitable which takes longer than 30 seconds on an idle loop')
BREAKS = ('An idle loop is only run for 30 seconds, after which the caller never gets its result.')
EDITS = [('asyncio', '''            loop.run_until_complete(aio.gather(
                aio.wrap_future(future, loop=loop),
                return_exceptions=True,
            ))
''', '''            loop.run_until_complete(aio.wait(
                [aio.wrap_future(future, loop=loop)],
                timeout=30,
            ))
'''), ('asyncio', '''    if main_loop is loop:
        return await aw
''', '''    if loop is main_loop:
        return await aw
''')]
DEMO = '''
import aiuti.asyncio as A
loop = virtual_loop()


async def x():
    await asyncio.sleep(40)
    return 5


async def main():
    return await asyncio.wait_for(A.ensure_aw(x(), loop), 10)
try:
    r = asyncio.run(main())
except BaseException as e:
    check(False, repr(e))
check(r == 5)
done()
'''
