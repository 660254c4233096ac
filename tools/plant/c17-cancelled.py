PROPERTY = 'C17'
NEEDS = ('an awaitable of the target loop which is cancelled there while the loop is idle otherwise')
BREAKS = ('A caller whose awaitable was cancelled on the target loop gets a RuntimeError.')
EDITS = [('asyncio', '''        return await result
    except aio.CancelledError:
        result.cancel()
        raise
''', '''        return await result
    except aio.CancelledError:
        if not result.cancel():
            raise RuntimeError("Cancelled by the target loop") from None
        raise
'''), ('asyncio', '''    if main_loop is loop:
        return await aw
''', '''    if loop is main_loop:
        return await aw
''')]
DEMO = '''
import aiuti.asyncio as A
loop = asyncio.new_event_loop()


async def x():
    raise asyncio.CancelledError


async def main():
    try:
        await A.ensure_aw(x(), loop)
    except asyncio.CancelledError:
        asyncio.current_task().uncancel()
        return True
check(asyncio.run(main()))
done()
'''
