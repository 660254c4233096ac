PROPERTY = 'C17'
NEEDS = ('an awaitable whose result is itself an exception instance or awaitable')
BREAKS = ('A returned awaitable is awaited as well.')
EDITS = [
    ('asyncio',
     '    if main_loop is loop:\n        return await aw\n',
     '    if main_loop is loop:\n        res = await aw\n        return await res if isinstance(res, Awaitable) else res\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    fut = asyncio.get_running_loop().create_future()
    fut.set_result(3)

    async def aw():
        return fut
    r = await A.ensure_aw(aw(), asyncio.get_running_loop())
    check(r is fut, r)
asyncio.run(main())
done()
'''
