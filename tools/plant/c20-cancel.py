PROPERTY = 'C20'
NEEDS = ('an awaitable failing with a BaseException which is not an Exception')
BREAKS = ('A failure which is no Exception makes the others be cancelled.')
EDITS = [('asyncio', '''    results = await aio.gather(*map(futs.__getitem__, aws),
                               return_exceptions=True)
''', '''    for fut in futs.values():
        fut.add_done_callback(lambda f: f.cancelled() and [
            g.cancel() for g in futs.values()])
    results = await aio.gather(*map(futs.__getitem__, aws),
                               return_exceptions=True)
'''), ('asyncio', '''async def gather_excs(
    aws: Iterable[Awaitable[Any]],
    only: Type[E] = BaseException,  # type: ignore # MyPy bug
''', '''async def gather_excs(
    aws: Iterable[Awaitable[Any]],
    only: Type[E] = BaseException,  # type: ignore
''')]
DEMO = '''
import aiuti.asyncio as A
n = []


async def e():
    raise asyncio.CancelledError


async def ok():
    await asyncio.sleep(1)
    n.append(1)


async def main():
    return [r async for r in A.gather_excs([e(), ok()])]
r = vrun(main())
check(len(r) == 1 and n == [1], (r, n))
done()
'''
