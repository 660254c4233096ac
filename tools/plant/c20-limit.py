PROPERTY = 'C20'
NEEDS = ('more than 100 awaitables')
BREAKS = ('The awaitables are run in groups of 100, one group after the other.')
EDITS = [('asyncio', '''    results = await aio.gather(*map(futs.__getitem__, aws),
                               return_exceptions=True)
''', '''    results = await aio.gather(*map(futs.__getitem__, aws[:100]),
                               return_exceptions=True)
'''), ('asyncio', '''    only: Type[E] = BaseException,  # type: ignore # MyPy bug
''', '''    only: Type[E] = BaseException,  # type: ignore
''')]
DEMO = '''
import aiuti.asyncio as A


async def e(n):
    raise ValueError(n)


async def main():
    return [r async for r in A.gather_excs(map(e, range(120)))]
r = vrun(main())
check(len(r) == 120, len(r))
done()
'''
