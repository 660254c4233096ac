PROPERTY = 'C20'
NEEDS = ('two awaitables failing with the very same exception object')
BREAKS = ('An exception object which was raised by several awaitables is only yielded once.')
EDITS = [('asyncio', '''                and isinstance(res, only)):
            yield res
''', '''                and isinstance(res, only)):
            if id(res) not in seen:
                seen.add(id(res))
                yield res
'''), ('asyncio', '''    aws = list(aws)
    futs =''', '''    aws = list(aws)
    seen: Set[int] = set()
    futs ='''), ('asyncio', '''async def gather_excs(
    aws: Iterable[Awaitable[Any]],
    only: Type[E] = BaseException,  # type: ignore # MyPy bug
''', '''async def gather_excs(
    aws: Iterable[Awaitable[Any]],
    only: Type[E] = BaseException,  # type: ignore
''')]
DEMO = '''
import aiuti.asyncio as A
x = ValueError(1)


async def e():
    raise x


async def main():
    return [r async for r in A.gather_excs([e(), e()])]
r = vrun(main())
check(r == [x, x], r)
done()
'''
