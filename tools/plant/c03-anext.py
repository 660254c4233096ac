PROPERTY = 'C03'
NEEDS = ('amap() with an async iterable which is not its own iterator (its '
         '__aiter__ returns another object)')
BREAKS = ('The elements are taken with __anext__ from the iterable itself, so '
          'an async iterable which has __aiter__ only is dropped.')
EDITS = [('asyncio', '''                async for i in iterable:
                    inputs.add(i)
            except BaseException:  # noqa
''', '''                while True:
                    try:
                        inputs.add(await iterable.__anext__())
                    except StopAsyncIteration:
                        break
            except BaseException:  # noqa
''')]
DEMO = '''
import aiuti.asyncio as A
got = set()


class Source:
    def __init__(self, *xs):
        self.xs = xs

    async def __aiter__(self):
        for x in self.xs:
            yield x


async def main():
    @A.buffer_until_timeout(timeout=0.1)
    async def f(args):
        got.update(args)
    f(1)
    f.amap(Source(2, 3))
    await asyncio.wait_for(f.wait(), 5)
    check(got == {1, 2, 3}, got)
asyncio.run(main())
done()
'''
