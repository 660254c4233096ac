PROPERTY = 'C03'
NEEDS = ('the same argument submitted last before and first after a '
         'successful call')
BREAKS = ('An argument which is the one submitted last is taken for a '
          'duplicate even if that has been delivered already.')
EDITS = [('asyncio', '''                async for i in iterable:
                    inputs.add(i)
''', '''                async for i in iterable:
                    if inputs or i is not self._last:
                        inputs.add(i)
                self._last = i
'''), ('asyncio', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
''', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
        self._last: Optional[T] = None
''')]
DEMO = '''
import aiuti.asyncio as A
got = []


async def main():
    @A.buffer_until_timeout(timeout=0.1)
    async def f(args):
        got.append(set(args))
    f(1)
    await asyncio.sleep(1)
    f(1)
    f(2)
    await asyncio.sleep(1)
vrun(main())
check(got == [{1}, {1, 2}], got)
done()
'''
