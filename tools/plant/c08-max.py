PROPERTY = 'C08'
NEEDS = 'a burst of more than 50 arguments'
BREAKS = ('A burst is cut into several calls once 50 arguments have been '
          'buffered.')
EDITS = [('asyncio', '''        return self.loop.create_task(aio.wait_for(coro, self.timeout))
''', '''        timeout = self.timeout if self._size < 50 else 0
        return self.loop.create_task(aio.wait_for(coro, timeout))
'''), ('asyncio', '''                async for i in iterable:
                    inputs.add(i)
''', '''                async for i in iterable:
                    inputs.add(i)
                    self._size = len(inputs)
'''), ('asyncio', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
''', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
        self._size = 0
''')]
DEMO = '''
import aiuti.asyncio as A
got = []


async def main():
    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        got.append(set(args))
    for i in range(60):
        f(i)
        await asyncio.sleep(0.5)
    await asyncio.sleep(3)
vrun(main())
check(got == [set(range(60))], [len(x) for x in got])
done()
'''
