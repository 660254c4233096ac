PROPERTY = 'C08'
NEEDS = 'submissions which keep arriving for longer than the timeout'
BREAKS = ('The timeout counts from the first argument of a burst instead of '
          'the last one.')
EDITS = [('asyncio', '''        return self.loop.create_task(aio.wait_for(coro, self.timeout))
''', '''        now = self.loop.time()
        if self.event.is_set() or now > self._deadline:
            self._deadline = now + self.timeout
        return self.loop.create_task(
            aio.wait_for(coro, self._deadline - now))
'''), ('asyncio', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
''', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
        self._deadline: float = -1.
''')]
DEMO = '''
import aiuti.asyncio as A
got = []


async def main():
    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        got.append(set(args))
    for i in range(6):
        f(i)
        await asyncio.sleep(0.5)
    await asyncio.sleep(3)
vrun(main())
check(got == [set(range(6))], got)
done()
'''
