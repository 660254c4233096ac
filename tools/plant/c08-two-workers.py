PROPERTY = 'C08'
NEEDS = ('a wrapped function that runs for longer than the timeout, and '
         'submissions while it does')
BREAKS = ('The next batch is collected while the function is still running, '
          'so it can be started twice at once.')
EDITS = [('asyncio', '''        while True:
            await self._process_queue()
''', '''        while True:
            # Keep collecting while the function is busy
            task = self.loop.create_task(self._process_queue())
            try:
                while not task.done() and not self._busy:
                    await aio.wait([task], timeout=self.timeout)
            except aio.CancelledError:
                task.cancel()
                raise
            if not task.done():
                await aio.wait([task], timeout=2 * self.timeout)
'''), ('asyncio', '''            await self.func(set(inputs))

''', '''            self._busy = True
            try:
                await self.func(set(inputs))
            finally:
                self._busy = False

'''), ('asyncio', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
''', '''        self._getting: Optional['aio.Task[AsyncIterable[T]]'] = None
        self._busy = False
''')]
DEMO = '''
import aiuti.asyncio as A
running = most = 0


async def main():
    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        global running, most
        running += 1
        most = max(most, running)
        await asyncio.sleep(10)
        running -= 1
    for i in range(10):
        f(i)
        await asyncio.sleep(1.5)
    await asyncio.sleep(60)
vrun(main())
check(most == 1, most)
done()
'''
