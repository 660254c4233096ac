PROPERTY = 'C16'
NEEDS = ('an iterator class which has __len__ (or another iterator that is not a generator)')
BREAKS = ('Iterators which know their length are iterated directly on the event loop, which they block.')
EDITS = [('asyncio', '''    if not isinstance(iterable, Iterator):
        for x in iterable:''', '''    if not isinstance(iterable, Iterator) or hasattr(iterable, '__len__'):
        for x in iterable:''')]
DEMO = '''
import time
import aiuti.asyncio as A


class It:
    n = 0

    def __len__(self):
        return 3

    def __iter__(self):
        return self

    def __next__(self):
        if self.n == 3:
            raise StopIteration
        self.n += 1
        time.sleep(0.3)
        return self.n


async def main():
    ticks = [0]

    async def tick():
        while True:
            await asyncio.sleep(0.01)
            ticks[0] += 1
    t = asyncio.ensure_future(tick())
    r = [x async for x in A.to_async_iter(It())]
    t.cancel()
    check(r == [1, 2, 3], r)
    check(ticks[0] > 20, ticks)
asyncio.run(main())
done()
'''
