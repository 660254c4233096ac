PROPERTY = 'C10'
NEEDS = ('max_batch_size is lowered while the batcher is idle, followed by a '
         'burst')
BREAKS = ('The limit is read before waiting for the first item of a batch, '
          'so a batch after a change still has the old size.')
EDITS = [('asyncio', '''        q = self._queue
        # Wait for the first''', '''        q = self._queue
        limit = self.max_batch_size
        # Wait for the first'''),
         ('asyncio', '''        while len(tasks) < self.max_batch_size:
''', '''        while len(tasks) < limit:
'''), ('asyncio', '''                    self.max_batch_size - len(tasks),
''', '''                    limit - len(tasks),
''')]
DEMO = '''
import aiuti.asyncio as A
sizes = []


async def main():
    async def f(batch):
        sizes.append(len(batch))
        for k, v in batch:
            yield k, v
    b = A.AsyncBackgroundBatcher(f, max_batch_size=5)
    await b(0)
    await asyncio.sleep(1)
    b.max_batch_size = 2
    await asyncio.gather(*map(b, range(8)))
vrun(main())
check(max(sizes) <= 2, sizes)
done()
'''
