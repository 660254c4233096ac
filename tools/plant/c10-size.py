PROPERTY = 'C10'
NEEDS = ('calls trickling in one by one first and then a burst, within one '
         'batch')
BREAKS = ('The room left in a batch is computed as if it held one item, so '
          'a burst after some single items makes it too large.')
EDITS = [('asyncio', '''                    self.max_batch_size - len(tasks),
''', '''                    self.max_batch_size - 1,
''')]
DEMO = '''
import aiuti.asyncio as A
sizes = []


async def main():
    async def f(batch):
        sizes.append(len(batch))
        for k, v in batch:
            yield k, v
    b = A.AsyncBackgroundBatcher(f, batch_timeout=1, max_batch_size=4)
    ts = []
    ts.append(asyncio.ensure_future(b(100)))
    await asyncio.sleep(0.5)
    ts.append(asyncio.ensure_future(b(101)))
    await asyncio.sleep(0.5)
    ts += [asyncio.ensure_future(b(i)) for i in range(10, 16)]
    await asyncio.gather(*ts)
vrun(main())
check(max(sizes) <= 4, sizes)
done()
'''
