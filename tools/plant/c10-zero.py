PROPERTY = 'C10'
NEEDS = 'a batcher with batch_timeout=0 and fewer calls than max_batch_size'
BREAKS = ('With a batch_timeout of 0 an incomplete batch waits forever for '
          'more calls.')
EDITS = [('asyncio', '''                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))
''', '''                tasks.append(await aio.wait_for(
                    q.get(), self.batch_timeout or None))
''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    async def func(batch):
        for k, x in batch:
            yield k, x
    b = A.AsyncBackgroundBatcher(func, batch_timeout=0)
    r = None
    try:
        r = await asyncio.wait_for(b(1), 3)
    except asyncio.TimeoutError:
        pass
    check(r == 1, r)
asyncio.run(main())
done()
'''
