PROPERTY = 'C04'
NEEDS = ('more failing batches than max_concurrent_batches')
BREAKS = ('A batch whose function raises keeps its slot.')
EDITS = [
    ('asyncio',
     '            async with self._semaphore:  # Limit concurrent executions\n',
     '            await self._semaphore.acquire()  # Limit concurrent executions\n            if True:\n'),
    ('asyncio',
     '                    else:\n                        fut.set_result(result)\n',
     '                    else:\n                        fut.set_result(result)\n                self._semaphore.release()\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    @A.async_background_batcher(max_concurrent_batches=2)
    async def f(batch):
        for k, v in batch:
            if v < 3:
                raise ValueError
            yield k, v
    for v in range(5):
        try:
            r = await asyncio.wait_for(f(v), 100)
        except ValueError:
            r = None
        except asyncio.TimeoutError:
            r = 'hangs'
        check(r == (v if v >= 3 else None), (v, r))
vrun(main())
done()
'''
