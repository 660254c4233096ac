PROPERTY = 'C10'
NEEDS = 'more batches in progress than max_concurrent_batches'
BREAKS = ('Only the creation of the async generator is guarded by the '
          'semaphore, not its execution.')
EDITS = [('asyncio', '''                async for key, result in self.func(args):
                    fut = futs.pop(key)
                    if isinstance(result, Exception):
                        self._set_exception(fut, result)
                    else:
                        fut.set_result(result)
''', '''                results = self.func(args)
            async for key, result in results:
                fut = futs.pop(key)
                if isinstance(result, Exception):
                    self._set_exception(fut, result)
                else:
                    fut.set_result(result)
''')]
DEMO = '''
import aiuti.asyncio as A
running = most = 0


async def main():
    async def f(batch):
        global running, most
        running += 1
        most = max(most, running)
        await asyncio.sleep(1)
        for k, v in batch:
            yield k, v
        running -= 1
    b = A.AsyncBackgroundBatcher(f, max_batch_size=1,
                                 max_concurrent_batches=2)
    await asyncio.gather(*map(b, range(8)))
vrun(main())
check(most <= 2, most)
done()
'''
