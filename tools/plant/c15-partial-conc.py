PROPERTY = 'C15'
NEEDS = ('the option form with max_concurrent_batches below the default and more batches at once')
BREAKS = ('The option form does not pass max_concurrent_batches on.')
EDITS = [('asyncio', '''            max_batch_size=max_batch_size,
            max_concurrent_batches=max_concurrent_batches,
            batch_timeout=batch_timeout,
            retention_timeout=retention_timeout,
        )

    batchers''', '''            max_batch_size=max_batch_size,
            batch_timeout=batch_timeout,
            retention_timeout=retention_timeout,
        )

    batchers''')]
DEMO = '''
import aiuti.asyncio as A
running = most = 0


async def main():
    @A.async_background_batcher(max_batch_size=1, max_concurrent_batches=2)
    async def f(batch):
        global running, most
        running += 1
        most = max(most, running)
        await asyncio.sleep(1)
        running -= 1
        for k, v in batch:
            yield k, v
    await asyncio.gather(*map(f, range(6)))
vrun(main())
check(most == 2, most)
done()
'''
