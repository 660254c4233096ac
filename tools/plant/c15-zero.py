PROPERTY = 'C15'
NEEDS = ('an explicit batch_timeout of 0')
BREAKS = ('A batch_timeout of 0 given to the decorator is taken for "not given".')
EDITS = [('asyncio', '''                batch_timeout=batch_timeout,
                retention_timeout=retention_timeout,
            )
        return await batcher(arg, key=key)''', '''                batch_timeout=batch_timeout or 0.05,
                retention_timeout=retention_timeout,
            )
        return await batcher(arg, key=key)''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    @A.async_background_batcher(batch_timeout=0)
    async def f(batch):
        for k, v in batch:
            yield k, v
    loop = asyncio.get_running_loop()
    t = loop.time()
    await f(1)
    return loop.time() - t
d = vrun(main())
check(d < 0.04, d)
done()
'''
