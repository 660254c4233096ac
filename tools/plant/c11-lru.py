PROPERTY = 'C11'
NEEDS = ('more than 128 different keys within one retention window')
BREAKS = ('Only 128 results are retained.')
EDITS = [
    ('asyncio',
     '        await self._queue.put((key, arg, fut))\n',
     '        done = [k for k, f in self._retention_cache.items() if f.done()]\n        for old in done[:-128]:\n            del self._retention_cache[old]\n        self._queue.put_nowait((key, arg, fut))\n'),
    ('asyncio',
     '                self._retention_cache.pop,\n                key,\n',
     '                self._retention_cache.pop,\n                key,\n                None,\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []

    @A.async_background_batcher(retention_timeout=1000)
    async def f(batch):
        got.extend(k for k, v in batch)
        for k, v in batch:
            yield k, v
    for n in range(300):
        await f(n)
    await f(0)
    check(got.count('0') == 1)
vrun(main())
done()
'''
