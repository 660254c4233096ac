PROPERTY = 'C11'
NEEDS = ('retention_timeout=0 and a call made right when the first caller was answered')
BREAKS = ('Without retention the result is still remembered for a millisecond.')
EDITS = [
    ('asyncio', '        if self.retention_timeout > 0:\n            self._loop.call_later(\n                self.retention_timeout,\n                self._retention_cache.pop,\n                key,\n            )\n        else:\n            del self._retention_cache[key]\n', '        self._loop.call_later(\n            max(self.retention_timeout, 0.001),\n            self._retention_cache.pop,\n            key,\n        )\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []

    @A.async_background_batcher
    async def f(batch):
        got.extend(k for k, v in batch)
        for k, v in batch:
            yield k, v
    await f(1)
    await f(1)
    check(got == ['1', '1'], got)
vrun(main())
done()
'''
