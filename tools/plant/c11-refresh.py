PROPERTY = 'C11'
NEEDS = ('a retention timeout and calls with a key in a row, each within the '
         'window of the one before')
BREAKS = ('Every hit extends the retention of a result, so calls after the '
          'window still get the old one.')
EDITS = [('asyncio', '''        try:
            fut = self._retention_cache[key]
        except KeyError:
            pass
        else:
''', '''        if key in self._retention_cache:
            fut = self._retention_cache[key]
            if fut.done():  # Still in use
                self._loop.call_later(
                    self.retention_timeout / 2,
                    self._retention_cache.__setitem__, key, fut,
                )
                self._loop.call_later(
                    self.retention_timeout * 1.5,
                    self._retention_cache.pop, key, None,
                )
''')]
DEMO = '''
import aiuti.asyncio as A
n = 0


async def main():
    async def f(batch):
        global n
        n += 1
        for k, v in batch:
            yield k, n
    b = A.AsyncBackgroundBatcher(f, retention_timeout=10)
    r = [await b(1)]
    await asyncio.sleep(8)
    r.append(await b(1))
    await asyncio.sleep(6)
    r.append(await b(1))
    check(r == [1, 1, 2], r)
vrun(main())
done()
'''
