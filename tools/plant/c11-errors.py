PROPERTY = 'C11'
NEEDS = ('a retention timeout, a key whose outcome is an exception, and '
         'another call with it within the window')
BREAKS = ('Exceptions are forgotten at once, and the pending removal later '
          'throws out the entry of a newer request.')
EDITS = [('asyncio', '''                    if isinstance(result, Exception):
                        self._set_exception(fut, result)
                    else:
''', '''                    if not isinstance(result, Exception):
                        fut.set_result(result)
                        continue
                    # Let it be tried again
                    self._loop.call_soon(
                        self._retention_cache.pop, key, None)
                    self._set_exception(fut, result)
                    if False:
''')]
DEMO = '''
import aiuti.asyncio as A
n = 0


async def main():
    async def f(batch):
        global n
        n += 1
        for k, v in batch:
            yield k, ValueError(n)
    b = A.AsyncBackgroundBatcher(f, retention_timeout=10)
    for i in range(2):
        try:
            await b(1)
        except ValueError:
            pass
        await asyncio.sleep(1)
vrun(main())
check(n == 1, n)
done()
'''
