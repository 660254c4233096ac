PROPERTY = 'C04'
NEEDS = ('a batch function that raises, or omits a key, after it has answered '
         'some of the callers of the same batch')
BREAKS = ('Answered requests stay in the table, so reporting a failure to '
          'the rest trips over the first one that has its answer already; '
          'the others wait forever.')
EDITS = [('asyncio', "                    fut = futs.pop(key)\n",
          "                    fut = futs[key]\n"),
         ('asyncio', '''        if futs:
            logger.error("Missing''', '''        if not all(f.done() for f in futs.values()):
            logger.error("Missing''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    async def f(batch):
        for n, (k, v) in enumerate(batch):
            if n == 1:
                raise ValueError(n)
            yield k, v
    b = A.AsyncBackgroundBatcher(f)
    return await asyncio.wait_for(asyncio.gather(
        b(1), b(2), b(3), return_exceptions=True), 100)
try:
    r = vrun(main())
except BaseException as e:
    check(False, repr(e))
check(r[0] == 1 and all(isinstance(x, ValueError) for x in r[1:]), r)
done()
'''
