PROPERTY = 'C04'
NEEDS = ('a batch function that leaves out some, but not all, of its keys')
BREAKS = 'Callers whose key was left out of a partly answered batch hang.'
EDITS = [('asyncio', '''        if futs:
            logger.error("Missing''', '''        if len(futs) == len(args):  # No output at all
            logger.error("Missing''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    async def f(batch):
        for k, v in list(batch)[1:]:
            yield k, v
    b = A.AsyncBackgroundBatcher(f)
    return await asyncio.wait_for(asyncio.gather(
        b(1), b(2), b(3), return_exceptions=True), 100)
try:
    r = vrun(main())
except BaseException as e:
    check(False, repr(e))
check(isinstance(r[0], Exception) and r[1:] == [2, 3], r)
done()
'''
