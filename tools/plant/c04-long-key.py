PROPERTY = 'C04'
NEEDS = 'arguments whose texts are alike in their first 256 characters'
BREAKS = ('Default keys are cut off, so calls with different arguments get '
          'each other\'s outcome.')
EDITS = [('asyncio', '''            key = str(arg)

        fut:''', '''            key = str(arg)[:256]

        fut:''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    async def f(batch):
        for k, v in batch:
            yield k, v[-1]
    b = A.AsyncBackgroundBatcher(f)
    r = await asyncio.gather(b('x' * 256 + '1'), b('x' * 256 + '2'))
    check(r == ['1', '2'], r)
vrun(main())
done()
'''
