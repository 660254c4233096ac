PROPERTY = 'C11'
NEEDS = 'an explicit key which is the empty string'
BREAKS = 'An empty key counts as none, so such requests are not shared.'
EDITS = [('asyncio', '''        if key is None:
            key = str(arg)

        fut:''', '''        key = key or str(arg)

        fut:''')]
DEMO = '''
import aiuti.asyncio as A
keys = []


async def main():
    async def f(batch):
        for k, v in batch:
            keys.append(k)
            yield k, v
    b = A.AsyncBackgroundBatcher(f)
    r = await asyncio.gather(b(1, key=''), b(2, key=''))
    check(r == [1, 1], r)
vrun(main())
check(keys == [''], keys)
done()
'''
