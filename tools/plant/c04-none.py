PROPERTY = 'C04'
NEEDS = ('a batch function which yields None for a key')
BREAKS = ('A result of None is treated as missing.')
EDITS = [
    ('asyncio', '                async for key, result in self.func(args):\n                    fut', '                async for key, result in self.func(args):\n                    if result is None:\n                        continue\n                    fut'),
    ('asyncio', '        If the batch function raises an error, all futures will have\n        that exception set.', '        If the batch function raises an error, all of the futures will\n        have that exception set.'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    @A.async_background_batcher
    async def f(batch):
        for k, v in batch:
            yield k, None
    check(await f(1) is None)
try:
    vrun(main())
except ValueError as e:
    check(False, repr(e))
done()
'''
