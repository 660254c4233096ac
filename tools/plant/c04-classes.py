PROPERTY = 'C04'
NEEDS = ('a batch function which yields exception instances that are not Exceptions, or exception classes, as results')
BREAKS = ('Exception classes which are yielded are raised instead of returned.')
EDITS = [
    ('asyncio', '                    if isinstance(result, Exception):\n', '                    if isinstance(result, Exception) or (\n                            isinstance(result, type)\n                            and issubclass(result, Exception)):\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    @A.async_background_batcher
    async def f(batch):
        for k, v in batch:
            yield k, v
    check(await f(KeyError) is KeyError)
try:
    vrun(main())
except KeyError as e:
    check(False, repr(e))
done()
'''
