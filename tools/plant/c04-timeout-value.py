PROPERTY = 'C04'
NEEDS = 'a batch function which yields a TimeoutError for one of its keys'
BREAKS = ('A yielded TimeoutError is returned to the caller instead of being '
          'raised.')
EDITS = [('asyncio', '''                    if isinstance(result, Exception):
''', '''                    if (isinstance(result, Exception)
                            and not isinstance(result, AioTimeoutError)):
''')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    @A.async_background_batcher
    async def f(batch):
        for k, v in batch:
            yield k, TimeoutError(v)
    try:
        r = await f(1)
    except TimeoutError as e:
        check(e.args == (1,), e)
    else:
        check(False, r)
vrun(main())
done()
'''
