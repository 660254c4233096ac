PROPERTY = 'C20'
NEEDS = ('awaitables which fail in another order than given')
BREAKS = ('raise_first_exc raises the failure which happened first.')
EDITS = [('asyncio', '''    async for exc in gather_excs(aws, only):
        raise exc
''', '''    futs = list(map(aio.ensure_future, aws))
    first = None
    for fut in aio.as_completed(futs):
        try:
            await fut
        except only as exc:
            first = first or exc
        except BaseException:
            pass
    if first is not None:
        raise first
''')]
DEMO = '''
import aiuti.asyncio as A


async def e(t, x):
    await asyncio.sleep(t)
    raise x


async def main():
    try:
        await A.raise_first_exc([e(2, ValueError(1)), e(1, KeyError(2))])
    except BaseException as x:
        return x
r = vrun(main())
check(isinstance(r, ValueError), r)
done()
'''
