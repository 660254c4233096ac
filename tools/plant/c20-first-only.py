PROPERTY = 'C20'
NEEDS = ('`only` given to raise_first_exc and an earlier failure of another class')
BREAKS = ('raise_first_exc looks at the first failure only and then checks its class.')
EDITS = [('asyncio', '''    async for exc in gather_excs(aws, only):
        raise exc
''', '''    async for exc in gather_excs(aws):
        if isinstance(exc, only) or not issubclass(only, Exception):
            raise exc
        break
''')]
DEMO = '''
import aiuti.asyncio as A


async def e(x):
    raise x


async def main():
    try:
        await A.raise_first_exc([e(ValueError(1)), e(KeyError(2))], KeyError)
    except BaseException as x:
        return x
r = vrun(main())
check(isinstance(r, KeyError), r)
done()
'''
