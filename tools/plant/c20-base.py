PROPERTY = 'C20'
NEEDS = ('an awaitable failing with something which is no Exception (a cancellation, say)')
BREAKS = ('Only instances of Exception are reported.')
EDITS = [
    ('asyncio',
     '                and isinstance(res, only)):\n',
     '                and isinstance(res, only) and isinstance(res, Exception)):\n'),
    ('asyncio',
     '    know if any of them error.\n',
     '    know if any of them errors.\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def bad():
    raise asyncio.CancelledError


async def main():
    r = [e async for e in A.gather_excs([bad()])]
    check(len(r) == 1, r)
asyncio.run(main())
done()
'''
