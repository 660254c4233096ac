PROPERTY = 'C08'
NEEDS = ('submissions without any element (an empty iterable, or one which fails at once)')
BREAKS = ('The function is called even if all of the iterables were empty.')
EDITS = [
    ('asyncio', '        Run :attr:`func` with the given set of inputs and set\n', '        Run :attr:`func` with the given set of inputs and then set\n'),
    ('asyncio', '        if inputs:  # Could be empty if all empty iterators\n', '        if inputs is not None:  # Could be empty if all empty iterators\n'),
]
DEMO = '''
import aiuti.asyncio as A


async def main():
    got = []

    @A.buffer_until_timeout(timeout=1)
    async def f(args):
        got.append(args)
    f.map([])
    await asyncio.sleep(100)
    check(got == [], got)
vrun(main())
done()
'''
