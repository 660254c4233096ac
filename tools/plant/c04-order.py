PROPERTY = 'C04'
NEEDS = ('results yielded in another order than the batch, with a failing '
         'key among them')
BREAKS = ('A yielded exception is given to the request at that position in '
          'the batch rather than to the one of its key.')
EDITS = [('asyncio', '''                    fut = futs.pop(key)
''', '''                    if isinstance(result, LookupError):
                        # The key may be mangled: go by position
                        key = next(k for k, _ in args if k in futs)
                    fut = futs.pop(key)
'''), ('asyncio', '                async for key, result in self.func(args):',
          '                async for key, result in self.func(list(args)):')]
DEMO = '''
import aiuti.asyncio as A


async def main():
    async def f(batch):
        for k, v in reversed(list(batch)):
            yield k, KeyError(v) if v == 3 else v
    b = A.AsyncBackgroundBatcher(f)
    return await asyncio.wait_for(asyncio.gather(
        b(1), b(2), b(3), return_exceptions=True), 100)
try:
    r = vrun(main())
except BaseException as e:
    check(False, repr(e))
check(r[:2] == [1, 2] and isinstance(r[2], KeyError), r)
done()
'''
