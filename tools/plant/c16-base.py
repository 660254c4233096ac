PROPERTY = 'C16'
NEEDS = ('an async source failing with an exception which is not an Exception')
BREAKS = ('to_sync_iter only bubbles ordinary exceptions: after a BaseException the iteration just ends.')
EDITS = [('asyncio', '''        try:
            while (i := q.get()) is not _DONE:
                yield i
        finally:
            future.result()
''', '''        while (i := q.get()) is not _DONE:
            yield i
        try:
            future.result()
        except Exception:
            raise
        except BaseException:
            return
''')]
DEMO = '''
import aiuti.asyncio as A


class E(BaseException):
    pass


async def g():
    yield 1
    raise E
n = []
try:
    for x in A.to_sync_iter(g()):
        n.append(x)
    check(False, 'no error')
except E:
    pass
check(n == [1])
done()
'''
