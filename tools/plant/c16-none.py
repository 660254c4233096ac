PROPERTY = 'C16'
NEEDS = ('None among the elements of an async iterable')
BREAKS = ('None is used as the end marker of to_sync_iter, so the iteration stops at a None element.')
EDITS = [('asyncio', '''            put(_DONE)  # type: ignore

    q: 'queue.Queue[T]' = queue.Queue()''', '''            put(None)  # type: ignore

    q: 'queue.Queue[T]' = queue.Queue()'''), ('asyncio', '''            while (i := q.get()) is not _DONE:
''', '''            while (i := q.get()) is not None:
''')]
DEMO = '''
import aiuti.asyncio as A


async def g():
    for x in (1, None, 2):
        yield x
check(list(A.to_sync_iter(g())) == [1, None, 2])
done()
'''
