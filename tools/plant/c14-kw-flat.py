PROPERTY = 'C14'
NEEDS = ('a positional argument which is the name/value tuple of a keyword '
         'argument of another call')
BREAKS = ('The key is one flat tuple of positional arguments and sorted '
          'keyword items, so f(("a", 1)) and f(a=1) share an entry.')
EDITS = [('asyncio', "key = args, frozenset(kwargs.items())",
          "key = args + tuple(sorted(kwargs.items()))")]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(*a, **k):
    return a, k
a = asyncio.run(f(('a', 1)))
b = asyncio.run(f(a=1))
check(a == ((('a', 1),), {}), a)
check(b == ((), {'a': 1}), b)
done()
'''
