PROPERTY = 'C14'
NEEDS = 'two calls with unequal arguments of the same hash (-1 and -2)'
BREAKS = ('Entries are stored under the hash of the arguments: colliding '
          'calls receive each other\'s results.')
EDITS = [('asyncio', "key = args, frozenset(kwargs.items())",
          "key = (hash(args), hash(frozenset(kwargs.items())))")]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(x):
    return x
check(asyncio.run(f(-1)) == -1)
check(asyncio.run(f(-2)) == -2)
done()
'''
