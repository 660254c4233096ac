PROPERTY = 'C01'
NEEDS = ('a caller preempted between its unlocked cache lookup and taking the '
         'lock, while another loop finishes the whole computation')
BREAKS = ('The lookup under the lock is gone, so the preempted caller finds '
          'neither value nor marker and computes the key a second time.')
EDITS = [('asyncio', '''                try:  # verify nothing cached while waiting for lock
                    return _cache[key]
                except KeyError:
                    pass

                try:
                    # Try''', '''                try:
                    # Try''')]
DEMO = '''
import aiuti.asyncio as A
k = 0
more = True
while more and k < 300:
    k += 1
    calls = []

    @A.threadsafe_async_cache
    async def f(x):
        calls.append(x)
        return x
    go = lambda: asyncio.run(f(1))
    more, stuck = preempt(go, go, k)
    check(not stuck, 'stuck')
    check(len(calls) == 1, (k, calls))
done()
'''
