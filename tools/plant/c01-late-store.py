PROPERTY = 'C01'
NEEDS = ('another loop looking the key up between the removal of the marker '
         'and the store, a window of two lines')
BREAKS = ('The result is only stored after the marker has been removed and '
          'the waiters have been woken: anyone who comes in between computes '
          'again.')
EDITS = [('asyncio', '''                else:
                    _cache[key] = result  # Cache for other tasks
                finally:''', '''                finally:'''),
         ('asyncio', '''                            del events[key]
                return result
''', '''                            del events[key]
                _cache[key] = result  # Cache for other tasks
                return result
''')]
DEMO = '''
import aiuti.asyncio as A
k = 0
more = True
while more and k < 300:
    k += 1
    calls = []

    @A.threadsafe_async_cache
    async def f(x):
        calls.append(x)
        return x
    go = lambda: asyncio.run(f(1))
    more, stuck = preempt(go, go, k)
    check(not stuck, 'stuck')
    check(len(calls) == 1, (k, calls))
done()
'''
