PROPERTY = 'C06'
NEEDS = ('a computation that fails while another caller, on whatever loop, '
         'waits for the same key')
BREAKS = ('The waiters are given the exception of the invocation they were '
          'waiting for instead of computing themselves.')
EDITS = [('asyncio', '''                except Exception:
                    raise  # Bubble any errors without caching
''', '''                except Exception as e:
                    errors[event] = e  # Anybody waiting would fail, too
                    raise  # Bubble any errors without caching
'''), ('asyncio', '''    # Ensure thread safety while creating events
    event_making_lock''', '''    errors: 'WeakKeyDict[Any, Exception]' = WeakKeyDict()
    # Ensure thread safety while creating events
    event_making_lock'''), ('asyncio', '''                        pass
                raise

    return _wrapper''', '''                        pass
                raise
            if event in errors:
                raise errors[event]

    return _wrapper''')]
DEMO = '''
import aiuti.asyncio as A
n = 0


@A.threadsafe_async_cache
async def f(x):
    global n
    n += 1
    m = n
    await asyncio.sleep(2)
    if m == 1:
        raise ValueError(m)
    return x


async def main():
    return await asyncio.gather(f(1), f(1), f(1), return_exceptions=True)
r = vrun(main())
check(isinstance(r[0], ValueError) and r[1:] == [1, 1], r)
done()
'''
