PROPERTY = 'C06'
NEEDS = 'a caller waiting for a computation of more than 60 seconds'
BREAKS = ('The TimeoutError of the cache\'s own safety timeout is raised to '
          'the waiting caller.')
EDITS = [('asyncio', '''            except aio.TimeoutError:  # Possible original task lost?
                pass  # Need to loop around and check
''', '''            except aio.TimeoutError:  # Possible original task lost?
                with event_making_lock:
                    lost = events.get(key) == (caching_loop, event)
                if lost:  # It is still registered, so it hangs
                    raise
''')]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(x):
    await asyncio.sleep(100)
    return x


async def main():
    return await asyncio.gather(f(1), f(1), return_exceptions=True)
r = vrun(main())
check(r == [1, 1], r)
done()
'''
