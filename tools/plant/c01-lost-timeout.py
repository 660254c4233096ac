PROPERTY = 'C01'
NEEDS = ('a computation which takes more than the 60 seconds of the safety '
         'timeout and somebody waiting for it')
BREAKS = ('A waiter whose safety timeout expires drops the marker of a '
          'computation that is still running, and starts a second one.')
EDITS = [('asyncio', '''            except aio.TimeoutError:  # Possible original task lost?
                pass  # Need to loop around and check
''', '''            except aio.TimeoutError:  # Possible original task lost?
                with event_making_lock:  # Let somebody else take over
                    if events.get(key) == (caching_loop, event):
                        del events[key]
''')]
DEMO = '''
import aiuti.asyncio as A
running = most = 0


@A.threadsafe_async_cache
async def f(x):
    global running, most
    running += 1
    most = max(most, running)
    await asyncio.sleep(100)
    running -= 1
    return x


async def main():
    await asyncio.gather(f(1), f(1), f(1))
vrun(main())
check(most == 1, most)
done()
'''
