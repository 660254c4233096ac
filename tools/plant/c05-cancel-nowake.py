PROPERTY = 'C05'
NEEDS = ('the computing caller is cancelled while others wait for the key')
BREAKS = ('The marker is only signalled when the computation was not '
          'cancelled, so the waiters sit out the whole 60 second safety '
          'timeout although the computation has ended.')
EDITS = [('asyncio', '''                except Exception:
                    raise  # Bubble any errors without caching
                else:''', '''                except aio.CancelledError:
                    with event_making_lock:
                        if events.get(key) == (caching_loop, event):
                            del events[key]
                    raise  # Bubble without waking anybody
                else:'''), ('asyncio', '''                        # Wake up any waiting tasks
                        event.set_result(None)
''', '''                        # Wake up any waiting tasks
                        if key in events:
                            event.set_result(None)
''')]
DEMO = '''
import aiuti.asyncio as A


@A.threadsafe_async_cache
async def f(x):
    await asyncio.sleep(2)
    return x


async def main():
    loop = asyncio.get_running_loop()
    t = asyncio.ensure_future(f(1))
    await asyncio.sleep(0)
    u = asyncio.ensure_future(f(1))
    await asyncio.sleep(1)
    t.cancel()
    t0 = loop.time()
    await u
    return loop.time() - t0
x = vrun(main())
check(x < 10, x)
done()
'''
