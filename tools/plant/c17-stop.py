PROPERTY = 'C17'
NEEDS = ('a loop with a callback which takes long when it is stopped')
BREAKS = ('The stop function only waits a second for the loop to exit.')
EDITS = [('asyncio', '''        future.result()  # Wait for loop to exit and reveal errors
''', '''        try:
            future.result(1)  # Wait for loop to exit and reveal errors
        except TimeoutError:
            pass
''')]
DEMO = '''
import time
import aiuti.asyncio as A
loop = asyncio.new_event_loop()
stop = A.loop_in_thread(loop)
loop.call_soon_threadsafe(time.sleep, 2)
time.sleep(0.1)
stop()
check(not loop.is_running(), 'still running')
done()
'''
