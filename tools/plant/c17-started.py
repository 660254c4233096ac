PROPERTY = 'C17'
NEEDS = ('stopping right after starting, or asking is_running() at once')
BREAKS = ('loop_in_thread waits for a tenth of a second at most.')
EDITS = [('asyncio', '''    while not (id(loop) in _THREADED_LOOPS and loop.is_running()):
''', '''    for _ in range(100):
        if id(loop) in _THREADED_LOOPS and loop.is_running():
            break
'''), ('asyncio', '''        sleep(0)  # Force switching to other threads
''', '''        sleep(0.001)  # Force switching to other threads
''')]
DEMO = '''
import aiuti.asyncio as A


def start(loop, out):
    A.loop_in_thread(loop)
    out.append(loop.is_running())


class Loop(asyncio.SelectorEventLoop):
    def run_forever(self):
        import time
        time.sleep(1)
        super().run_forever()


loop = Loop()
stop = A.loop_in_thread(loop)
check(loop.is_running(), 'not running')
stop()
done()
'''
