PROPERTY = 'C12'
NEEDS = ('a timed acquire against another object, with a poll interval much '
         'shorter than the timeout')
BREAKS = ('The poll interval is tripled after every attempt, so the last '
          'sleep takes a timed acquire far beyond its bound.')
EDITS = [('filelock', '''                    time.sleep(poll_interval)
''', '''                    # Poll less and less often
                    poll_interval = self._backoff(poll_interval)
'''), ('filelock', '''    def _decrement_lock_counter(self)''', '''    @staticmethod
    def _backoff(seconds: float) -> float:
        time.sleep(seconds)
        return 6 * seconds

    def _decrement_lock_counter(self)''')]
DEMO = '''
import tempfile, shutil, time
import aiuti.filelock as F
d = tempfile.mkdtemp()
a, b = F.FileLock(d + '/lock'), F.FileLock(d + '/lock')
a.acquire()
t = time.monotonic()
x = b.acquire(timeout=0.5, poll_interval=0.01)
t = time.monotonic() - t
shutil.rmtree(d)
check(not x and t < 1.5, t)
done()
'''
