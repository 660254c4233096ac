PROPERTY = 'C12'
NEEDS = ('a thread whose wait for the lock is interrupted, or times out, while another one holds it')
BREAKS = ('The nesting counter also counts waiting threads, so that the OS lock is kept by a release in the meantime.')
EDITS = [
    ('filelock', "        if not self._thread_lock.acquire(blocking, timeout):\n            _logger.debug('Timeout on acquiring thread lock %s on %s', lid, fn)\n            return False\n\n        self._lock_counter += 1  # Keep lock counter synced with RLock\n", "        self._lock_counter += 1  # Keep lock counter synced with RLock\n\n        if not self._thread_lock.acquire(blocking, timeout):\n            _logger.debug('Timeout on acquiring thread lock %s on %s', lid, fn)\n            self._decrement_lock_counter()\n            return False\n"),
]
DEMO = '''
import os
import signal
import tempfile
import time
from aiuti.filelock import FileLock
with tempfile.TemporaryDirectory() as d:
    a = FileLock(os.path.join(d, 'l'))
    go, gone = threading.Event(), threading.Event()

    def other():
        a.acquire()
        gone.set()
        go.wait(20)
        a.release()
    t = threading.Thread(target=other, daemon=True)
    t.start()
    gone.wait(5)

    def interrupt(*_):
        raise InterruptedError
    signal.signal(signal.SIGALRM, interrupt)
    signal.setitimer(signal.ITIMER_REAL, 0.3)
    try:
        a.acquire()
    except InterruptedError:
        pass
    go.set()
    t.join(5)
    check(not a.is_locked)
    b = FileLock(os.path.join(d, 'l'))
    check(b.acquire(timeout=1), 'still locked')
done()
'''
