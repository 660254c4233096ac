PROPERTY = 'C02'
NEEDS = ('a reentrant lock held by one thread while another one acquires it')
BREAKS = ('A reentrant lock which is held is entered without asking for the thread lock.')
EDITS = [
    ('filelock', '        if not self._thread_lock.acquire(blocking, timeout):\n            _logger', '        # Nested already, just another level\n        nested = self._reentrant and self.is_locked and self._lock_counter > 1\n\n        if not self._thread_lock.acquire(blocking and not nested,\n                                         -1 if nested else timeout) \\\n                and not nested:\n            _logger'),
]
DEMO = '''
import os
import tempfile
from aiuti.filelock import FileLock
with tempfile.TemporaryDirectory() as d:
    lock = FileLock(os.path.join(d, 'l'), reentrant=True)
    r = []
    with lock:
        with lock:
            t = threading.Thread(target=lambda: r.append(
                lock.acquire(timeout=0.2)), daemon=True)
            t.start()
            t.join(5)
            check(r == [False], r)
done()
'''
