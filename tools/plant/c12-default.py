PROPERTY = 'C12'
NEEDS = ('a lock with a default timeout, acquired with blocking=False')
BREAKS = ('The default timeout also applies to non-blocking attempts, which then wait.')
EDITS = [
    ('filelock',
     '            timeout = self.timeout if blocking else -1\n        else:\n            blocking = blocking if timeout < 0 else True\n',
     '            timeout = self.timeout\n        blocking = blocking if timeout < 0 else True\n'),
]
DEMO = '''
import os
import tempfile
import time
from aiuti.filelock import FileLock
with tempfile.TemporaryDirectory() as d:
    a = FileLock(os.path.join(d, 'l'), timeout=1.5)
    b = FileLock(os.path.join(d, 'l'), timeout=1.5)
    check(a.acquire())
    t = time.monotonic()
    check(not b.acquire(blocking=False))
    check(time.monotonic() - t < 1)
done()
'''
