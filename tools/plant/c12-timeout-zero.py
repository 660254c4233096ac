PROPERTY = 'C12'
NEEDS = ('acquire(timeout=0) on a lock with a default timeout')
BREAKS = ('An explicit timeout of 0 is taken for none.')
EDITS = [
    ('filelock', '        if timeout is None:\n            timeout = self.timeout if blocking else -1\n', '        if not timeout:\n            timeout = self.timeout if blocking else -1\n'),
]
DEMO = '''
import os
import tempfile
import time
from aiuti.filelock import FileLock
with tempfile.TemporaryDirectory() as d:
    a = FileLock(os.path.join(d, 'l'))
    b = FileLock(os.path.join(d, 'l'), timeout=3)
    with a:
        t = time.monotonic()
        check(not b.acquire(timeout=0))
        check(time.monotonic() - t < 1, 'waited')
done()
'''
