PROPERTY = 'C12'
NEEDS = ('nested with-statements of a reentrant lock which also was acquired explicitly')
BREAKS = ('Leaving a with-block releases every level once only two are left.')
EDITS = [
    ('filelock',
     '    def __exit__(self, *_exc: Any) -> None:\n        self.release()\n',
     '    def __exit__(self, *_exc: Any) -> None:\n        self.release(force=self._lock_counter == 2 and bool(_exc[0]))\n'),
]
DEMO = '''
import os
import tempfile
from aiuti.filelock import FileLock
with tempfile.TemporaryDirectory() as d:
    a = FileLock(os.path.join(d, 'l'), reentrant=True)
    with a:
        try:
            with a:
                raise ValueError
        except ValueError:
            pass
        check(a.is_locked)
done()
'''
