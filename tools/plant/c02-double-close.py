PROPERTY = 'C02'
NEEDS = ('a failed attempt of one thread while another one acquires a lock (also of another file)')
BREAKS = ('After a failed attempt the descriptor is closed twice; in between, another thread may have opened its lock file with the same number.')
EDITS = [
    ('filelock',
     '        except (IOError, OSError):\n            os.close(fd)\n        except BaseException:\n',
     '        except (IOError, OSError):\n            os.close(fd)\n            self._close_quietly(fd)\n        except BaseException:\n'),
    ('filelock',
     '    def _release(self) -> None:\n        """\n        Release the platform',
     '    @staticmethod\n    def _close_quietly(fd: int) -> None:\n        with contextlib.suppress(OSError):\n            os.close(fd)\n\n    def _release(self) -> None:\n        """\n        Release the platform'),
    ('filelock',
     '        :param block:\n            If True, attempt to block until the lock is acquired.\n        """\n        try:\n            fd = os.open(self._lock_file, self._FD_OPEN_MODE)\n',
     '        :param block:\n            If True, attempt to block until the lock was acquired.\n        """\n        try:\n            fd = os.open(self._lock_file, self._FD_OPEN_MODE)\n'),
]
DEMO = '''
import os
import tempfile
from aiuti import filelock as F

# Another thread acquires its lock right after the first close
with tempfile.TemporaryDirectory() as d:
    held = F.FileLock(os.path.join(d, 'a'))
    held.acquire()
    mine = F.FileLock(os.path.join(d, 'b'))
    close = os.close

    def closing(fd):
        close(fd)
        if not mine.is_locked:
            check(mine.acquire(False))
    F.os.close = closing
    try:
        check(not F.FileLock(os.path.join(d, 'a')).acquire(False))
    finally:
        F.os.close = close
    if not mine.is_locked:
        check(mine.acquire(False))
    other = F.FileLock(os.path.join(d, 'b'))
    check(mine.is_locked)
    check(not other.acquire(False), 'two holders')
done()
'''
