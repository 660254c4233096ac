PROPERTY = 'C02'
NEEDS = ('three contenders: one waits on the file the holder is about to '
         'remove, another one arrives afterwards and makes a new file')
BREAKS = ('Releasing removes the lock file, so the waiter ends up with the '
          'lock of a deleted file while newcomers lock another one.')
EDITS = [('filelock', '''        try:
            self._unlock(fd)
        finally:
            os.close(fd)
''', '''        try:
            self._unlock(fd)
        finally:
            self._remove(fd)
'''), ('filelock', '''    def _decrement_lock_counter(self)''', '''    def _remove(self, fd: int) -> None:
        try:
            os.unlink(self._lock_file)  # Don't leave litter behind
        finally:
            os.close(fd)

    def _decrement_lock_counter(self)''')]
DEMO = '''
import tempfile, shutil, time
import aiuti.filelock as F
d = tempfile.mkdtemp()
a, b, c = [F.FileLock(d + '/lock') for _ in range(3)]
a.acquire()
t = threading.Thread(target=b.acquire, daemon=True)
t.start()
time.sleep(0.5)
a.release()
t.join(5)
ok = c.acquire(False)
shutil.rmtree(d)
check(b.is_locked and not ok, 'both inside')
done()
'''
