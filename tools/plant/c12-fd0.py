PROPERTY = 'C12'
NEEDS = ('a process whose standard input is closed, so that the lock file is '
         'opened as descriptor 0')
BREAKS = ('is_locked tests the truth of the descriptor: with descriptor 0 '
          'the lock is taken for unheld, acquire() never succeeds, and the '
          'descriptor leaks.')
EDITS = [('filelock', '''        return self._lock_file_fd is not None
''', '''        return bool(self._lock_file_fd)
''')]
DEMO = '''
import tempfile, shutil
import aiuti.filelock as F
d = tempfile.mkdtemp()
lock = F.FileLock(d + '/lock')
os.close(0)
r = [lock.acquire(False), lock.is_locked]
lock.release()
shutil.rmtree(d)
check(r == [True, True], r)
done()
'''
