PROPERTY = 'C12'
NEEDS = 'an OSError while unlocking'
BREAKS = ('The descriptor is not closed when unlocking fails, so it leaks and '
          'the kernel lock stays.')
EDITS = [('filelock', '''        try:
            self._unlock(fd)
        finally:
            os.close(fd)
''', '''        self._unlock(fd)
        os.close(fd)
''')]
DEMO = '''
import tempfile, shutil
import aiuti.filelock as F
d = tempfile.mkdtemp()
lock = F.FileLock(d + '/lock')
real = F.fcntl.flock


def flock(fd, op):
    if op & F.fcntl.LOCK_UN:
        raise OSError('x')
    return real(fd, op)
lock.acquire()
F.fcntl.flock = flock
try:
    lock.release()
except OSError:
    pass
F.fcntl.flock = real
ok = F.FileLock(d + '/lock').acquire(False)
shutil.rmtree(d)
check(ok, 'still locked')
done()
'''
