PROPERTY = 'C12'
NEEDS = 'the kernel refusing the lock with ENOLCK'
BREAKS = ('acquire() reports success without any lock when the kernel has '
          'run out of them.')
EDITS = [('filelock', '''        except (IOError, OSError):
            os.close(fd)
        except''', '''        except (IOError, OSError) as e:
            if e.errno == errno.ENOLCK:  # Locking isn't supported here
                self._lock_file_fd = fd
            else:
                os.close(fd)
        except'''), ('filelock', '''import os
import abc
''', '''import os
import abc
import errno
''')]
DEMO = '''
import tempfile, shutil, errno
import aiuti.filelock as F
d = tempfile.mkdtemp()
a, b = F.FileLock(d + '/lock'), F.FileLock(d + '/lock')
real = F.fcntl.flock


def flock(fd, op):
    raise OSError(errno.ENOLCK, 'no locks')
F.fcntl.flock = flock
x = a.acquire(False)
F.fcntl.flock = real
y = b.acquire(False)
shutil.rmtree(d)
check(not x and y, (x, y))
done()
'''
