PROPERTY = 'C13'
NEEDS = 'a holder that dies between locking the file and releasing it'
BREAKS = ('The holder is noted in the file, and an attempt that finds a note '
          'fails early: a crashed holder\'s note is never removed.')
EDITS = [('filelock', '''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC
''', '''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT
'''), ('filelock', '''        try:
            self._lock(fd, block)
        except''', '''        try:
            if not block and os.pread(fd, 1, 0):
                raise BlockingIOError  # Somebody has it
            self._lock(fd, block)
            os.pwrite(fd, b'x', 0)
        except'''), ('filelock', '''        try:
            self._unlock(fd)
        finally:''', '''        try:
            os.ftruncate(fd, 0)
            self._unlock(fd)
        finally:''')]
DEMO = '''
import tempfile, shutil, signal
import aiuti.filelock as F
d = tempfile.mkdtemp()
pid = os.fork()
if not pid:
    lock = F.FileLock(d + '/lock')
    lock.acquire()
    os.kill(os.getpid(), signal.SIGKILL)
os.waitpid(pid, 0)
x = F.FileLock(d + '/lock').acquire(timeout=1)
shutil.rmtree(d)
check(x)
done()
'''
