PROPERTY = 'C13'
NEEDS = ('a holder that dies while one survivor is waiting for the lock, and '
         'another one that comes later')
BREAKS = ('A lock file naming a dead process is taken to be stale and '
          'removed: the survivor that already waited gets the old file\'s '
          'lock, later ones that of a new file.')
EDITS = [('filelock', '''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC
''', '''    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT
'''), ('filelock', '''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except''', '''        try:
            with open(self._lock_file) as f:
                os.kill(int(f.read() or os.getpid()), 0)
        except ProcessLookupError:  # It died, remove its lock
            os.unlink(self._lock_file)
        except (OSError, ValueError):
            pass
        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except'''), ('filelock', '''            self._lock(fd, block)
        except''', '''            self._lock(fd, block)
            os.truncate(fd, 0)
            os.pwrite(fd, str(os.getpid()).encode(), 0)
        except'''), ('filelock', '''        try:
            self._unlock(fd)
        finally:''', '''        try:
            os.truncate(fd, 0)
            self._unlock(fd)
        finally:''')]
DEMO = '''
import tempfile, shutil, signal, time
import aiuti.filelock as F
d = tempfile.mkdtemp()
r, w = os.pipe()
pid = os.fork()
if not pid:
    lock = F.FileLock(d + '/lock')
    lock.acquire()
    os.write(w, b'x')
    time.sleep(60)
    os._exit(0)
os.read(r, 1)
pre = os.fork()
if not pre:
    # between the look at the file and the wait for it
    lock = F.FileLock(d + '/lock')
    ok = lock.acquire(True)
    os.write(w, b'y')
    time.sleep(60)
    os._exit(0)
time.sleep(0.7)
os.kill(pid, signal.SIGKILL)
os.waitpid(pid, 0)
os.read(r, 1)
got = F.FileLock(d + '/lock').acquire(timeout=0.5)
# and once more with one that blocks before the holder dies
os.kill(pre, signal.SIGKILL)
os.waitpid(pre, 0)
bad = got
for n in range(40):
    if bad:
        break
    pids = []
    m = os.path.join(d, 'marker')
    for i in range(4):
        p = os.fork()
        if not p:
            code = 0
            lock = F.FileLock(d + '/lock')
            for j in range(15):
                if lock.acquire(True, [-1, 1][j % 2]):
                    try:
                        os.close(os.open(m, os.O_CREAT | os.O_EXCL))
                        time.sleep(0.0005)
                        if i == n % 4 and j == 7:
                            os.unlink(m)
                            os.kill(os.getpid(), signal.SIGKILL)
                        os.unlink(m)
                    except (FileExistsError, FileNotFoundError):
                        code = 7
                    lock.release()
            os._exit(code)
        pids.append(p)
    for p in pids:
        bad |= os.WEXITSTATUS(os.waitpid(p, 0)[1]) == 7
    if os.path.exists(m):
        os.unlink(m)
shutil.rmtree(d)
check(not bad, 'two inside')
done()
'''
