PROPERTY = 'C13'
NEEDS = ('the holder has started a helper process while holding the lock, and '
         'dies before the helper ends')
BREAKS = ('The descriptor is inheritable: a helper process that survives a '
          'crashed holder keeps the lock.')
EDITS = [('filelock', '''            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
''', '''            fd = os.open(self._lock_file, self._FD_OPEN_MODE | os.O_CLOEXEC)
            os.set_inheritable(fd, True)
''')]
DEMO = '''
import tempfile, shutil, signal
import aiuti.filelock as F
d = tempfile.mkdtemp()
r, w = os.pipe()
pid = os.fork()
if not pid:
    lock = F.FileLock(d + '/lock')
    lock.acquire()
    c = os.posix_spawn('/bin/sleep', ['sleep', '20'], os.environ)
    os.write(w, b'%d' % c)
    os.kill(os.getpid(), signal.SIGKILL)
os.waitpid(pid, 0)
c = int(os.read(r, 20))
x = F.FileLock(d + '/lock').acquire(timeout=1)
os.kill(c, signal.SIGKILL)
shutil.rmtree(d)
check(x)
done()
'''
