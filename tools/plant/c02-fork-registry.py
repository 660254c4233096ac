PROPERTY = 'C02'
NEEDS = ('an object which gives up waiting for another holder in the same '
         'process, and a third contender afterwards')
BREAKS = ('Contention inside one process is short-cut through a table of '
          'held paths, whose entry a failed attempt removes: the next '
          'contender then only asks the table and skips the kernel lock.')
EDITS = [('filelock', '''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
        try:
            self._lock(fd, block)
''', '''        try:
            fd = os.open(self._lock_file, self._FD_OPEN_MODE)
        except OSError:
            return
        path = os.fspath(self._lock_file)
        known = path in self._PATHS
        self._PATHS.add(path)
        try:
            # The first one to use a path needs the kernel, everybody else
            # in here shares its lock in turns
            if not known or block or not self._reentrant:
                self._lock(fd, block)
            elif path in self._HELD:
                raise BlockingIOError
'''), ('filelock', '''        else:
            self._lock_file_fd = fd

    def _release''', '''        else:
            self._lock_file_fd = fd
            self._HELD.add(path)

    def _release'''), ('filelock', '''        fd, self._lock_file_fd = self._lock_file_fd, None
''', '''        fd, self._lock_file_fd = self._lock_file_fd, None
        self._HELD.discard(os.fspath(self._lock_file))
'''), ('filelock', '''    # Open mode for the file descriptor
''', '''    _PATHS: ClassVar[set] = set()
    _HELD: ClassVar[set] = set()
    # Open mode for the file descriptor
''')]
DEMO = '''
import tempfile, shutil, subprocess
import aiuti.filelock as F
d = tempfile.mkdtemp()
a = F.FileLock(d + '/lock', reentrant=True)
a.acquire()
a.release()
x = a.acquire(timeout=0.5)
code = ('import sys; sys.path.insert(0, sys.argv[1]); '
        'from aiuti.filelock import FileLock; '
        'print(FileLock(sys.argv[2]).acquire(False))')
p = subprocess.run([sys.executable, '-c', code, ROOT, d + '/lock'],
                   stdout=subprocess.PIPE, text=True)
shutil.rmtree(d)
check(x and p.stdout.strip() == 'False', (x, p.stdout))
done()
'''
