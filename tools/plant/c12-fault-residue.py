PROPERTY = 'C12'
NEEDS = ('an exception other than OSError out of the locking call, such as '
         'KeyboardInterrupt while waiting')
BREAKS = ('acquire() keeps the in-process lock when it is left by an '
          'exception: nobody can use the object again.')
EDITS = [('filelock', '''            _logger.exception("Failed to acquire lock %s on %s", lid, fn)
            _cleanup_thread_lock()
            raise
''', '''            _logger.exception("Failed to acquire lock %s on %s", lid, fn)
            self._decrement_lock_counter()
            raise
''')]
DEMO = '''
import tempfile, shutil
import aiuti.filelock as F
d = tempfile.mkdtemp()
lock = F.FileLock(d + '/lock')
real = F.fcntl.flock


def flock(fd, op):
    if not op & F.fcntl.LOCK_UN:
        raise KeyboardInterrupt
    return real(fd, op)
F.fcntl.flock = flock
try:
    lock.acquire()
except KeyboardInterrupt:
    pass
F.fcntl.flock = real
res = []
t = threading.Thread(target=lambda: res.append(lock.acquire(timeout=1)),
                     daemon=True)
t.start()
t.join(5)
shutil.rmtree(d)
check(res == [True], res)
done()
'''
