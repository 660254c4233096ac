PROPERTY = 'C02'
NEEDS = 'two holders which both acquired without blocking in the kernel'
BREAKS = ('Non-blocking and timed acquires only take a shared kernel lock: '
          'they exclude blocking ones, but not each other.')
EDITS = [('filelock',
          '''        fcntl.flock(fd,  fcntl.LOCK_EX | (0 if block else fcntl.LOCK_NB))
''', '''        fcntl.flock(fd, fcntl.LOCK_EX if block
                    else fcntl.LOCK_SH | fcntl.LOCK_NB)
''')]
DEMO = '''
import tempfile, shutil
import aiuti.filelock as F
d = tempfile.mkdtemp()
a, b = F.FileLock(d + '/lock'), F.FileLock(d + '/lock')
x = a.acquire(timeout=0.2)
y = b.acquire(timeout=0.2)
shutil.rmtree(d)
check(x and not y, (x, y))
done()
'''
