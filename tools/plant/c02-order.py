PROPERTY = 'C02'
NEEDS = ('a thread that acquires the same object between the release of the '
         'in-process lock and the release of the file lock')
BREAKS = ('release() frees the in-process lock first: the next thread sees '
          'the descriptor of the previous holder, believes it holds the lock, '
          'and loses it when that one closes the descriptor.')
EDITS = [('filelock', '''            lid = id(self)
            fn = self._lock_file

            _logger.debug('Attempting to release lock %s on %s', lid, fn)
            try:
                self._release()
            except:  # noqa
                _logger.exception("Failed to release lock %s on %s", lid, fn)
            else:
                _logger.info('Lock %s released on %s', lid, fn)

        try:
            for _ in range(depth):
                self._thread_lock.release()
        except RuntimeError:  # not reentrant and already unlocked
            pass
''', '''        full = self._lock_counter == 0

        try:
            for _ in range(depth):
                self._thread_lock.release()
        except RuntimeError:  # not reentrant and already unlocked
            pass

        if full:
            lid = id(self)
            fn = self._lock_file

            _logger.debug('Attempting to release lock %s on %s', lid, fn)
            try:
                self._release()
            except:  # noqa
                _logger.exception("Failed to release lock %s on %s", lid, fn)
            else:
                _logger.info('Lock %s released on %s', lid, fn)
''')]
DEMO = '''
import tempfile, shutil, time
import aiuti.filelock as F
d = tempfile.mkdtemp()
k = 0
more = True
while more and k < 200:
    k += 1
    lock = F.FileLock(d + '/lock')
    bad = []
    inside = []

    def go():
        if not lock.acquire(True, 1):
            return
        if not lock.is_locked or inside:
            bad.append(1)
        inside.append(1)
        time.sleep(0.25)
        if not lock.is_locked or F.FileLock(d + '/lock').acquire(False):
            bad.append(2)
        inside.pop()
        lock.release()
    more, stuck = preempt(go, go, k, 0.1)
    if bad or stuck:
        shutil.rmtree(d)
    check(not bad and not stuck, (k, bad, stuck))
    if not more:
        break
shutil.rmtree(d)
done()
'''
