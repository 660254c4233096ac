PROPERTY = 'C17'
NEEDS = ('the lock of a new loop asked for by two threads, one of which is '
         'interrupted between two calls of one line')
BREAKS = ('The lock of a loop is looked up and created in one line, which is '
          'taken to be atomic.')
EDITS = [('asyncio', '''    with _LOOP_LOCKS_CREATE_LOCK:  # Ensure atomic creation
        try:  # Handle case where another thread acquired lock first
            return _LOOP_LOCKS[key]
        except KeyError:  # FIRST! Create the lock
            lock = _LOOP_LOCKS[key] = Lock()
            # Ensure the lock is cleaned up when the loop is destroyed
            finalize(loop, _LOOP_LOCKS.pop, key, None)
            return lock
''', '''    # Ensure the lock is cleaned up when the loop is destroyed
    finalize(loop, _LOOP_LOCKS.pop, key, None)
    # A single statement, no other thread can create it meanwhile
    return _LOOP_LOCKS.get(key) or _LOOP_LOCKS.update({key: Lock()}) or _LOOP_LOCKS[key]
''')]
DEMO = '''
import aiuti.asyncio as A
loop = asyncio.new_event_loop()
got = []
ts = []
real = A.Lock


def lock():
    # Another thread asks for the same lock meanwhile
    if not ts:
        ts.append(threading.Thread(
            target=lambda: got.append(A._get_loop_lock(loop)), daemon=True))
        ts[0].start()
        ts[0].join(0.5)
    return real()


A.Lock = lock
got.append(A._get_loop_lock(loop))
ts[0].join(10)
check(got[0] is got[1])
done()
'''
