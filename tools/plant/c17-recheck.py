PROPERTY = 'C17'
NEEDS = ('the locks of a new loop asked for by two threads at the same time')
BREAKS = ('The lock of a loop is created without looking again whether another thread has just done so.')
EDITS = [('asyncio', '''    with _LOOP_LOCKS_CREATE_LOCK:  # Ensure atomic creation
        try:  # Handle case where another thread acquired lock first
            return _LOOP_LOCKS[key]
        except KeyError:  # FIRST! Create the lock
            lock = _LOOP_LOCKS[key] = Lock()
            # Ensure the lock is cleaned up when the loop is destroyed
            finalize(loop, _LOOP_LOCKS.pop, key, None)
            return lock
''', '''    with _LOOP_LOCKS_CREATE_LOCK:  # Ensure atomic creation
        lock = _LOOP_LOCKS[key] = Lock()
        # Ensure the lock is cleaned up when the loop is destroyed
        finalize(loop, _LOOP_LOCKS.pop, key, None)
        return lock
''')]
DEMO = '''
import aiuti.asyncio as A
for k in range(1, 30):
    loop = asyncio.new_event_loop()
    got = []
    hit, stuck = preempt(lambda: got.append(A._get_loop_lock(loop)),
                         lambda: got.append(A._get_loop_lock(loop)), k)
    if not hit:
        break
    check(got[0] is got[1], k)
done()
'''
