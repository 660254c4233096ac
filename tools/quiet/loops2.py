"""cross-loop helpers and iterator bridges rewritten another way"""
EDITS = [('asyncio', "    def _queue_elements() -> None:\n        try:\n            for x in iterable:\n                put(x)\n                if stopped:\n                    break\n        finally:\n            put(_DONE)\n\n    q: 'aio.Queue[Union[T, object]]' = aio.Queue()\n    loop = aio.get_running_loop()\n    put = partial(\n        loop.call_soon_threadsafe,\n        q.put_nowait,  # type: ignore[arg-type]\n        # ^ Type stubs don't understand partial will pass args later\n    )\n    stopped = done = False\n    pool = ThreadPoolExecutor(1)\n    try:\n        future = loop.run_in_executor(pool, _queue_elements)\n        while (i := await q.get()) is not _DONE:\n            yield i  # type: ignore\n        done = True\n        await future  # Bubble any errors\n    finally:\n        # If stopped early, the iterator may currently be blocked. Don't\n        # block the event loop as well to wait for it.\n        stopped = True\n        pool.shutdown(wait=done)\n\n\n", "    loop = aio.get_running_loop()\n    exhausted = False\n    pool = ThreadPoolExecutor(max_workers=1)\n    try:\n        while True:\n            i = await loop.run_in_executor(pool, next, iterable, _DONE)\n            if i is _DONE:\n                exhausted = True\n                return\n            yield i  # type: ignore\n    finally:\n        # The iterator may currently be blocked, don't wait for it\n        pool.shutdown(wait=exhausted)\n\n\n"), ('asyncio', '    future = run_coro_ts(_as_coro(aw), loop)\n    result = aio.wrap_future(future)\n\n    if id(loop) in _THREADED_LOOPS:\n        return await result\n\n    def _loop_thread() -> None:\n        # Whoever is currently running the loop, if anyone, might only\n        # do so for an awaitable of its own and stop before this one is\n        # done, so everyone takes a turn\n        with _get_loop_lock(loop):\n            if future.done() or loop.is_running():\n                return\n            aio.set_event_loop(loop)\n            loop.run_until_complete(aio.gather(\n                aio.wrap_future(future, loop=loop),\n                return_exceptions=True,\n            ))\n\n    runner = aio.wrap_future(_submit_to_thread(_loop_thread))\n    try:\n        await aio.wait([result, runner], return_when=aio.FIRST_COMPLETED)\n        if not result.done():\n            await runner  # Bubble any errors from running the loop\n        return await result\n    except aio.CancelledError:\n        result.cancel()\n        raise\n\n\n', '    outcome: \'ConcFuture[T]\' = run_coro_ts(_as_coro(aw), loop)\n    local = aio.wrap_future(outcome)\n    try:\n        if loop not in _THREADED_LOOPS:\n            await _drive(loop, outcome, local)\n        return await local\n    except aio.CancelledError:\n        local.cancel()\n        raise\n\n\nasync def _drive(loop: Loop, outcome: \'ConcFuture[Any]\',\n                 local: \'aio.Future[Any]\') -> None:\n    """Have the loop run in a thread until there is an outcome."""\n    def _take_turn() -> None:\n        with _get_loop_lock(loop):\n            if not (outcome.done() or loop.is_running()):\n                aio.set_event_loop(loop)\n                loop.run_until_complete(_settle(outcome))\n\n    turn = aio.wrap_future(_submit_to_thread(_take_turn))\n    await aio.wait({local, turn}, return_when=aio.FIRST_COMPLETED)\n    if not local.done():\n        await turn\n\n\nasync def _settle(outcome: \'ConcFuture[Any]\') -> None:\n    """Wait for any outcome, whatever it is."""\n    await aio.gather(aio.wrap_future(outcome), return_exceptions=True)\n\n\n'), ('asyncio', '    def _loop_thread() -> None:\n        with _get_loop_lock(loop):\n            aio.set_event_loop(loop)\n            _THREADED_LOOPS.add(id(loop))\n            try:\n                loop.run_forever()\n            finally:\n                _THREADED_LOOPS.discard(id(loop))\n\n    future = _submit_to_thread(_loop_thread)\n\n    # Another thread might be running the loop for the time being\n    while not (id(loop) in _THREADED_LOOPS and loop.is_running()):\n        if future.done():\n            future.result()  # Failed to start, reveal errors\n            break\n        sleep(0)  # Force switching to other threads\n\n    def _stopper() -> None:\n        if not future.done():\n            loop.call_soon_threadsafe(loop.stop)\n        future.result()  # Wait for loop to exit and reveal errors\n\n    return _stopper\n\n\n#: IDs of all loops being run indefinitely by loop_in_thread()\n_THREADED_LOOPS: Set[int] = set()\n_LOOP_LOCKS: Dict[int, Lock] = {}\n_LOOP_LOCKS_CREATE_LOCK = Lock()\n\n\ndef _get_loop_lock(loop: aio.AbstractEventLoop) -> Lock:\n    key = id(loop)\n    try:  # Check to see if lock is already created\n        return _LOOP_LOCKS[key]\n    except KeyError:\n        pass\n\n    with _LOOP_LOCKS_CREATE_LOCK:  # Ensure atomic creation\n        try:  # Handle case where another thread acquired lock first\n            return _LOOP_LOCKS[key]\n        except KeyError:  # FIRST! Create the lock\n            lock = _LOOP_LOCKS[key] = Lock()\n            # Ensure the lock is cleaned up when the loop is destroyed\n            finalize(loop, _LOOP_LOCKS.pop, key, None)\n            return lock\n\n\n', '    def _run() -> None:\n        with _get_loop_lock(loop):\n            aio.set_event_loop(loop)\n            _THREADED_LOOPS.add(loop)\n            try:\n                loop.run_forever()\n            finally:\n                _THREADED_LOOPS.discard(loop)\n\n    future = _submit_to_thread(_run)\n\n    # Another thread might be running the loop for the time being\n    while not future.done():\n        if loop in _THREADED_LOOPS and loop.is_running():\n            break\n        sleep(0.001)\n    else:\n        future.result()  # Failed to start, reveal errors\n\n    return partial(_stop_loop, loop, future)\n\n\ndef _stop_loop(loop: Loop, future: \'ConcFuture[None]\') -> None:\n    """Stop the loop, wait for it to exit and reveal errors."""\n    if not future.done():\n        loop.call_soon_threadsafe(loop.stop)\n    future.result()\n\n\n#: All loops being run indefinitely by loop_in_thread()\n_THREADED_LOOPS: \'WeakSet[Loop]\' = WeakSet()\n_LOOP_LOCKS: \'WeakKeyDict[Loop, Lock]\' = WeakKeyDict()\n_LOOP_LOCKS_CREATE_LOCK = Lock()\n\n\ndef _get_loop_lock(loop: aio.AbstractEventLoop) -> Lock:\n    with _LOOP_LOCKS_CREATE_LOCK:\n        lock = _LOOP_LOCKS.get(loop)\n        if lock is None:\n            lock = _LOOP_LOCKS[loop] = Lock()\n        return lock\n\n\n'), ('asyncio', 'from weakref import WeakKeyDictionary as WeakKeyDict, finalize', 'from weakref import WeakKeyDictionary as WeakKeyDict, WeakSet'), ('asyncio', "    def _set_loop_and_queue_elements(_loop: Loop) -> None:\n        aio.set_event_loop(_loop)\n        _loop.run_until_complete(_queue_elements())\n\n    async def _queue_elements() -> None:\n        try:\n            async for x in iterable:\n                put(x)\n        finally:\n            put(_DONE)  # type: ignore\n\n    q: 'queue.Queue[T]' = queue.Queue()\n    put = q.put_nowait\n    with ThreadPoolExecutor(1) as pool:\n        future = pool.submit(_set_loop_and_queue_elements, loop)\n        try:\n            while (i := q.get()) is not _DONE:\n                yield i\n        finally:\n            future.result()\n\n\n", "    results: 'queue.Queue[Tuple[bool, Any]]' = queue.Queue()\n\n    async def _iterate() -> None:\n        async for x in iterable:\n            results.put((True, x))\n\n    def _thread() -> None:\n        try:\n            aio.set_event_loop(loop)\n            loop.run_until_complete(_iterate())\n        finally:\n            results.put((False, None))\n\n    pool = ThreadPoolExecutor(max_workers=1)\n    try:\n        finished = pool.submit(_thread)\n        try:\n            more, value = results.get()\n            while more:\n                yield value\n                more, value = results.get()\n        finally:\n            finished.result()\n    finally:\n        pool.shutdown()\n\n\n")]
