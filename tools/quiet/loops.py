"""cross-loop helpers rewritten; iterators with plain threads"""
EDITS = [
    ('asyncio', '    future = _submit_to_thread(_loop_thread)\n\n    # Another thread might be running the loop for the time being\n    while not (id(loop) in _THREADED_LOOPS and loop.is_running()):\n        if future.done():\n            future.result()  # Failed to start, reveal errors\n            break\n        sleep(0)  # Force switching to other threads\n\n    def _stopper() -> None:\n        if not future.done():\n            loop.call_soon_threadsafe(loop.stop)\n        future.result()  # Wait for loop to exit and reveal errors\n\n    return _stopper\n', '    running = _submit_to_thread(_loop_thread)\n\n    def started() -> bool:\n        return id(loop) in _THREADED_LOOPS and loop.is_running()\n\n    while not started() and not running.done():\n        sleep(0.0001)\n    if running.done():\n        running.result()\n\n    def stop() -> None:\n        done = running.done()\n        if not done:\n            loop.call_soon_threadsafe(loop.stop)\n        running.result()\n\n    return stop\n'),
    ('asyncio', 'def _submit_to_thread(func: Callable[[], None]) -> \'ConcFuture[None]\':\n    """\n    Run the given function in a thread of its own. A shared pool could\n    run out of threads which all wait for something to be started.\n    """\n    pool = ThreadPoolExecutor(1)\n    try:\n        return pool.submit(func)\n    finally:\n        pool.shutdown(wait=False)\n', 'def _submit_to_thread(func: Callable[[], None]) -> \'ConcFuture[None]\':\n    """Run the given function in a thread of its own."""\n    result: \'ConcFuture[None]\' = ConcFuture()\n\n    def _main() -> None:\n        if not result.set_running_or_notify_cancel():\n            return\n        try:\n            value = func()\n        except BaseException as e:\n            result.set_exception(e)\n        else:\n            result.set_result(value)\n\n    threading.Thread(target=_main, name=\'aiuti\').start()\n    return result\n'),
    ('asyncio', 'import queue\nimport logging\n', 'import queue\nimport logging\nimport threading\n'),
    ('asyncio', "    def _queue_elements() -> None:\n        try:\n            for x in iterable:\n                put(x)\n                if stopped:\n                    break\n        finally:\n            put(_DONE)\n\n    q: 'aio.Queue[Union[T, object]]' = aio.Queue()\n    loop = aio.get_running_loop()\n    put = partial(\n        loop.call_soon_threadsafe,\n        q.put_nowait,  # type: ignore[arg-type]\n        # ^ Type stubs don't understand partial will pass args later\n    )\n    stopped = done = False\n    pool = ThreadPoolExecutor(1)\n    try:\n        future = loop.run_in_executor(pool, _queue_elements)\n        while (i := await q.get()) is not _DONE:\n            yield i  # type: ignore\n        done = True\n        await future  # Bubble any errors\n    finally:\n        # If stopped early, the iterator may currently be blocked. Don't\n        # block the event loop as well to wait for it.\n        stopped = True\n        pool.shutdown(wait=done)\n", "    q: 'aio.Queue[Any]' = aio.Queue()\n    loop = aio.get_running_loop()\n\n    def send(kind: int, x: Any = None) -> None:\n        loop.call_soon_threadsafe(q.put_nowait, (kind, x))\n\n    def produce() -> None:\n        try:\n            for x in iterable:\n                send(0, x)\n                if over:\n                    return\n        except BaseException as e:\n            send(1, e)\n        else:\n            send(2)\n\n    thread = threading.Thread(target=produce)\n    over = False\n    thread.start()\n    try:\n        while True:\n            kind, x = await q.get()\n            if kind == 2:\n                thread.join()\n                break\n            if kind == 1:\n                thread.join()\n                raise x\n            yield x\n    finally:\n        over = True\n"),
    ('asyncio', "        try:\n            async for x in iterable:\n                put(x)\n        finally:\n            put(_DONE)  # type: ignore\n\n    q: 'queue.Queue[T]' = queue.Queue()\n    put = q.put_nowait\n", "        source = iterable.__aiter__()\n        try:\n            while True:\n                try:\n                    x = await source.__anext__()\n                except StopAsyncIteration:\n                    break\n                q.put(x)\n        finally:\n            q.put(_DONE)  # type: ignore\n\n    q: 'queue.SimpleQueue[Any]' = queue.SimpleQueue()\n"),
    ('asyncio', '            while (i := q.get()) is not _DONE:\n                yield i\n        finally:\n            future.result()\n', '            i = q.get()\n            while i is not _DONE:\n                yield i\n                i = q.get()\n        finally:\n            future.result()\n'),
    ('asyncio', '    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}\n    results = await aio.gather(*map(futs.__getitem__, aws),\n                               return_exceptions=True)\n    for aw, res in zip(aws, results):\n        fut = futs[aw]\n', '    futs: Dict[Any, Any] = {}\n    for aw in aws:\n        if aw not in futs:\n            futs[aw] = aio.ensure_future(aw)\n    results = await aio.gather(*[futs[aw] for aw in aws],\n                               return_exceptions=True)\n    for n, aw in enumerate(aws):\n        fut, res = futs[aw], results[n]\n'),
]
