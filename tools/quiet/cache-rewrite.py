"""one future per waiter instead of a shared one"""
EDITS = [('asyncio', "    # 1 loop + event per input key currently caching. The events are\n    # futures which aren't bound to the caching loop, so waiting for one\n    # never depends on that loop still running once it has been set.\n    events: Dict[Tuple[Any, ...],\n                 Tuple[aio.AbstractEventLoop, 'ConcFuture[None]']] = {}\n    # Ensure thread safety while creating events\n    event_making_lock = Lock()\n\n    @wraps(_func)\n    async def _wrapper(*args: Any, **kwargs: Any) -> Any:\n        # Get the key from the input arguments\n        key = args, frozenset(kwargs.items())\n\n        while True:\n            # Avoid locking during this first check for performance\n            try:  # to get the value from the cache\n                return _cache[key]\n            except KeyError:\n                pass\n\n            # Need to calculate and cache the value once\n\n            with event_making_lock:\n                try:  # verify nothing cached while waiting for lock\n                    return _cache[key]\n                except KeyError:\n                    pass\n\n                try:\n                    # Try to get the loop + event of the loop currently\n                    # caching the value\n                    caching_loop, event = events[key]\n                    if (caching_loop.is_closed()\n                            or not caching_loop.is_running()):\n                        raise KeyError  # Invalidate loop\n                except KeyError:\n                    # No existing event -> this task is going to cache\n                    # the value and provide an event for others to wait\n                    caching_loop = aio.get_running_loop()\n                    event = ConcFuture()\n                    # Prevent waiters from cancelling it\n                    event.set_running_or_notify_cancel()\n                    events[key] = caching_loop, event\n                    do_caching = True\n                else:\n                    do_caching = False  # Need to wait for other loop\n\n            if do_caching:  # No other task to wait for, cache the value\n                try:\n                    result = await _func(*args, **kwargs)\n                except Exception:\n                    raise  # Bubble any errors without caching\n                else:\n                    _cache[key] = result  # Cache for other tasks\n                finally:\n                    with event_making_lock:\n                        # Wake up any waiting tasks\n                        event.set_result(None)\n                        # Allow garbage collection and/or another loop\n                        # to take over caching if this failed\n                        # (unless one already did as this loop stopped)\n                        if events.get(key) == (caching_loop, event):\n                            del events[key]\n                return result\n\n            # Need to wait for another task, possibly across threads\n\n            wait_event = aio.wrap_future(event)\n\n            # Wrap anything waiting for the event in a long timeout just\n            # to ensure nothing hangs completely if the original task is\n            # lost and somehow never sets the event\n            waiter = aio.create_task(aio.wait_for(wait_event, 60))\n\n            # wait_for will swallow CancelledErrors if the wrapped task\n            # is already finished. This can cause confusion and missed\n            # timeouts when there are multiple nested wait_fors.\n            # Shielding and handling the cancellation directly avoids\n            # this confusion by preventing this wait_for from seeing\n            # the outer CancelledError directly.\n            try:\n                await aio.shield(waiter)\n            except aio.TimeoutError:  # Possible original task lost?\n                pass  # Need to loop around and check\n            except (Exception, aio.CancelledError):\n                if not waiter.done():\n                    waiter.cancel()\n                    try:\n                        await waiter\n                    except aio.CancelledError:\n                        pass\n                raise\n\n", "    computing: Dict[Any, '_Computation'] = {}\n    guard = Lock()\n\n    def _cached(key: Any) -> Tuple[Any, ...]:\n        try:\n            return (_cache[key],)\n        except KeyError:\n            return ()\n\n    @wraps(_func)\n    async def _wrapper(*args: Any, **kwargs: Any) -> Any:\n        key = args, frozenset(kwargs.items())\n        while True:\n            for value in _cached(key):\n                return value\n            loop = aio.get_running_loop()\n            with guard:\n                for value in _cached(key):\n                    return value\n                other = computing.get(key)\n                if other is None or not other.alive():\n                    mine = computing[key] = _Computation(loop)\n                    waiter = None\n                else:\n                    waiter = other.waiter(loop)\n            if waiter is not None:\n                await aio.wait({waiter}, timeout=60)\n                continue\n            try:\n                result = await _func(*args, **kwargs)\n                _cache[key] = result\n                return result\n            finally:\n                with guard:\n                    if computing.get(key) is mine:\n                        del computing[key]\n                    mine.finish()\n\n"), ('asyncio', '_CacheMap = MutableMapping[Tuple[Any, ...], Any]\n', 'class _Computation:\n    """A value being computed on a loop, and who waits for it."""\n\n    def __init__(self, loop: Loop):\n        self.loop = loop\n        self.waiters: List[Tuple[Loop, \'aio.Future[None]\']] = []\n\n    def alive(self) -> bool:\n        return self.loop.is_running() and not self.loop.is_closed()\n\n    def waiter(self, loop: Loop) -> \'aio.Future[None]\':\n        fut = loop.create_future()\n        self.waiters.append((loop, fut))\n        return fut\n\n    def finish(self) -> None:\n        for loop, fut in self.waiters:\n            try:\n                loop.call_soon_threadsafe(self._wake, fut)\n            except RuntimeError:  # Closed, nobody is waiting any more\n                pass\n\n    @staticmethod\n    def _wake(fut: \'aio.Future[None]\') -> None:\n        if not fut.done():\n            fut.set_result(None)\n\n\n_CacheMap = MutableMapping[Tuple[Any, ...], Any]\n')]
