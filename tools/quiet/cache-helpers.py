"""threadsafe_async_cache: helpers extracted, loop rewritten"""
EDITS = [
    ('asyncio', '        while True:\n            # Avoid locking during this first check for performance\n            try:  # to get the value from the cache\n                return _cache[key]\n            except KeyError:\n                pass\n\n            # Need to calculate and cache the value once\n\n            with event_making_lock:\n                try:  # verify nothing cached while waiting for lock\n                    return _cache[key]\n                except KeyError:\n                    pass\n\n                try:\n                    # Try to get the loop + event of the loop currently\n                    # caching the value\n                    caching_loop, event = events[key]\n                    if (caching_loop.is_closed()\n                            or not caching_loop.is_running()):\n                        raise KeyError  # Invalidate loop\n                except KeyError:\n                    # No existing event -> this task is going to cache\n                    # the value and provide an event for others to wait\n                    caching_loop = aio.get_running_loop()\n                    event = ConcFuture()\n                    # Prevent waiters from cancelling it\n                    event.set_running_or_notify_cancel()\n                    events[key] = caching_loop, event\n                    do_caching = True\n                else:\n                    do_caching = False  # Need to wait for other loop\n\n            if do_caching:  # No other task to wait for, cache the value\n                try:\n                    result = await _func(*args, **kwargs)\n                except Exception:\n                    raise  # Bubble any errors without caching\n                else:\n                    _cache[key] = result  # Cache for other tasks\n                finally:\n                    with event_making_lock:\n                        # Wake up any waiting tasks\n                        event.set_result(None)\n                        # Allow garbage collection and/or another loop\n                        # to take over caching if this failed\n                        # (unless one already did as this loop stopped)\n                        if events.get(key) == (caching_loop, event):\n                            del events[key]\n                return result\n\n            # Need to wait for another task, possibly across threads\n\n            wait_event = aio.wrap_future(event)\n\n            # Wrap anything waiting for the event in a long timeout just\n            # to ensure nothing hangs completely if the original task is\n            # lost and somehow never sets the event\n            waiter = aio.create_task(aio.wait_for(wait_event, 60))\n\n            # wait_for will swallow CancelledErrors if the wrapped task\n            # is already finished. This can cause confusion and missed\n            # timeouts when there are multiple nested wait_fors.\n            # Shielding and handling the cancellation directly avoids\n            # this confusion by preventing this wait_for from seeing\n            # the outer CancelledError directly.\n            try:\n                await aio.shield(waiter)\n            except aio.TimeoutError:  # Possible original task lost?\n                pass  # Need to loop around and check\n            except (Exception, aio.CancelledError):\n                if not waiter.done():\n                    waiter.cancel()\n                    try:\n                        await waiter\n                    except aio.CancelledError:\n                        pass\n                raise\n', '        found, value = lookup(key)\n        while not found:\n            mine = None\n            with event_making_lock:\n                found, value = lookup(key)\n                if not found:\n                    mine, other = claim(key)\n            if found:\n                break\n            if mine is not None:\n                return await compute(key, mine, args, kwargs)\n            await pause(other)\n            found, value = lookup(key)\n        return value\n\n    def lookup(k: Any) -> Tuple[bool, Any]:\n        """Is there a value, and which one?"""\n        try:\n            return True, _cache[k]\n        except KeyError:\n            return False, None\n\n    def claim(k: Any) -> Any:\n        """The event is either this task\'s or somebody else\'s."""\n        entry = events.get(k)\n        if entry is not None and not entry[0].is_closed() \\\n                and entry[0].is_running():\n            return None, entry[1]\n        fut: \'ConcFuture[None]\' = ConcFuture()\n        fut.set_running_or_notify_cancel()\n        entry = events[k] = (aio.get_running_loop(), fut)\n        return entry, None\n\n    async def compute(k: Any, entry: Any, a: Any, kw: Any) -> Any:\n        try:\n            result = await _func(*a, **kw)\n            _cache[k] = result\n            return result\n        finally:\n            with event_making_lock:\n                if events.get(k) is entry:\n                    events.pop(k)\n                entry[1].set_result(None)\n\n    async def pause(other: \'ConcFuture[None]\') -> None:\n        waiter = aio.ensure_future(\n            aio.wait_for(aio.wrap_future(other), timeout=60))\n        try:\n            await aio.shield(waiter)\n        except aio.TimeoutError:\n            return\n        except BaseException:\n            if not waiter.done():\n                waiter.cancel()\n                await aio.gather(waiter, return_exceptions=True)\n            raise\n'),
]
