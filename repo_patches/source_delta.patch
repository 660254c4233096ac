From e7df4032a9a495e0bb25b6c32c646e70200f47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 01/20] fix: gather_excs only yields exceptions which were
 raised

An awaitable which merely returns an exception instance did not fail.
---
 aiuti/asyncio.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 2b71748..d533228 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,8 +97,15 @@ async def gather_excs(
     :param only:
         Optional specific type of exceptions to filter on and yield
     """
-    for res in await aio.gather(*aws, return_exceptions=True):
-        if isinstance(res, only):
+    aws = list(aws)
+    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
+    results = await aio.gather(*map(futs.__getitem__, aws),
+                               return_exceptions=True)
+    for aw, res in zip(aws, results):
+        fut = futs[aw]
+        # Exceptions which were merely returned aren't failures
+        if ((fut.cancelled() or fut.exception() is not None)
+                and isinstance(res, only)):
             yield res
 
 
-- 
2.43.0


From 6ea9e6a406b95f4715c1f6f7c23669db783ef3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 02/20] fix: threadsafe_async_cache only removes its own
 caching marker

A computation cancelled after its loop had stopped removed the marker of
the one which had taken over, allowing another to run concurrently.
---
 aiuti/asyncio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d533228..a428854 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -443,7 +443,9 @@ def threadsafe_async_cache(
                         event.set()
                         # Allow garbage collection and/or another loop
                         # to take over caching if this failed
-                        del events[key]
+                        # (unless one already did as this loop stopped)
+                        if events.get(key) == (caching_loop, event):
+                            del events[key]
                 return result
 
             # Need to wait for another task, possibly across threads
-- 
2.43.0


From bb375257b59e01b9f02ad349efc56207d5a53947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 03/20] fix: threadsafe_async_cache waiters don't depend on the
 caching loop

Waiters on other loops waited by means of a task on the caching loop, so
they were cancelled along with it when that loop was shut down and missed
the event (until the 60s timeout) if it stopped right after setting it.
---
 aiuti/asyncio.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index a428854..c6c0a0c 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -36,7 +36,7 @@ from asyncio import (
 from itertools import islice
 from threading import Lock
 from functools import partial, wraps
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import Future as ConcFuture, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
 from time import sleep
 from typing import (
@@ -386,8 +386,11 @@ def threadsafe_async_cache(
     _func: _AsyncFunc = func
     del cache, func
 
-    # 1 loop + event per input key currently caching
-    events: Dict[Tuple[Any, ...], Tuple[aio.AbstractEventLoop, aio.Event]] = {}
+    # 1 loop + event per input key currently caching. The events are
+    # futures which aren't bound to the caching loop, so waiting for one
+    # never depends on that loop still running once it has been set.
+    events: Dict[Tuple[Any, ...],
+                 Tuple[aio.AbstractEventLoop, 'ConcFuture[None]']] = {}
     # Ensure thread safety while creating events
     event_making_lock = Lock()
 
@@ -396,8 +399,6 @@ def threadsafe_async_cache(
         # Get the key from the input arguments
         key = args, frozenset(kwargs.items())
 
-        running_loop = aio.get_running_loop()
-
         while True:
             # Avoid locking during this first check for performance
             try:  # to get the value from the cache
@@ -424,7 +425,9 @@ def threadsafe_async_cache(
                     # No existing event -> this task is going to cache
                     # the value and provide an event for others to wait
                     caching_loop = aio.get_running_loop()
-                    event = aio.Event()
+                    event = ConcFuture()
+                    # Prevent waiters from cancelling it
+                    event.set_running_or_notify_cancel()
                     events[key] = caching_loop, event
                     do_caching = True
                 else:
@@ -440,7 +443,7 @@ def threadsafe_async_cache(
                 finally:
                     with event_making_lock:
                         # Wake up any waiting tasks
-                        event.set()
+                        event.set_result(None)
                         # Allow garbage collection and/or another loop
                         # to take over caching if this failed
                         # (unless one already did as this loop stopped)
@@ -450,13 +453,7 @@ def threadsafe_async_cache(
 
             # Need to wait for another task, possibly across threads
 
-            wait_event: Awaitable[bool] = event.wait()
-            if running_loop is not caching_loop:
-                try:
-                    wait_fut = run_coro_ts(wait_event, caching_loop)
-                except RuntimeError:  # caching loop most likely closed
-                    continue  # loop around and try again
-                wait_event = aio.wrap_future(wait_fut)
+            wait_event = aio.wrap_future(event)
 
             # Wrap anything waiting for the event in a long timeout just
             # to ensure nothing hangs completely if the original task is
-- 
2.43.0


From 027fbea0f31752f0cbe27c655c6b13b0b9e76ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 04/20] fix: buffer_until_timeout never calls the function
 again after success

Another thread adding an argument just as the function succeeded cleared
the event, so the same arguments were passed to the function again.
---
 aiuti/asyncio.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index c6c0a0c..602a44c 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -729,8 +729,11 @@ class BufferAsyncCalls(Generic[T]):
         else:
             self.event.clear()  # Ensure cleared in case previous cancel
             self.q.task_done()
-        # Keep adding new args until the function has run successfully
-        while not self.event.is_set():
+        # Keep adding new args until the function has run successfully.
+        # The event can't be used to check that because another thread
+        # may already have cleared it again for its own argument.
+        done = False
+        while not done:
             # Get all the input generators currently in the queue
             input_gens.extend(map(_load_inputs, self._empty_queue()))
             # Schedule the q.get() and save it as an attribute so it
@@ -745,11 +748,11 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 await _load_inputs(await self._getting)
             except (aio.TimeoutError, aio.CancelledError):
-                await self._run_func(inputs)
+                done = await self._run_func(inputs)
             else:
                 self.q.task_done()
 
-    async def _run_func(self, inputs: Set[T]) -> None:
+    async def _run_func(self, inputs: Set[T]) -> bool:
         """
         Run :attr:`func` with the given set of inputs and set
         :attr:`event` once it has finished successfully.
@@ -757,14 +760,18 @@ class BufferAsyncCalls(Generic[T]):
         If an exception is raised, log it with its traceback and return
         without setting the event to prevent the buffered inputs from
         being lost.
+
+        :return: True if the function finished successfully
         """
         try:
             if inputs:  # Could be empty if all empty iterators
                 await self.func(inputs)
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
+            return False
         else:
             self.event.set()
+            return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From f9cd8c76ff1b7d9d32d91037a45a1577dc003863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 05/20] fix: cancelling the buffer's background task always
 terminates it

The cancellation was taken for a forced flush, an error of the function or
of an iterable, so the shutdown of a loop with a buffer hung forever.
---
 aiuti/asyncio.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 602a44c..5dc6285 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -744,12 +744,15 @@ class BufferAsyncCalls(Generic[T]):
                 await aio.gather(*input_gens)
                 input_gens.clear()  # Clear processed input generators
             # Now wait for the next arguments to buffer. If this times
-            # out or is cancelled, its time to run the function.
-            try:
-                await _load_inputs(await self._getting)
-            except (aio.TimeoutError, aio.CancelledError):
+            # out or is cancelled, its time to run the function. Gather
+            # tells that apart from this task itself being cancelled.
+            (args,) = await aio.gather(self._getting, return_exceptions=True)
+            if isinstance(args, (aio.TimeoutError, aio.CancelledError)):
                 done = await self._run_func(inputs)
+            elif isinstance(args, BaseException):
+                raise args
             else:
+                await aio.gather(_load_inputs(args))
                 self.q.task_done()
 
     async def _run_func(self, inputs: Set[T]) -> bool:
@@ -763,15 +766,20 @@ class BufferAsyncCalls(Generic[T]):
 
         :return: True if the function finished successfully
         """
-        try:
-            if inputs:  # Could be empty if all empty iterators
-                await self.func(inputs)
-        except BaseException as e:  # noqa
-            logging.exception("Failed to run %s, retrying", self.func)
-            return False
-        else:
-            self.event.set()
-            return True
+        async def _call() -> None:
+            await self.func(inputs)
+
+        if inputs:  # Could be empty if all empty iterators
+            # Gather tells an error raised by the function apart from
+            # this task itself being cancelled
+            (error,) = await aio.gather(_call(), return_exceptions=True)
+            if error is not None:
+                logging.error("Failed to run %s, retrying", self.func,
+                              exc_info=error)
+                return False
+
+        self.event.set()
+        return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From dd8c1a99814b991048c3f4af99ba20aff52918fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 06/20] fix: cancelling one batcher call no longer affects any
 others

Callers sharing a key awaited the very same future as each other and the
batch, so cancelling one cancelled them all, and the failure to set the
result of the cancelled future failed the rest of the batch.
---
 aiuti/asyncio.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 5dc6285..d55974c 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1106,27 +1106,36 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
 
         fut: 'aio.Future[R_co]'
 
+        # The future is shared with any other callers using the same key
+        # and with the batch itself, so shield it such that cancelling
+        # one caller doesn't disturb anything else
+
         try:
             fut = self._retention_cache[key]
         except KeyError:
             pass
         else:
-            return await fut
+            return await aio.shield(fut)
 
         fut = self._retention_cache[key] = self._loop.create_future()
+        fut.add_done_callback(partial(self._start_retention, key))
         await self._queue.put((key, arg, fut))
 
-        try:
-            return await fut
-        finally:
-            if self.retention_timeout > 0:
-                self._loop.call_later(
-                    self.retention_timeout,
-                    self._retention_cache.pop,
-                    key,
-                )
-            else:
-                del self._retention_cache[key]
+        return await aio.shield(fut)
+
+    def _start_retention(self, key: str, _: 'aio.Future[R_co]') -> None:
+        """
+        Callback for when a request is complete to forget its result
+        once the retention timeout has passed.
+        """
+        if self.retention_timeout > 0:
+            self._loop.call_later(
+                self.retention_timeout,
+                self._retention_cache.pop,
+                key,
+            )
+        else:
+            del self._retention_cache[key]
 
     def _daemon_task(
         self,
-- 
2.43.0


From d3a686c2a341c4850ec1670bffceb4f3a17a7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 07/20] fix: batch functions raising a BaseException still
 answer all callers

CancelledError (and any other non-Exception) raised by the batch function
left every unanswered caller of the batch waiting forever.
---
 aiuti/asyncio.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d55974c..5731f46 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1222,10 +1222,14 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-        except Exception as e:
+        except GeneratorExit:
+            raise  # The loop is gone, there is nobody left to tell
+        except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
                 fut.set_exception(e)
+            if not isinstance(e, Exception):
+                raise
             return
 
         if futs:
-- 
2.43.0


From fe82b0833ccd179fde6fd0ddce64e6afec489027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 08/20] fix: a yielded StopIteration answers the batcher call

Futures refuse StopIteration, so the call it was meant for hung forever
and the rest of the batch failed.
---
 aiuti/asyncio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 5731f46..ad87010 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1218,7 +1218,14 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 )
                 async for key, result in self.func(args):
                     fut = futs.pop(key)
-                    if isinstance(result, Exception):
+                    if isinstance(result, StopIteration):
+                        # Can't be raised out of a future or coroutine,
+                        # convert it the same way generators do
+                        exc = RuntimeError("batch function yielded "
+                                           "StopIteration")
+                        exc.__cause__ = result
+                        fut.set_exception(exc)
+                    elif isinstance(result, Exception):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-- 
2.43.0


From 83b515bd9c47c1444a77472761af69a3af7cef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 09/20] fix: async_background_batcher(retention_timeout=...)
 takes effect

The option was dropped when used as a decorator with options.
---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index ad87010..8559fb3 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -830,6 +830,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> Callable[
     [_BatchFunc[A_contra, R_co]],
     _AsyncBackgroundBatcherProto[A_contra, R_co],
@@ -843,6 +844,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> _AsyncBackgroundBatcherProto[A_contra, R_co]: ...
 
 
@@ -924,6 +926,7 @@ def async_background_batcher(
             max_batch_size=max_batch_size,
             max_concurrent_batches=max_concurrent_batches,
             batch_timeout=batch_timeout,
+            retention_timeout=retention_timeout,
         )
 
     batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \
-- 
2.43.0


From 9a13fc37e8b4b048bb0ab30dfc1afcc0fcddc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 10/20] fix: forced release of a nested FileLock frees its
 thread lock

Only one level of the RLock was released, so no other thread could ever
acquire that object again.
---
 aiuti/filelock.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 11430cd..2077837 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -223,8 +223,13 @@ class BaseFileLock(abc.ABC):
             return
 
         self._decrement_lock_counter()
+        depth = 1
 
         if self._lock_counter == 0 or force:
+            # Forcing it undoes every nested acquire, not just the last
+            depth += self._lock_counter
+            self._lock_counter = 0
+
             lid = id(self)
             fn = self._lock_file
 
@@ -234,11 +239,11 @@ class BaseFileLock(abc.ABC):
             except:  # noqa
                 _logger.exception("Failed to release lock %s on %s", lid, fn)
             else:
-                self._lock_counter = 0
                 _logger.info('Lock %s released on %s', lid, fn)
 
         try:
-            self._thread_lock.release()
+            for _ in range(depth):
+                self._thread_lock.release()
         except RuntimeError:  # not reentrant and already unlocked
             pass
 
-- 
2.43.0


From c2a6effaf56f2275bdc2d81191aa445fd045721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 11/20] fix: with FileLock(timeout=...) raises if it wasn't
 acquired

The body was entered without holding the lock after the timeout.
---
 aiuti/filelock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 2077837..2660e9e 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -309,7 +309,8 @@ class BaseFileLock(abc.ABC):
         self._lock_counter = max(0, self._lock_counter - 1)
 
     def __enter__(self: FileLockT) -> FileLockT:
-        self.acquire()
+        if not self.acquire():
+            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
         return self
 
     def __exit__(self, *_exc: Any) -> None:
-- 
2.43.0


From 318fd6610c8b00f3a04376fa265e2658fed1cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 12/20] fix: FileLock closes its descriptor if locking is
 interrupted

Only OSErrors were handled, so e.g. a KeyboardInterrupt while waiting or
an unsupported platform leaked the descriptor.
---
 aiuti/filelock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 2660e9e..cf41d09 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -266,6 +266,9 @@ class BaseFileLock(abc.ABC):
             self._lock(fd, block)
         except (IOError, OSError):
             os.close(fd)
+        except BaseException:
+            os.close(fd)
+            raise
         else:
             self._lock_file_fd = fd
 
-- 
2.43.0


From 6b1e3304a498184dd2a45da7360d2d28f6006dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 13/20] fix: ensure_aw completes if another caller stops
 running the loop

A call targeting a loop which was only being run until some other call's
awaitable was done never completed. Likewise, a call which found the loop
idle just before loop_in_thread() started it had to wait for it to be
stopped again.
---
 aiuti/asyncio.py | 53 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 8559fb3..d0ec46d 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1283,8 +1283,8 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     >>> run(ensure_aw(task(), e_loop))
     True
 
-    If the target loop is running, it will be used as is using
-    :func:`run_aw_threadsafe` internally:
+    If the target loop is running, it will be used as is like in
+    :func:`run_aw_threadsafe`:
 
     >>> stop = loop_in_thread(e_loop)
 
@@ -1299,18 +1299,37 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
-    if loop.is_running():
-        return await run_aw_threadsafe(aw, loop)
-
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
 
-    def _loop_thread() -> T:
+    future = run_coro_ts(_as_coro(aw), loop)
+    result = aio.wrap_future(future)
+
+    if id(loop) in _THREADED_LOOPS:
+        return await result
+
+    def _loop_thread() -> None:
+        # Whoever is currently running the loop, if anyone, might only
+        # do so for an awaitable of its own and stop before this one is
+        # done, so everyone takes a turn
         with _get_loop_lock(loop):
+            if future.done() or loop.is_running():
+                return
             aio.set_event_loop(loop)
-            return loop.run_until_complete(aw)
-
-    return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+            loop.run_until_complete(aio.gather(
+                aio.wrap_future(future, loop=loop),
+                return_exceptions=True,
+            ))
+
+    runner = main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+    try:
+        await aio.wait([result, runner], return_when=aio.FIRST_COMPLETED)
+        if not result.done():
+            await runner  # Bubble any errors from running the loop
+        return await result
+    except aio.CancelledError:
+        result.cancel()
+        raise
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
@@ -1347,7 +1366,11 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     def _loop_thread() -> None:
         with _get_loop_lock(loop):
             aio.set_event_loop(loop)
-            loop.run_forever()
+            _THREADED_LOOPS.add(id(loop))
+            try:
+                loop.run_forever()
+            finally:
+                _THREADED_LOOPS.discard(id(loop))
 
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
 
@@ -1361,6 +1384,8 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     return _stopper
 
 
+#: IDs of all loops being run indefinitely by loop_in_thread()
+_THREADED_LOOPS: Set[int] = set()
 _LOOP_LOCKS: Dict[int, Lock] = {}
 _LOOP_LOCKS_CREATE_LOCK = Lock()
 
@@ -1391,8 +1416,12 @@ async def run_aw_threadsafe(aw: Awaitable[T], loop: Loop) -> T:
         This does not handle event loop conflicts.
         Use :func:`ensure_aw` for that.
     """
-    coro = aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
-    return await aio.wrap_future(run_coro_ts(coro, loop))
+    return await aio.wrap_future(run_coro_ts(_as_coro(aw), loop))
+
+
+def _as_coro(aw: Awaitable[T]) -> Coroutine[Any, Any, T]:
+    """Make sure the given awaitable is a coroutine."""
+    return aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
 
 
 async def _aw_to_coro(aw: Awaitable[T]) -> T:
-- 
2.43.0


From d3e3e5efbde0a5dfa08003a43be79f5e7841d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 14/20] fix: loop_in_thread waits for its own thread to run the
 loop

If ensure_aw() was running the loop at that moment, it returned early and
its stop function stopped that run instead and then hung. It also never
returned if the loop couldn't be started, e.g. because it is closed, and
stopping twice would have stopped the next run of the loop.
---
 aiuti/asyncio.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d0ec46d..3e48ce1 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1374,11 +1374,16 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
 
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
 
-    while not loop.is_running():
+    # Another thread might be running the loop for the time being
+    while not (id(loop) in _THREADED_LOOPS and loop.is_running()):
+        if future.done():
+            future.result()  # Failed to start, reveal errors
+            break
         sleep(0)  # Force switching to other threads
 
     def _stopper() -> None:
-        loop.call_soon_threadsafe(loop.stop)
+        if not future.done():
+            loop.call_soon_threadsafe(loop.stop)
         future.result()  # Wait for loop to exit and reveal errors
 
     return _stopper
-- 
2.43.0


From 9a24bd728fa67aa5896a4848ce7d143ed9a18f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:06 +0000
Subject: [PATCH 15/20] fix: a batch function raising StopIteration still
 answers its callers

---
 aiuti/asyncio.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 3e48ce1..aa8bea8 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1221,15 +1221,8 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 )
                 async for key, result in self.func(args):
                     fut = futs.pop(key)
-                    if isinstance(result, StopIteration):
-                        # Can't be raised out of a future or coroutine,
-                        # convert it the same way generators do
-                        exc = RuntimeError("batch function yielded "
-                                           "StopIteration")
-                        exc.__cause__ = result
-                        fut.set_exception(exc)
-                    elif isinstance(result, Exception):
-                        fut.set_exception(result)
+                    if isinstance(result, Exception):
+                        self._set_exception(fut, result)
                     else:
                         fut.set_result(result)
         except GeneratorExit:
@@ -1237,7 +1230,7 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
-                fut.set_exception(e)
+                self._set_exception(fut, e)
             if not isinstance(e, Exception):
                 raise
             return
@@ -1247,6 +1240,19 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
             for key, fut in futs.items():
                 fut.set_exception(ValueError(f"Missing result for {key!r}"))
 
+    @staticmethod
+    def _set_exception(fut: 'aio.Future[R_co]', exc: BaseException) -> None:
+        """
+        Helper method to mark the given future as failed. StopIteration
+        can't be raised out of a future or coroutine so it is converted
+        the same way generators do.
+        """
+        if isinstance(exc, StopIteration):
+            error = RuntimeError("batch function raised StopIteration")
+            error.__cause__ = exc
+            exc = error
+        fut.set_exception(exc)
+
 
 _CROSS_LOOP_POOL = ThreadPoolExecutor(32)
 
-- 
2.43.0


From 003d29a4808f696d66fc7329feefa63214c9c76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 16/20] fix: cross-loop helpers don't run out of threads

---
 aiuti/asyncio.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index aa8bea8..3f43fe9 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1254,7 +1254,16 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         fut.set_exception(exc)
 
 
-_CROSS_LOOP_POOL = ThreadPoolExecutor(32)
+def _submit_to_thread(func: Callable[[], None]) -> 'ConcFuture[None]':
+    """
+    Run the given function in a thread of its own. A shared pool could
+    run out of threads which all wait for something to be started.
+    """
+    pool = ThreadPoolExecutor(1)
+    try:
+        return pool.submit(func)
+    finally:
+        pool.shutdown(wait=False)
 
 
 async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
@@ -1327,7 +1336,7 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
                 return_exceptions=True,
             ))
 
-    runner = main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+    runner = aio.wrap_future(_submit_to_thread(_loop_thread))
     try:
         await aio.wait([result, runner], return_when=aio.FIRST_COMPLETED)
         if not result.done():
@@ -1378,7 +1387,7 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
             finally:
                 _THREADED_LOOPS.discard(id(loop))
 
-    future = _CROSS_LOOP_POOL.submit(_loop_thread)
+    future = _submit_to_thread(_loop_thread)
 
     # Another thread might be running the loop for the time being
     while not (id(loop) in _THREADED_LOOPS and loop.is_running()):
-- 
2.43.0


From 7d92ccb8e230c3e2ee3b74a55f0d1f32d5a9c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 17/20] fix: buffered functions can't lose arguments by
 modifying their set

---
 aiuti/asyncio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 3f43fe9..210a8e0 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -767,7 +767,8 @@ class BufferAsyncCalls(Generic[T]):
         :return: True if the function finished successfully
         """
         async def _call() -> None:
-            await self.func(inputs)
+            # It may modify the set, don't let it lose any arguments
+            await self.func(set(inputs))
 
         if inputs:  # Could be empty if all empty iterators
             # Gather tells an error raised by the function apart from
-- 
2.43.0


From 9e78590ff5d3a6f56bec6240a4bf537613a8d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 18/20] fix: attributes of a buffered function don't replace
 the buffer's

---
 aiuti/asyncio.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 210a8e0..d2a64dc 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -35,7 +35,7 @@ from asyncio import (
 )
 from itertools import islice
 from threading import Lock
-from functools import partial, wraps
+from functools import partial, update_wrapper, wraps
 from concurrent.futures import Future as ConcFuture, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
 from time import sleep
@@ -549,7 +549,13 @@ def buffer_until_timeout(
     """
     if func is None:
         return partial(buffer_until_timeout, timeout=timeout)  # type: ignore
-    return wraps(func)(BufferAsyncCalls(func, timeout=timeout))  # type: ignore
+    buffer = BufferAsyncCalls(func, timeout=timeout)
+    # Attributes of the function must not replace those of the buffer
+    update_wrapper(buffer, func, updated=())  # type: ignore
+    for name, value in getattr(func, '__dict__', {}).items():
+        if not hasattr(buffer, name):
+            setattr(buffer, name, value)
+    return buffer
 
 
 class BufferAsyncCalls(Generic[T]):
-- 
2.43.0


From c0d80b74b893807b2931c17ee4c4fbfa8d57ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 19/20] fix: to_async_iter doesn't block the event loop when
 stopped early

---
 aiuti/asyncio.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index d2a64dc..776b306 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -193,6 +193,8 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
         try:
             for x in iterable:
                 put(x)
+                if stopped:
+                    break
         finally:
             put(_DONE)
 
@@ -203,11 +205,19 @@ async def to_async_iter(iterable: Iterable[T]) -> AYields[T]:
         q.put_nowait,  # type: ignore[arg-type]
         # ^ Type stubs don't understand partial will pass args later
     )
-    with ThreadPoolExecutor(1) as pool:
+    stopped = done = False
+    pool = ThreadPoolExecutor(1)
+    try:
         future = loop.run_in_executor(pool, _queue_elements)
         while (i := await q.get()) is not _DONE:
             yield i  # type: ignore
+        done = True
         await future  # Bubble any errors
+    finally:
+        # If stopped early, the iterator may currently be blocked. Don't
+        # block the event loop as well to wait for it.
+        stopped = True
+        pool.shutdown(wait=done)
 
 
 def to_sync_iter(iterable: AsyncIterable[T],
-- 
2.43.0


From 9f4d251781f7db63e51c8e795ed416de31b86b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 20/20] fix: don't let changes of the wall clock affect file
 lock timeouts

acquire() measured its timeout with time.time(), so that setting the clock
back made a timed acquire wait for that much longer (and setting it forward
made it give up early).
---
 aiuti/filelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index cf41d09..783a13f 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -150,7 +150,7 @@ class BaseFileLock(abc.ABC):
         if self.is_locked:
             return True
 
-        start_time = time.time()
+        start_time = time.monotonic()
 
         def _cleanup_thread_lock() -> None:
             self._decrement_lock_counter()
@@ -168,7 +168,7 @@ class BaseFileLock(abc.ABC):
                     _logger.debug('Failed to acquire lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-                elif 0 <= timeout < time.time() - start_time:
+                elif 0 <= timeout < time.monotonic() - start_time:
                     _logger.debug('Timeout on acquiring lock %s on %s', lid, fn)
                     _cleanup_thread_lock()
                     return False
-- 
2.43.0

