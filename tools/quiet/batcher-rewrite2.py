"""a deque and an event instead of the queue"""
EDITS = [('asyncio', '        self._queue = aio.Queue()\n        self.max_batch_size', "        self._pending: 'Deque[_TaskTuple[A_contra, R_co]]' = deque()\n        self._arrived = aio.Event()\n        self.max_batch_size"), ('asyncio', '        await self._queue.put((key, arg, fut))\n', '        self._pending.append((key, arg, fut))\n        self._arrived.set()\n'), ('asyncio', 'from itertools import islice\n', 'from collections import deque\n'), ('asyncio', '    Any, AsyncIterable, Awaitable, Callable, Coroutine, Dict,\n', '    Any, AsyncIterable, Awaitable, Callable, Coroutine, Deque, Dict,\n'), ('asyncio', "        q = self._queue\n        # Wait for the first task to appear in the queue\n        try:\n            tasks = [await q.get()]\n        except RuntimeError as e:\n            if str(e).lower() == 'event loop is closed':\n                return []  # Don't spam errors when shutting down\n            raise\n\n        while len(tasks) < self.max_batch_size:\n            # Grab all available tasks as efficiently as possible\n            # Yes - this is a micro-optimization\n            try:\n                tasks.extend(islice(\n                    iter(q.get_nowait, object()),\n                    self.max_batch_size - len(tasks),\n                ))\n            except AioQueueEmpty:\n                pass\n            else:\n                continue\n            # Give the publisher a little breathing room to actually\n            # populate the queue before declaring it empty\n            try:\n                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))\n            except AioTimeoutError:  # No more tasks coming\n                break\n        return tasks\n\n", "        pending, arrived = self._pending, self._arrived\n        while not pending:\n            arrived.clear()\n            try:\n                await arrived.wait()\n            except RuntimeError as e:\n                if str(e).lower() == 'event loop is closed':\n                    return []\n                raise\n\n        tasks: 'List[_TaskTuple[A_contra, R_co]]' = []\n        while True:\n            room = self.max_batch_size - len(tasks)\n            while pending and room > 0:\n                tasks.append(pending.popleft())\n                room -= 1\n            if room <= 0:\n                return tasks\n            # Give the publisher a little breathing room\n            arrived.clear()\n            try:\n                await aio.wait_for(arrived.wait(), self.batch_timeout)\n            except AioTimeoutError:\n                if not pending:\n                    return tasks\n\n"), ('asyncio', '        args = [t[:2] for t in tasks]\n        futs = {k: f for k, _, f in tasks}\n\n        try:\n            async with self._semaphore:  # Limit concurrent executions\n                logger.debug(\n                    "Sending batch of size %d to %s",\n                    len(args), self.func,\n                )\n                async for key, result in self.func(args):\n                    fut = futs.pop(key)\n                    if isinstance(result, Exception):\n                        self._set_exception(fut, result)\n                    else:\n                        fut.set_result(result)\n        except GeneratorExit:\n            raise  # The loop is gone, there is nobody left to tell\n        except BaseException as e:\n            logger.debug("Exception while processing batch", exc_info=True)\n            for fut in futs.values():\n                self._set_exception(fut, e)\n            if not isinstance(e, Exception):\n                raise\n            return\n\n        if futs:\n            logger.error("Missing outputs for %d futures", len(futs))\n            for key, fut in futs.items():\n                fut.set_exception(ValueError(f"Missing result for {key!r}"))\n\n', '        if not tasks:\n            return\n        futs = {key: fut for key, _, fut in tasks}\n        try:\n            await self._semaphore.acquire()\n            try:\n                await self._run_batch([(k, a) for k, a, _ in tasks], futs)\n            finally:\n                self._semaphore.release()\n        except GeneratorExit:\n            raise  # The loop is gone, there is nobody left to tell\n        except BaseException as e:\n            while futs:\n                self._set_exception(futs.popitem()[1], e)\n            if not isinstance(e, Exception):\n                raise\n        else:\n            if futs:\n                logger.error("Missing outputs for %d futures", len(futs))\n            while futs:\n                key, fut = futs.popitem()\n                self._set_exception(\n                    fut, ValueError(f"Missing result for {key!r}"))\n\n    async def _run_batch(self, args: Any, futs: Any) -> None:\n        """Run the function and answer what it yields."""\n        async for key, result in self.func(args):\n            fut = futs.pop(key)\n            if isinstance(result, Exception):\n                self._set_exception(fut, result)\n            else:\n                fut.set_result(result)\n\n')]
