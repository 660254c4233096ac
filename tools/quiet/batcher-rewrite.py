"""AsyncBackgroundBatcher: private names, plain loops"""
EDITS = [
    ('asyncio', '        self._semaphore = aio.Semaphore(value=max_concurrent_batches)\n\n        self._loop = aio.get_running_loop()\n        self._loop_task = self._daemon_task(\n            self._processing_loop(),\n            name="async-bg-batcher-processing-loop",\n        )\n', '        self._loop = loop = aio.get_running_loop()\n        self._limit = aio.Semaphore(max_concurrent_batches)\n        self._worker = DaemonTask(self._serve(), loop=loop,\n                                  name="async-bg-batcher-processing-loop")\n'),
    ('asyncio', '        try:\n            fut = self._retention_cache[key]\n        except KeyError:\n            pass\n        else:\n            return await aio.shield(fut)\n\n        fut = self._retention_cache[key] = self._loop.create_future()\n        fut.add_done_callback(partial(self._start_retention, key))\n        await self._queue.put((key, arg, fut))\n\n        return await aio.shield(fut)\n\n    def _start_retention(self, key: str, _: \'aio.Future[R_co]\') -> None:\n        """\n        Callback for when a request is complete to forget its result\n        once the retention timeout has passed.\n        """\n        if self.retention_timeout > 0:\n            self._loop.call_later(\n                self.retention_timeout,\n                self._retention_cache.pop,\n                key,\n            )\n        else:\n            del self._retention_cache[key]\n\n    def _daemon_task(\n        self,\n        coro: Coroutine[Any, Any, Any],\n        name: Optional[str] = None,\n    ) -> \'DaemonTask\':\n        """\n        Helper method to create a :class:`DaemonTask` instance in the\n        current event loop.\n        """\n        return DaemonTask(coro, loop=self._loop, name=name)\n\n    async def _processing_loop(self) -> None:\n        while True:\n            tasks = await self._get_next_batch()\n            # Don\'t wait for the current batch to finish\n            self._daemon_task(  # noqa\n                self._process_batch(tasks),\n                name="async-bg-batcher-process-batch",\n            )\n', '        if key not in self._retention_cache:\n            self._submit(key, arg)\n        return await aio.shield(self._retention_cache[key])\n\n    def _submit(self, key: str, arg: A_contra) -> None:\n        fut: \'aio.Future[R_co]\' = self._loop.create_future()\n\n        def forget() -> None:\n            self._retention_cache.pop(key, None)\n\n        def completed(_: Any) -> None:\n            keep = self.retention_timeout\n            if keep <= 0:\n                forget()\n            else:\n                self._loop.call_later(keep, forget)\n\n        fut.add_done_callback(completed)\n        self._retention_cache[key] = fut\n        self._queue.put_nowait((key, arg, fut))\n\n    async def _serve(self) -> None:\n        while True:\n            batch = await self._get_next_batch()\n            DaemonTask(self._process_batch(batch), loop=self._loop,\n                       name="async-bg-batcher-process-batch")\n'),
    ('asyncio', '        while len(tasks) < self.max_batch_size:\n            # Grab all available tasks as efficiently as possible\n            # Yes - this is a micro-optimization\n            try:\n                tasks.extend(islice(\n                    iter(q.get_nowait, object()),\n                    self.max_batch_size - len(tasks),\n                ))\n            except AioQueueEmpty:\n                pass\n            else:\n                continue\n            # Give the publisher a little breathing room to actually\n            # populate the queue before declaring it empty\n            try:\n                tasks.append(await aio.wait_for(q.get(), self.batch_timeout))\n            except AioTimeoutError:  # No more tasks coming\n                break\n        return tasks\n', '        while True:\n            while len(tasks) < self.max_batch_size and not q.empty():\n                tasks.append(q.get_nowait())\n            if len(tasks) >= self.max_batch_size:\n                return tasks\n            try:\n                another = await aio.wait_for(q.get(), self.batch_timeout)\n            except AioTimeoutError:\n                return tasks\n            tasks.append(another)\n'),
    ('asyncio', '        args = [t[:2] for t in tasks]\n        futs = {k: f for k, _, f in tasks}\n\n        try:\n            async with self._semaphore:  # Limit concurrent executions\n                logger.debug(\n                    "Sending batch of size %d to %s",\n                    len(args), self.func,\n                )\n                async for key, result in self.func(args):\n                    fut = futs.pop(key)\n                    if isinstance(result, Exception):\n                        self._set_exception(fut, result)\n                    else:\n                        fut.set_result(result)\n', '        args = []\n        futs = {}\n        for key, arg, fut in tasks:\n            args.append((key, arg))\n            futs[key] = fut\n\n        try:\n            async with self._limit:\n                results = self.func(args)\n                async for item in results:\n                    key, result = item\n                    self._answer(futs.pop(key), result)\n'),
    ('asyncio', '        if futs:\n            logger.error("Missing outputs for %d futures", len(futs))\n            for key, fut in futs.items():\n                fut.set_exception(ValueError(f"Missing result for {key!r}"))\n\n    @staticmethod\n', '        for key in futs:\n            futs[key].set_exception(\n                ValueError("Missing result for {!r}".format(key)))\n\n    def _answer(self, fut: \'aio.Future[R_co]\', result: Any) -> None:\n        if not isinstance(result, Exception):\n            fut.set_result(result)\n            return\n        self._set_exception(fut, result)\n\n    @staticmethod\n'),
    ('asyncio', '    try:\n            batcher = batchers[loop]\n        except KeyError:\n            batcher = batchers[loop] = AsyncBackgroundBatcher(\n                cast(_BatchFunc[A_contra, R_co], func),\n                max_batch_size=max_batch_size,\n                max_concurrent_batches=max_concurrent_batches,\n                batch_timeout=batch_timeout,\n                retention_timeout=retention_timeout,\n            )\n        return await batcher(arg, key=key)\n', '    batcher = batchers.get(loop)\n        if batcher is None:\n            batcher = AsyncBackgroundBatcher(\n                cast(_BatchFunc[A_contra, R_co], func), **options)\n            batchers[loop] = batcher\n        return await batcher(arg, key=key)\n'),
    ('asyncio', '    if func is None:\n        return partial(\n            async_background_batcher,  # type: ignore\n            max_batch_size=max_batch_size,\n            max_concurrent_batches=max_concurrent_batches,\n            batch_timeout=batch_timeout,\n            retention_timeout=retention_timeout,\n        )\n', '    options: Dict[str, Any] = dict(\n        max_batch_size=max_batch_size,\n        max_concurrent_batches=max_concurrent_batches,\n        batch_timeout=batch_timeout,\n        retention_timeout=retention_timeout,\n    )\n    if func is None:\n        def _decorator(fn: Any) -> Any:\n            return async_background_batcher(fn, **options)\n        return _decorator\n'),
]
