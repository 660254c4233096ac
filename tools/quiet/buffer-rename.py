"""BufferAsyncCalls: private names, helpers, statement order"""
EDITS = [
    ('asyncio', '        self._put(_obj_to_aiter(_arg))\n', '        self._enqueue(_single(_arg))\n'),
    ('asyncio', '        self._put(_awaitable_to_aiter(_arg))\n', '        self._enqueue(_single_awaited(_arg))\n'),
    ('asyncio', '        self._put(to_async_iter(_args))\n', '        self._enqueue(to_async_iter(_args))\n'),
    ('asyncio', '        self._put(_args)\n', '        self._enqueue(_args)\n'),
    ('asyncio', '        self._waiting = DaemonTask(\n            self._waiter(),\n            loop=self.loop,\n            name=f"Buffering {self.func!r}",\n        )\n        #: Current task that is waiting for a new element from the queue\n        self._getting: Optional[\'aio.Task[AsyncIterable[T]]\'] = None\n', '        self._next: Optional[\'aio.Task[AsyncIterable[T]]\'] = None\n        self._forever = DaemonTask(self._work(), loop=self.loop,\n                                   name="Buffering %r" % (self.func,))\n'),
    ('asyncio', '        if cancel and self._getting and not self._getting.done():\n            # Cancel the current q.get to avoid waiting for timeout\n            # The sleep(0) forces task switching to ensure that\n            # _process_queue gets at least one cycle to pull remaining\n            # elements off the queue\n            await aio.sleep(0)\n            self._getting.cancel()\n', '        if cancel:\n            pending = self._next\n            if pending is not None and not pending.done():\n                await aio.sleep(0)\n                self._next.cancel()  # type: ignore\n'),
    ('asyncio', '    async def _waiter(self) -> None:\n        """\n        Simple loop which tries to process the queue infinitely using\n        :meth:`_process_queue`. This is spawned automatically upon\n        """\n        while True:\n            await self._process_queue()\n\n    async def _process_queue(self) -> None:', '    async def _work(self) -> None:\n        while True:\n            await self._one_round()\n\n    async def _one_round(self) -> None:'),
    ('asyncio', '            input_gens.extend(map(_load_inputs, self._empty_queue()))\n            # Schedule the q.get() and save it as an attribute so it\n            # can be cancelled as necessary. This needs to be scheduled\n            # *before* waiting for the known inputs.\n            self._getting = self._schedule_with_timeout(self.q.get())\n            if input_gens:  # Load as many as possible concurrently\n                await aio.gather(*input_gens)\n                input_gens.clear()  # Clear processed input generators\n            # Now wait for the next arguments to buffer. If this times\n            # out or is cancelled, its time to run the function. Gather\n            # tells that apart from this task itself being cancelled.\n            (args,) = await aio.gather(self._getting, return_exceptions=True)\n            if isinstance(args, (aio.TimeoutError, aio.CancelledError)):\n                done = await self._run_func(inputs)\n            elif isinstance(args, BaseException):\n                raise args\n            else:\n                await aio.gather(_load_inputs(args))\n                self.q.task_done()\n', '            for more in self._drain():\n                input_gens.append(_load_inputs(more))\n            self._next = self.loop.create_task(\n                aio.wait_for(self.q.get(), self.timeout))\n            if input_gens:\n                await aio.gather(*input_gens)\n                input_gens = []\n            (args,) = await aio.gather(self._next, return_exceptions=True)\n            if not isinstance(args, BaseException):\n                await aio.gather(_load_inputs(args))\n                self.q.task_done()\n                continue\n            if not isinstance(args, (aio.TimeoutError, aio.CancelledError)):\n                raise args\n            done = await self._call_it(inputs)\n'),
    ('asyncio', '    async def _run_func(self, inputs: Set[T]) -> bool:', '    async def _call_it(self, inputs: Set[T]) -> bool:'),
    ('asyncio', '        if inputs:  # Could be empty if all empty iterators\n            # Gather tells an error raised by the function apart from\n            # this task itself being cancelled\n            (error,) = await aio.gather(_call(), return_exceptions=True)\n            if error is not None:\n                logging.error("Failed to run %s, retrying", self.func,\n                              exc_info=error)\n                return False\n\n        self.event.set()\n        return True\n\n    def _schedule_with_timeout(self, coro: Awaitable[X]) -> \'aio.Task[X]\':\n        """\n        Helper method to create a task for the given coroutine with the\n        configured :attr:`timeout`.\n        """\n        return self.loop.create_task(aio.wait_for(coro, self.timeout))\n\n    def _put(self, iterable: AsyncIterable[T]) -> None:\n        """\n        Helper method to put an async iterable onto the queue and clear\n        the event.\n        """\n        self.event.clear()\n        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)\n\n    def _empty_queue(self) -> Yields[AsyncIterable[T]]:\n        """Get all of the elements immediately available in the queue."""\n        while True:\n            try:\n                yield self.q.get_nowait()\n            except aio.QueueEmpty:\n                break\n            else:\n                self.q.task_done()\n', '        failure = None\n        if len(inputs) > 0:\n            outcome = await aio.gather(_call(), return_exceptions=True)\n            failure = outcome[0]\n        if failure is None:\n            self.event.set()\n            return True\n        logger.error("Will retry %s", self.func, exc_info=failure)\n        return False\n\n    def _enqueue(self, iterable: AsyncIterable[T]) -> None:\n        def _add() -> None:\n            self.q.put_nowait(iterable)\n        self.event.clear()\n        self.loop.call_soon_threadsafe(_add)\n\n    def _drain(self) -> List[AsyncIterable[T]]:\n        """All of the elements which are in the queue."""\n        found: List[AsyncIterable[T]] = []\n        while not self.q.empty():\n            found.append(self.q.get_nowait())\n            self.q.task_done()\n        return found\n'),
    ('asyncio', 'async def _obj_to_aiter', 'async def _single'),
    ('asyncio', 'async def _awaitable_to_aiter', 'async def _single_awaited'),
]
