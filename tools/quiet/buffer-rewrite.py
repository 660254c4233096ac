"""the buffer rewritten around a single loop"""
EDITS = [
    ('asyncio', '        inputs: Set[T] = set()\n\n        async def _load_inputs(iterable: AsyncIterable[T]) -> None:\n            try:\n                async for i in iterable:\n                    inputs.add(i)\n            except BaseException:  # noqa\n                logger.exception("Failed to get args from: %r", iterable)\n\n        # Get first element, block infinitely until one appears\n        try:\n            input_gens = [_load_inputs(await self.q.get())]\n        except RuntimeError:  # Most likely loop shutdown\n            return\n        else:\n            self.event.clear()  # Ensure cleared in case previous cancel\n            self.q.task_done()\n        # Keep adding new args until the function has run successfully.\n        # The event can\'t be used to check that because another thread\n        # may already have cleared it again for its own argument.\n        done = False\n        while not done:\n            # Get all the input generators currently in the queue\n            input_gens.extend(map(_load_inputs, self._empty_queue()))\n            # Schedule the q.get() and save it as an attribute so it\n            # can be cancelled as necessary. This needs to be scheduled\n            # *before* waiting for the known inputs.\n            self._getting = self._schedule_with_timeout(self.q.get())\n            if input_gens:  # Load as many as possible concurrently\n                await aio.gather(*input_gens)\n                input_gens.clear()  # Clear processed input generators\n            # Now wait for the next arguments to buffer. If this times\n            # out or is cancelled, its time to run the function. Gather\n            # tells that apart from this task itself being cancelled.\n            (args,) = await aio.gather(self._getting, return_exceptions=True)\n            if isinstance(args, (aio.TimeoutError, aio.CancelledError)):\n                done = await self._run_func(inputs)\n            elif isinstance(args, BaseException):\n                raise args\n            else:\n                await aio.gather(_load_inputs(args))\n                self.q.task_done()\n\n    async def _run_func(self, inputs: Set[T]) -> bool:\n        """\n        Run :attr:`func` with the given set of inputs and set\n        :attr:`event` once it has finished successfully.\n\n        If an exception is raised, log it with its traceback and return\n        without setting the event to prevent the buffered inputs from\n        being lost.\n\n        :return: True if the function finished successfully\n        """\n        async def _call() -> None:\n            # It may modify the set, don\'t let it lose any arguments\n            await self.func(set(inputs))\n\n        if inputs:  # Could be empty if all empty iterators\n            # Gather tells an error raised by the function apart from\n            # this task itself being cancelled\n            (error,) = await aio.gather(_call(), return_exceptions=True)\n            if error is not None:\n                logging.error("Failed to run %s, retrying", self.func,\n                              exc_info=error)\n                return False\n\n        self.event.set()\n        return True\n\n', '        batch: Set[T] = set()\n        try:\n            first = await self.q.get()\n        except RuntimeError:  # Most likely loop shutdown\n            return\n        self.event.clear()\n        self.q.task_done()\n        pending = [first]\n        while True:\n            pending += self._empty_queue()\n            self._getting = getting = self._schedule_with_timeout(\n                self.q.get())\n            loading, pending = pending, []\n            if loading:\n                await aio.gather(*(self._load(batch, x) for x in loading))\n            outcome = (await aio.gather(getting, return_exceptions=True))[0]\n            if not isinstance(outcome, BaseException):\n                await aio.gather(self._load(batch, outcome))\n                self.q.task_done()\n                continue\n            if not isinstance(outcome, (aio.TimeoutError,\n                                        aio.CancelledError)):\n                raise outcome\n            if await self._run_func(batch):\n                return\n\n    @staticmethod\n    async def _load(into: Set[T], iterable: AsyncIterable[T]) -> None:\n        """Add everything from the iterable, however it may end."""\n        try:\n            async for item in iterable:\n                into.add(item)\n        except BaseException:  # noqa\n            logger.exception("Failed to get args from: %r", iterable)\n\n    async def _run_func(self, inputs: Set[T]) -> bool:\n        """Run the function unless there is nothing to run it with."""\n        error: Optional[BaseException] = None\n        if inputs:\n            async def _call(args: Set[T]) -> None:\n                await self.func(args)\n\n            [error] = await aio.gather(_call(inputs.copy()),\n                                       return_exceptions=True)\n        if error is None:\n            self.event.set()\n            return True\n        logger.error("Failed to run %s, retrying", self.func,\n                     exc_info=error)\n        return False\n\n'),
    ('asyncio', '        while True:\n            try:\n                yield self.q.get_nowait()\n            except aio.QueueEmpty:\n                break\n            else:\n                self.q.task_done()\n\n\n', '        found = []\n        while not self.q.empty():\n            found.append(self.q.get_nowait())\n            self.q.task_done()\n        return found\n\n\n'),
    ('asyncio', '    def _empty_queue(self) -> Yields[AsyncIterable[T]]:', '    def _empty_queue(self) -> List[AsyncIterable[T]]:'),
    ('asyncio', '        if cancel and self._getting and not self._getting.done():\n            # Cancel the current q.get to avoid waiting for timeout\n            # The sleep(0) forces task switching to ensure that\n            # _process_queue gets at least one cycle to pull remaining\n            # elements off the queue\n            await aio.sleep(0)\n            self._getting.cancel()\n        # Wait for the function to finish processing\n        await self.event.wait()\n\n', '        getting = self._getting\n        if cancel and getting is not None and not getting.done():\n            # Give it the chance to pull the remaining elements first\n            await aio.sleep(0)\n            self._getting.cancel()\n        if not self.event.is_set():\n            await self.event.wait()\n\n'),
    ('asyncio', '        self.event.clear()\n        self.loop.call_soon_threadsafe(self.q.put_nowait, iterable)\n', '        loop, event, put = self.loop, self.event, self.q.put_nowait\n        event.clear()\n        loop.call_soon_threadsafe(put, iterable)\n'),
]
