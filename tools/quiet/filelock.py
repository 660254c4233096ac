"""FileLock: monotonic clock, helpers, one finally"""
EDITS = [
    ('filelock', '        start_time = time.monotonic()\n\n        def _cleanup_thread_lock() -> None:\n            self._decrement_lock_counter()\n            self._thread_lock.release()\n\n        try:\n            while True:\n                _logger.debug(\'Attempting to acquire lock %s on %s\', lid, fn)\n                self._acquire(block=blocking and timeout < 0)\n\n                if self.is_locked:\n                    _logger.info(\'Lock %s acquired on %s\', lid, fn)\n                    break\n                elif not blocking:\n                    _logger.debug(\'Failed to acquire lock %s on %s\', lid, fn)\n                    _cleanup_thread_lock()\n                    return False\n                elif 0 <= timeout < time.monotonic() - start_time:\n                    _logger.debug(\'Timeout on acquiring lock %s on %s\', lid, fn)\n                    _cleanup_thread_lock()\n                    return False\n                else:\n                    _logger.debug(\n                        \'Lock %s not acquired on %s, waiting %s seconds ...\',\n                        lid, fn, poll_interval,\n                    )\n                    time.sleep(poll_interval)\n        except:  # noqa\n            _logger.exception("Failed to acquire lock %s on %s", lid, fn)\n            _cleanup_thread_lock()\n            raise\n\n        return True\n', '        begun = time.monotonic()\n        acquired = False\n        try:\n            while not acquired:\n                self._acquire(block=blocking and timeout < 0)\n                acquired = self.is_locked\n                if acquired or not blocking:\n                    break\n                if timeout >= 0 and time.monotonic() - begun > timeout:\n                    break\n                time.sleep(poll_interval)\n        finally:\n            if not acquired:\n                self._abandon()\n        return acquired\n\n    def _abandon(self) -> None:\n        self._decrement_lock_counter()\n        self._thread_lock.release()\n'),
    ('filelock', '        try:\n            fd = os.open(self._lock_file, self._FD_OPEN_MODE)\n        except OSError:\n            return\n        try:\n            self._lock(fd, block)\n        except (IOError, OSError):\n            os.close(fd)\n        except BaseException:\n            os.close(fd)\n            raise\n        else:\n            self._lock_file_fd = fd\n', '        try:\n            fd = os.open(os.fspath(self._lock_file), self._FD_OPEN_MODE)\n        except OSError:\n            return\n        locked = False\n        try:\n            self._lock(fd, block)\n            locked = True\n        except OSError:\n            pass\n        finally:\n            if not locked:\n                os.close(fd)\n        if locked:\n            self._lock_file_fd = fd\n'),
    ('filelock', '        try:\n            for _ in range(depth):\n                self._thread_lock.release()\n        except RuntimeError:  # not reentrant and already unlocked\n            pass\n', '        while depth > 0:\n            depth -= 1\n            try:\n                self._thread_lock.release()\n            except RuntimeError:\n                return\n'),
    ('filelock', '    _FD_OPEN_MODE: ClassVar[int] = os.O_RDWR | os.O_CREAT | os.O_TRUNC\n', '    _FD_OPEN_MODE: ClassVar[int] = os.O_CREAT | os.O_TRUNC | os.O_RDWR\n'),
    ('filelock', '    def __enter__(self: FileLockT) -> FileLockT:\n        if not self.acquire():\n            raise TimeoutError("Failed to acquire file lock:", self._lock_file)\n        return self\n', '    def __enter__(self: FileLockT) -> FileLockT:\n        got = self.acquire()\n        if got:\n            return self\n        raise TimeoutError("Failed to acquire file lock:", self._lock_file)\n'),
]
