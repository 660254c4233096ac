"""FileLock: attribute names, fcntl imported by name"""
EDITS = [
    ('filelock', '        fcntl.flock(fd,  fcntl.LOCK_EX | (0 if block else fcntl.LOCK_NB))\n', '        from fcntl import flock, LOCK_EX, LOCK_NB\n        if block:\n            flock(fd, LOCK_EX)\n        else:\n            flock(fd, LOCK_EX | LOCK_NB)\n'),
    ('filelock', '        self._lock_counter = max(0, self._lock_counter - 1)\n', '        if self._lock_counter > 0:\n            self._lock_counter -= 1\n'),
    ('filelock', "        if not self._thread_lock.acquire(blocking, timeout):\n            _logger.debug('Timeout on acquiring thread lock %s on %s', lid, fn)\n            return False\n\n        self._lock_counter += 1  # Keep lock counter synced with RLock\n\n        if self.is_locked:\n            return True\n", '        got = self._thread_lock.acquire(blocking=blocking, timeout=timeout)\n        if got:\n            self._lock_counter += 1\n        else:\n            return False\n\n        if self._lock_file_fd is not None:\n            return True\n'),
    ('filelock', '        if timeout is None:\n            timeout = self.timeout if blocking else -1\n        else:\n            blocking = blocking if timeout < 0 else True\n', '        if timeout is not None:\n            if timeout >= 0:\n                blocking = True\n        elif blocking:\n            timeout = self.timeout\n        else:\n            timeout = -1\n'),
]
