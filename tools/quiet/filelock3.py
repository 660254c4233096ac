"""FileLock: built-in file objects, unlocked by closing, other clocks"""
EDITS = [
    ('filelock', '            fd = os.open(self._lock_file, self._FD_OPEN_MODE)\n        except OSError:\n            return\n        try:\n            self._lock(fd, block)\n        except (IOError, OSError):\n            os.close(fd)\n        except BaseException:\n            os.close(fd)\n            raise\n        else:\n            self._lock_file_fd = fd\n',
     "            f = open(self._lock_file, 'w')\n        except OSError:\n            return\n        try:\n            self._lock(f, block)\n        except BaseException as e:\n            f.close()\n            if not isinstance(e, OSError):\n                raise\n        else:\n            self._lock_file_fd = f\n"),
    ('filelock', '        fd, self._lock_file_fd = self._lock_file_fd, None\n        assert isinstance(fd, int)\n        try:\n            self._unlock(fd)\n        finally:\n            os.close(fd)\n',
     '        f = self._lock_file_fd\n        self._lock_file_fd = None\n        f.close()\n'),
    ('filelock', '        start_time = time.monotonic()\n', '        deadline = time.monotonic() + timeout\n'),
    ('filelock', '                elif 0 <= timeout < time.monotonic() - start_time:\n', '                elif timeout >= 0 and time.monotonic() > deadline:\n'),
    ('filelock', '                    time.sleep(poll_interval)\n', '                    threading.Event().wait(poll_interval)\n'),
]
