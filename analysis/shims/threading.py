class Lock:
    _reentrant = False

    def __init__(self):
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        if self._n and not self._reentrant:
            if not blocking or timeout >= 0:
                return False
            raise RuntimeError("deadlock: lock is acquired twice")
        self._n += 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        self._n -= 1

    def locked(self):
        return self._n > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    _reentrant = True


class Semaphore:
    def __init__(self, value=1):
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        if self._v == 0:
            if not blocking:
                return False
            raise RuntimeError("deadlock: semaphore is exhausted")
        self._v -= 1
        return True

    def release(self, n=1):
        self._v += n

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


BoundedSemaphore = Semaphore


class local:
    pass


def get_ident():
    return 1


def Condition(lock=None):
    return lock if lock is not None else RLock()
