"""Scheduler-aware replacements for threading.Lock / RLock / _allocate_lock.

On a thread the explorer schedules, acquiring is a scheduling point and waiting is visible to the
explorer (deadlock = no thread enabled).  On any other thread they are ordinary locks, except that
a plain Lock re-acquired for ever by its own holder raises SelfDeadlock instead of hanging.
"""
import _thread
import threading

_alloc = _thread.allocate_lock
_real_RLock = threading.RLock
_ident = _thread.get_ident


class SelfDeadlock(BaseException):
    """A thread blocked for ever on a lock it holds itself."""


registry = {}      # ident -> ThreadRec of the running Sched


class SchedLock(object):
    _detect = True

    def __init__(self):
        self._block = _alloc()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        t = registry.get(_ident())
        if t is None:
            if self._block.acquire(False):
                self._owner = _ident()
                return True
            if not blocking:
                return False
            if self._detect and timeout < 0 and self._owner == _ident():
                raise SelfDeadlock('a thread waits for ever for a lock it already holds')
            r = self._block.acquire(True, timeout)
            if r:
                self._owner = _ident()
            return r
        s = t.sched
        if s.aborting:
            s.abort_here(t)
            return True
        s.point(t)
        while not self._block.acquire(False):
            if not blocking:
                return False
            if not s.block(t, self._free, 'lock', timed=timeout >= 0):
                return False
        self._owner = _ident()
        return True

    def _free(self):
        return not self._block.locked()

    def release(self):
        t = registry.get(_ident())
        if t is not None and t.sched.aborting:
            if self._block.locked():
                self._block.release()
            return
        self._owner = None
        self._block.release()
        if t is not None:
            t.sched.point(t)

    def locked(self):
        return self._block.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._block = _alloc()
        self._owner = None

    def __repr__(self):
        return '<lock>'


class SchedWaitLock(SchedLock):
    """Condition variables' waiter locks: legitimately acquired twice by one thread."""
    _detect = False


class SchedRLock(object):
    def __init__(self):
        self._lock = SchedLock()
        self._count = 0
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        if self._owner == _ident():
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = _ident()
            self._count = 1
            return True
        return False

    def release(self):
        t = registry.get(_ident())
        if self._owner != _ident():
            if t is not None and t.sched.aborting:
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._lock.release()
        return st

    def _acquire_restore(self, st):
        self._lock.acquire()
        self._count, self._owner = st

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._count, self._owner = 0, None

    def _recursion_count(self):
        return self._count if self._owner == _ident() else 0

    def __repr__(self):
        return '<rlock>'


def install():
    threading.Lock = SchedLock
    threading.RLock = SchedRLock
    threading._RLock = SchedRLock
    threading._allocate_lock = SchedWaitLock
