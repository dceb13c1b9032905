"""Deterministic pre-emptive scheduler for real threads.

Exactly one simulated thread runs at any time (a baton: every thread owns a
lock it waits on). Every statement of the library (and, at the finer
granularity, every call, load and augmented assignment within one) is a
scheduling point - see dst.instrument - and so is every explicit `point()`
in harness callbacks; which thread continues there is decided only by the
plan: a list of [n, tid] meaning "at the n-th scheduling point, switch to tid
if it is still running". Locks created by the code under test are cooperative.
"""
import os
import threading
import _thread

_real_lock = _thread.allocate_lock
_current = None          # the active Scheduler, or None


class Deadlock(BaseException):
    pass


class Scheduler(object):
    def __init__(self, root, preempt, granularity='line', max_points=200000):
        self.root = root
        self.preempt = {}
        for n, tid in preempt:
            self.preempt.setdefault(int(n), int(tid))
        self.granularity = granularity
        self.points = 0
        self.max_points = max_points
        self.switches = []
        self.locks = []
        self.done = []
        self.blocked = []
        self.running = None
        self.errors = []
        self.finished = _real_lock()
        self.finished.acquire()
        self.deadlocked = self.exhausted = False
        self.idents = {}
        self.points_by_thread = []

    # -- running ---------------------------------------------------------
    def run(self, bodies):
        """bodies: list of callables; returns when all have finished"""
        global _current
        n = len(bodies)
        self.locks = [_real_lock() for _ in range(n)]
        for lock in self.locks:
            lock.acquire()
        self.done = [False] * n
        self.blocked = [None] * n
        self.points_by_thread = [0] * n
        ready = [_real_lock() for _ in range(n)]
        for r in ready:
            r.acquire()
        _current = self
        _thread.stack_size(384 << 20)
        try:
            for tid, body in enumerate(bodies):
                _thread.start_new_thread(self._thread, (tid, body, ready[tid]))
                ready[tid].acquire()
            self.running = 0
            self.locks[0].release()
            self.finished.acquire()
        finally:
            _current = None
        if self.deadlocked:
            raise Deadlock()
        if self.errors:
            raise self.errors[0]

    def _thread(self, tid, body, ready):
        self.idents[_thread.get_ident()] = tid
        ready.release()
        self.locks[tid].acquire()
        try:
            if not self.deadlocked:
                body()
        except Deadlock:
            pass
        except BaseException as err:   # harness failure: bodies catch their own
            self.errors.append(err)
        self.done[tid] = True
        self._leave(tid)

    def _leave(self, tid):
        if all(self.done):
            self.finished.release()
            return
        nxt = self._next_runnable(tid)
        if nxt is None:
            self._declare_deadlock(tid)
            return
        self.running = nxt
        self.locks[nxt].release()

    def _declare_deadlock(self, tid):
        self.deadlocked = True
        rest = [t for t in range(len(self.done)) if not self.done[t] and t != tid]
        if rest:
            self.running = rest[0]
            self.locks[rest[0]].release()
        elif all(self.done):
            self.finished.release()

    def _next_runnable(self, tid):
        n = len(self.done)
        for k in range(1, n + 1):
            t = (tid + k) % n
            if self.done[t]:
                continue
            if self.blocked[t] is not None and self.blocked[t].locked():
                continue
            return t
        return None

    # -- scheduling points --------------------------------------------------
    def point(self):
        tid = self.idents.get(_thread.get_ident())
        if tid is None:
            return
        if self.deadlocked:
            raise Deadlock()
        self.points += 1
        self.points_by_thread[tid] += 1
        if self.points > self.max_points:
            self.deadlocked = self.exhausted = True      # (no progress: everything stops)
            raise Deadlock()
        to = self.preempt.get(self.points)
        if to is None:
            return
        n = len(self.done)
        to = to % n
        for k in range(n):
            t = (to + k) % n
            if t != tid and not self.done[t] and not (
                    self.blocked[t] is not None and self.blocked[t].locked()):
                self.switches.append((self.points, tid, t))
                self._switch(tid, t)
                return

    def _switch(self, tid, to):
        self.running = to
        self.locks[to].release()
        self.locks[tid].acquire()
        if self.deadlocked:
            raise Deadlock()

    def block_on(self, simlock):
        """The running thread waits for a contended cooperative lock"""
        tid = self.idents[_thread.get_ident()]
        self.blocked[tid] = simlock
        nxt = self._next_runnable(tid)
        if nxt is None or nxt == tid:
            if not simlock.locked():
                self.blocked[tid] = None
                return
            self._declare_deadlock(tid)
            raise Deadlock()
        try:
            self._switch(tid, nxt)
        finally:
            self.blocked[tid] = None


def active():
    s = _current
    if s is not None and _thread.get_ident() in s.idents:
        return s
    return None


def point():
    s = active()
    if s is not None:
        s.point()


def points_of(filename):
    """(point, within) for the library file"""
    filename = os.path.realpath(filename)

    def point():
        s = _current
        if s is not None and s.granularity != 'none' and filename.startswith(s.root):
            s.point()

    def within(value):
        s = _current
        if s is not None and s.granularity == 'op' and filename.startswith(s.root):
            s.point()
        return value
    return point, within


class SimLock(object):
    """threading.Lock stand-in: cooperative inside a simulation"""

    def __init__(self):
        self._lock = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = active()
        if s is None:
            return self._lock.acquire(blocking, timeout)
        if self._lock.acquire(False):
            return True
        if not blocking:
            return False
        while not self._lock.acquire(False):
            s.block_on(self)
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._lock = _real_lock()


class SimRLock(object):
    """threading.RLock stand-in: cooperative inside a simulation"""

    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # used by threading.Condition
    def _release_save(self):
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._lock.release()
        return state

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
