"""Seams: simulated locks, queues, thread start, clock. Installed before expression is imported."""

from __future__ import annotations

import _thread
import asyncio
import queue
import threading
import time
from collections import deque
from typing import Any

from . import core
from . import threads as T


class SimLock:
    """threading.Lock on the simulated scheduler."""

    def __init__(self) -> None:
        self._locked = False
        self._waiters: list = []

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        s = T.ACTIVE
        if s is None or s.aborting:
            if self._locked and s is None:
                if not blocking or timeout >= 0:
                    return False
                raise core.Violation("deadlock", "lock acquired outside a run while held")
            self._locked = True
            return True
        s.point()
        dl = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if not blocking:
                return False
            self._waiters.append(s.cur)
            if not s.block("lock", dl) and self._locked:
                return False
        self._locked = True
        return True

    def release(self) -> None:
        if not self._locked:
            s = T.ACTIVE
            if s is not None and s.aborting:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = T.ACTIVE
        if s is not None:
            w, self._waiters = self._waiters, []
            for t in w:
                s._wake(t)
            s.point()

    def locked(self) -> bool:
        return self._locked

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: Any) -> None:
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self) -> None:
        self._locked = False
        self._waiters = []


class SimRLock:
    """threading.RLock on the simulated scheduler."""

    def __init__(self) -> None:
        self._owner: Any = None
        self._count = 0
        self._waiters: list = []

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _thread.get_ident()
        s = T.ACTIVE
        if self._owner == me:
            self._count += 1
            return True
        if s is None or s.aborting:
            self._owner = me
            self._count = 1
            return True
        s.point()
        dl = None if timeout is None or timeout < 0 else s.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            self._waiters.append(s.cur)
            if not s.block("rlock", dl) and self._owner is not None:
                return False
        self._owner = me
        self._count = 1
        return True

    def release(self) -> None:
        s = T.ACTIVE
        if self._owner != _thread.get_ident():
            if s is not None and s.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count:
            return
        self._owner = None
        if s is not None:
            w, self._waiters = self._waiters, []
            for t in w:
                s._wake(t)
            s.point()

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *a: Any) -> None:
        self.release()

    def _is_owned(self) -> bool:
        return self._owner == _thread.get_ident()

    def _release_save(self) -> Any:
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c: int) -> None:
        self.acquire()
        self._count = c

    def _recursion_count(self) -> int:
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self) -> None:
        self._owner = None
        self._count = 0
        self._waiters = []


class SimSimpleQueue:
    """queue.SimpleQueue on the simulated scheduler (each operation atomic)."""

    __class_getitem__ = classmethod(lambda cls, item: cls)

    def __init__(self) -> None:
        self._q: deque = deque()
        self._waiters: list = []

    def put(self, item: Any, block: bool = True, timeout: float | None = None) -> None:
        s = T.ACTIVE
        if s is not None:
            s.point()
        self._q.append(item)
        if s is not None:
            w, self._waiters = self._waiters, []
            for t in w:
                s._wake(t)
            s.point()

    def put_nowait(self, item: Any) -> None:
        self.put(item)

    def get(self, block: bool = True, timeout: float | None = None) -> Any:
        s = T.ACTIVE
        if block and timeout is not None and timeout < 0:
            raise ValueError("'timeout' must be a non-negative number")
        if s is not None:
            s.point()
            dl = None if timeout is None else s.now + timeout
            while not self._q:
                if not block:
                    raise queue.Empty
                self._waiters.append(s.cur)
                if not s.block("queue", dl) and not self._q:
                    raise queue.Empty
        elif not self._q:
            raise queue.Empty
        return self._q.popleft()

    def get_nowait(self) -> Any:
        return self.get(block=False)

    def empty(self) -> bool:
        s = T.ACTIVE
        if s is not None:
            s.point()
        return not self._q

    def qsize(self) -> int:
        return len(self._q)


def _sim_context() -> bool:
    """Locks made by expression modules (at import too) or by any simulated thread are simulated."""
    if T.ACTIVE is not None:
        return True
    import sys

    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        n = f.f_globals.get("__name__", "")
        if isinstance(n, str) and (n == "expression" or n.startswith("expression.")):
            return True
        if n not in ("threading", "queue"):
            return False
        f = f.f_back
    return False


_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_SimpleQueue = queue.SimpleQueue
_real_start = threading._start_new_thread


def Lock() -> Any:
    return SimLock() if _sim_context() else _real_Lock()


def RLock(*a: Any, **k: Any) -> Any:
    return SimRLock() if _sim_context() else _real_RLock(*a, **k)


class _SQMeta(type):
    def __call__(cls, *a: Any, **k: Any) -> Any:
        if cls is SimpleQueue:
            return SimSimpleQueue() if _sim_context() else _real_SimpleQueue()
        return super().__call__(*a, **k)

    def __instancecheck__(cls, o: Any) -> bool:
        return isinstance(o, (SimSimpleQueue, _real_SimpleQueue))


class SimpleQueue(metaclass=_SQMeta):
    __class_getitem__ = classmethod(lambda cls, item: cls)


def start_new_thread(fn: Any, args: tuple, kwargs: dict | None = None) -> int:
    s = T.ACTIVE
    if s is None:
        return _real_start(fn, args, kwargs or {})
    t = s.spawn(lambda: fn(*args, **(kwargs or {})))
    return 100000 + t.tid


_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns", "perf_counter_ns")}


def _clock(name: str, scale: int | None) -> Any:
    real = _real[name]
    base = 1.7e9 if name.startswith("time") else 1000.0

    def clock() -> Any:
        s = T.ACTIVE
        if s is None:
            return real()
        v = base + s.now
        return v if scale is None else int(v * scale)

    clock.__name__ = name
    return clock


def _sleep(d: float) -> None:
    s = T.ACTIVE
    if s is None:
        _real["sleep"](d)
    else:
        s.sleep(d)


_real_main_thread = threading.main_thread
_elsewhere = threading.Thread(name="MainThread")


def _main_thread() -> threading.Thread:
    """Which simulated thread is the program's main thread is the run's choice (an event loop need not run in it)."""
    s = T.ACTIVE
    if s is None or s.cur is None:
        return _real_main_thread()
    return threading.current_thread() if s.cur.tid == s.main_tid else _elsewhere


def install() -> None:
    threading.main_thread = _main_thread  # type: ignore
    threading.Lock = Lock  # type: ignore
    threading.RLock = RLock  # type: ignore
    threading._allocate_lock = Lock  # type: ignore
    threading._start_new_thread = start_new_thread  # type: ignore
    queue.SimpleQueue = SimpleQueue  # type: ignore
    for n in ("time", "monotonic", "perf_counter"):
        setattr(time, n, _clock(n, None))
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(time, n, _clock(n, 10**9))
    time.sleep = _sleep
    threading._time = time.monotonic  # type: ignore
    queue.time = time.monotonic  # type: ignore
    from .loop import SimPolicy

    asyncio.set_event_loop_policy(SimPolicy())
