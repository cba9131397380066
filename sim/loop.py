"""asyncio's own BaseEventLoop over a fake selector and the virtual clock."""

from __future__ import annotations

import asyncio
import math
from asyncio import base_events
from collections.abc import Awaitable, Callable
from typing import Any

from . import threads as T
from . import core
from .core import Violation


class _Selector:
    def __init__(self, loop: "SimLoop") -> None:
        self.loop = loop
        self.woken = False
        self.waiter: Any = None

    def wake(self) -> None:
        self.woken = True
        w = self.waiter
        s = T.ACTIVE
        if w is not None and s is not None:
            self.waiter = None
            s._wake(w)

    def select(self, timeout: float | None = None) -> list:
        s = T.ACTIVE
        assert s is not None
        if s.loops[0] is self.loop:
            s.loop_steps += 1
        self.loop.steps += 1
        if self.loop.steps > s.max_loop_steps:
            s._abort("livelock", f"event loop still busy after {s.max_loop_steps} iterations")
        s.point()
        if self.woken or (timeout is not None and timeout <= 0):
            self.woken = False
            return []
        self.waiter = s.cur
        # with a large clock value a tiny timeout may vanish in rounding
        s.block("event loop idle", None if timeout is None else max(s.now + timeout, math.nextafter(s.now, math.inf)))
        self.waiter = None
        self.woken = False
        return []

    def close(self) -> None:
        pass


class SimTask(asyncio.Task):
    """A task whose hash is a serial number, so that sets of tasks have an order that does not depend on addresses."""

    __slots__ = ("_serial",)

    def __init__(self, *args: Any, **kw: Any) -> None:
        s = T.ACTIVE
        self._serial = 0
        if s is not None:
            s.tasks += 1
            self._serial = s.tasks
        super().__init__(*args, **kw)

    def __hash__(self) -> int:
        return self._serial


class SimLoop(base_events.BaseEventLoop):
    def __init__(self) -> None:
        super().__init__()
        self._selector = _Selector(self)
        self.steps = 0
        self.set_task_factory(lambda loop, coro, **kw: SimTask(coro, loop=loop, **kw))
        s = T.ACTIVE
        if s is not None:
            s.loops.append(self)

    @property
    def _clock_resolution(self) -> float:  # type: ignore[override]
        # must not vanish when it is added to a large clock value
        return max(1e-9, 2 * math.ulp(self.time()))

    @_clock_resolution.setter
    def _clock_resolution(self, _: float) -> None:
        pass

    def time(self) -> float:
        s = T.ACTIVE
        return s.now if s is not None else 0.0

    def _process_events(self, event_list: list) -> None:
        pass

    def _write_to_self(self) -> None:
        self._selector.wake()

    def call_exception_handler(self, context: dict) -> None:
        s = T.ACTIVE
        if s is not None:
            s.unhandled.append({k: repr(v) for k, v in context.items() if k in ("message", "exception")})

    def default_exception_handler(self, context: dict) -> None:
        self.call_exception_handler(context)

    # -- harness side ----------------------------------------------------------
    async def quiesce(self) -> None:
        """Wait until nothing else can happen any more."""
        s = T.ACTIVE
        assert s is not None
        fut = self.create_future()

        def fire() -> None:
            if not fut.done():
                fut.set_result(None)
            self._selector.wake()

        s.idle.append(fire)
        await fut


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self) -> Any:
        if T.ACTIVE is not None:
            return SimLoop()
        return super().new_event_loop()


def run_loop(sim: "T.Sim", main: Callable[["SimLoop"], Awaitable[Any]]) -> Any:
    """Run an async main on a fresh SimLoop in the current simulated thread."""
    loop = SimLoop()
    # a loop may well run without being the thread's current one
    asyncio.set_event_loop(loop if core.SALT % 5 else None)
    try:
        return loop.run_until_complete(main(loop))
    finally:
        asyncio.set_event_loop(None)
        loop._ready.clear()
        loop._scheduled.clear()
        loop._closed = True
