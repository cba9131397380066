"""Helpers for properties that run on the simulated event loop."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.loop import SimLoop, run_loop
from sim.threads import Sim

LONG = [0.02, 0.3, 1.5, 12, 70, 4000, 100000]
GRID = [0, 0, 0.001, 0.001, 0.002, 0.003, 0.005]


def delay(rng: Random) -> float:
    """Latencies on a coarse grid, so that coincidences are common."""
    return rng.choice(GRID) if rng.random() < 0.97 else rng.choice(LONG)


def wait_spec(rng: Random) -> Any:
    """How long until something happens: ["t", seconds] or ["k", loop ticks]."""
    return ["k", rng.randrange(0, 7)] if rng.random() < 0.5 else ["t", delay(rng)]


async def wait_for_spec(spec: Any) -> None:
    if spec[0] == "k":
        for _ in range(spec[1]):
            await asyncio.sleep(0)
    else:
        await asyncio.sleep(spec[1])


def after(loop: SimLoop, spec: Any, fn: Any) -> None:
    """Call fn on the loop after spec."""
    if spec[0] == "t":
        loop.call_later(spec[1], fn)
        return

    def tick(n: int) -> None:
        if n <= 0:
            fn()
        else:
            loop.call_soon(tick, n - 1)

    loop.call_soon(tick, spec[1])


class Msg:
    """A unique message."""

    def __init__(self, n: Any) -> None:
        self.n = n

    def __repr__(self) -> str:
        return f"M{self.n}"


class Odd(Msg):
    """A unique message that is falsy, empty and equal to everything."""

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0

    def __eq__(self, o: Any) -> bool:
        return True

    def __hash__(self) -> int:
        return 7


class Falsy(Msg):
    """A unique message that is falsy and empty (compared by identity)."""

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0


class OddFn:
    """A callable that is falsy, empty and equal to every other one of its kind."""

    __slots__ = ("fn",)

    def __init__(self, fn: Any) -> None:
        self.fn = fn

    def __call__(self, *args: Any, **kw: Any) -> Any:
        return self.fn(*args, **kw)

    def __bool__(self) -> bool:
        return False

    def __len__(self) -> int:
        return 0

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, OddFn)

    def __hash__(self) -> int:
        return 7


def odd(fn: Any, n: Any) -> Any:
    """Every third function is an odd one."""
    return OddFn(fn) if isinstance(n, int) and n % 3 == 1 else fn


class Awaits(Msg):
    """A message that could be awaited, but that nobody asked to await."""

    def __await__(self) -> Any:
        yield from ()
        return "awaited"


class Fut(asyncio.Future):
    """A future as a plain value."""

    def __repr__(self) -> str:
        return "<future>"

    __str__ = __repr__


SPECIAL: dict[str, Any] = {
    "none": None, "false": False, "zero": 0, "empty": "", "tuple": (), "nan": float("nan"), "exc": ValueError("x"), "type": type,
    "ni": NotImplemented, "ell": ..., "true": True, "list": [], "dict": {}, "stop": StopIteration(1), "cancelled": asyncio.CancelledError(),
    "key": KeyError, "bytes": b"", "neg": -1, "big": 1 << 70, "float": 0.0, "text": "x",
    "aw": Awaits("aw"), "fut": None, "done": None,
}


def value(kind: str, n: Any) -> Any:
    if kind == "msg":
        return Msg(n)
    if kind == "odd":
        return Odd(n)
    if kind in ("fut", "done"):
        try:
            f: Any = Fut(loop=asyncio.get_running_loop())
        except RuntimeError:
            return Awaits(n)
        if kind == "done":
            f.set_result("inner")
        return f
    return SPECIAL[kind]
