"""Shared basics of the simulator: outcomes, decision policies, real (unpatched) primitives."""

from __future__ import annotations

import os
import _thread
import asyncio
import queue
import zlib
from typing import Any
import time as _time
import reprlib
from random import Random

real_lock = _thread.allocate_lock
real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind: str, msg: str = "") -> None:
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The harness itself is wrong. Never reported as a violation."""


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is given up (deadlock, step cap)."""


class Injected(Exception):
    """An injected fault (ordinary exception). Its tag decides which: some also are a ValueError, a KeyError, a TimeoutError..."""

    FLAVOURS: list[type] = []

    def __new__(cls, tag: object = None) -> "Injected":
        if cls is Injected and Injected.FLAVOURS:
            cls = Injected.FLAVOURS[zlib.crc32(repr((tag, SALT)).encode()) % len(Injected.FLAVOURS)]
        return super().__new__(cls, tag)

    def __init__(self, tag: object = None) -> None:
        BaseException.__init__(self, tag)
        self.tag = tag
        chain(self, tag)


SALT = 0
_made: dict[tuple, type] = {}


def flavour(base: type, t: type) -> type:
    if (base, t) not in _made:
        _made[base, t] = type("Injected" + t.__name__, (base, t), {})
    return _made[base, t]


PLAIN: list[type] = [Injected] * 3 + [
    flavour(Injected, t)
    for t in (ValueError, TypeError, KeyError, IndexError, AttributeError, RuntimeError, ZeroDivisionError, TimeoutError, NotImplementedError, AssertionError, OSError, EOFError, RecursionError, OverflowError, UnicodeError, ConnectionError, BufferError, UserWarning, queue.Empty, asyncio.InvalidStateError)
]


class InjectedBase(BaseException):
    """An injected fault deriving from BaseException only."""

    FLAVOURS: list[type] = []

    def __new__(cls, tag: object = None) -> "InjectedBase":
        if cls is InjectedBase and InjectedBase.FLAVOURS:
            cls = InjectedBase.FLAVOURS[zlib.crc32(repr((tag, SALT)).encode()) % len(InjectedBase.FLAVOURS)]
        return super().__new__(cls, tag)

    def __init__(self, tag: object = None) -> None:
        BaseException.__init__(self, tag)
        self.tag = tag
        chain(self, tag)


Injected.FLAVOURS = PLAIN


def set_faults(salt: int, mod: Any) -> None:
    """Which kinds of exception the faults of a run are: FAULTS in a property's module names further ones that its harness can tell apart."""
    global SALT
    SALT = salt
    kinds = getattr(mod, "FAULTS", ())
    more: list[type] = []
    if "lib" in kinds:
        from expression.system import ObjectDisposedException, OperationCanceledError

        more += [ObjectDisposedException, OperationCanceledError]
    if "effect" in kinds:
        from expression.core.error import EffectError

        more += [EffectError]
    if "stop" in kinds:
        more += [StopIteration, StopAsyncIteration]
    Injected.FLAVOURS = PLAIN + [flavour(Injected, t) for t in more]
    InjectedBase.FLAVOURS = [InjectedBase] * 2 + [flavour(InjectedBase, t) for t in (KeyboardInterrupt, SystemExit, GeneratorExit, asyncio.CancelledError)] if "base" in kinds else [InjectedBase]


def chain(e: BaseException, tag: object) -> None:
    """Some faults were raised from another exception; what counts is the one raised."""
    h = zlib.crc32(repr((tag, "cause")).encode()) % 4
    if h == 0:
        e.__cause__ = ValueError("cause")
    elif h == 1:
        e.__context__ = KeyError("context")


BIG = 1 << 60
GC = -1


class Policy:
    """Decides preemptions. Decisions are keyed by (thread, thread-local step)."""

    gc = False

    def next_step(self, tid: int, lstep: int) -> int:
        return BIG

    def preempt(self, tid: int, lstep: int, others: list[int]) -> int | None:
        """Called when lstep reached next_step. Returns a target thread id, GC or None."""
        return None

    def at_point(self, tid: int, lstep: int, others: list[int]) -> int | None:
        return None

    def choose(self, tid: int, lstep: int, runnable: list[int]) -> int:
        """The running thread cannot go on: who is next?"""
        for r in runnable:
            if r > tid:
                return r
        return runnable[0]


class WalkPolicy(Policy):
    """Random walk: preempt each instruction with probability p, each explicit point with q."""

    def __init__(self, seed: int, p: float, q: float, g: float = 0.0) -> None:
        self.rng = Random(seed)
        self.p = p
        self.q = q
        self.g = g

    def next_step(self, tid: int, lstep: int) -> int:
        p = self.p
        if p <= 0:
            return BIG
        return lstep + 1 + int(self.rng.expovariate(p))

    def preempt(self, tid: int, lstep: int, others: list[int]) -> int | None:
        if self.g and self.rng.random() < self.g:
            return GC
        if not others:
            return None
        return self.rng.choice(others)

    def at_point(self, tid: int, lstep: int, others: list[int]) -> int | None:
        if not others or self.rng.random() >= self.q:
            return None
        return self.rng.choice(others)

    def choose(self, tid: int, lstep: int, runnable: list[int]) -> int:
        return self.rng.choice(runnable)


class FewPolicy(Policy):
    """PCT-like: k preemptions at uniformly chosen depths; random successor."""

    def __init__(self, seed: int, k: int, depth: int, nthreads: int, g: float = 0.0) -> None:
        self.rng = Random(seed)
        self.g = g
        self.at: dict[int, list[int]] = {}
        for _ in range(k):
            self.at.setdefault(self.rng.randrange(nthreads), []).append(self.rng.randrange(1, depth + 1))
        for v in self.at.values():
            v.sort()

    def next_step(self, tid: int, lstep: int) -> int:
        for s in self.at.get(tid, ()):
            if s > lstep:
                return s
        return BIG

    def preempt(self, tid: int, lstep: int, others: list[int]) -> int | None:
        if self.g and self.rng.random() < self.g:
            return GC
        if not others:
            return None
        return self.rng.choice(others)

    def choose(self, tid: int, lstep: int, runnable: list[int]) -> int:
        return self.rng.choice(runnable)


class ListPolicy(Policy):
    """Replay of an explicit list of [tid, lstep, kind, target]."""

    def __init__(self, entries: list) -> None:
        self.p: dict[int, dict[int, int]] = {}
        self.b: dict[tuple[int, int], int] = {}
        for tid, lstep, kind, target in entries:
            if kind == "b":
                self.b[(tid, lstep)] = target
            else:
                self.p.setdefault(tid, {})[lstep] = target

        self.keys = {tid: sorted(d) for tid, d in self.p.items()}

    def next_step(self, tid: int, lstep: int) -> int:
        for s in self.keys.get(tid, ()):
            if s > lstep:
                return s
        return BIG

    def preempt(self, tid: int, lstep: int, others: list[int]) -> int | None:
        t = self.p.get(tid, {}).get(lstep)
        if t is None or t == GC or t in others:
            return t
        return None

    def at_point(self, tid: int, lstep: int, others: list[int]) -> int | None:
        return None  # point decisions are in the same table, reached through next_step

    def choose(self, tid: int, lstep: int, runnable: list[int]) -> int:
        t = self.b.get((tid, lstep))
        if t is not None and t in runnable:
            return t
        return Policy.choose(self, tid, lstep, runnable)


def make_policy(spec: dict | None, nthreads: int = 8) -> Policy:
    if not spec:
        return Policy()
    mode = spec["mode"]
    if mode == "walk":
        return WalkPolicy(spec["seed"], spec["p"], spec.get("q", 0.3), spec.get("g", 0.0))
    if mode == "few":
        return FewPolicy(spec["seed"], spec["k"], spec["depth"], spec.get("n", nthreads), spec.get("g", 0.0))
    if mode == "list":
        return ListPolicy(spec["pre"])
    return Policy()


_short = reprlib.Repr()
_short.maxlevel, _short.maxtuple, _short.maxother, _short.maxstring = 5, 8, 200, 100


def short(x: Any) -> str:
    """A bounded repr: shared nesting can make the whole one astronomically long."""
    return _short.repr(x)


def same_tree(a: Any, b: Any, leaf: Any, seen: Any = None) -> bool:
    """Are two nested tuples the same, with `leaf` deciding on anything else? Copes with deep and with much shared nesting.

    Several comparisons may share `seen`, as long as everything compared stays alive and the first difference ends them."""
    todo = [(a, b)]
    if seen is None:
        seen = set()
    while todo:
        a, b = todo.pop()
        if a is b:
            continue
        if type(a) is tuple and type(b) is tuple:
            if len(a) != len(b):
                return False
            if (id(a), id(b)) not in seen:
                seen.add((id(a), id(b)))
                todo.extend(zip(a, b))
        elif not leaf(a, b):
            return False
    return True


def size(rng: Random, small: list, p: float = 0.02, large: tuple = (12, 20, 40, 130)) -> int:
    """Mostly a small size, now and then a larger one."""
    return rng.choice(large) if rng.random() < p else rng.choice(small)


def focused(rng: Random, gen: Any, p: float = 0.4, always: tuple = (), sources: bool = True) -> Any:
    """Swarm testing: in a share of the cases only one to three kinds of operation, on one or two values."""
    if rng.random() >= p:
        return gen
    want = {gen()["op"] for _ in range(rng.choice([1, 1, 2, 3]))} | set(always)
    src = [rng.choice([0, 0, 0, 1, -1, rng.randrange(64)]) for _ in range(rng.choice([1, 2]))]
    keep = rng.choice([0.5, 0.9])

    def g() -> dict:
        o: dict = {}
        for _ in range(300):
            o = gen()
            if o["op"] in want:
                break
        if sources and "s" in o and rng.random() < keep:
            o["s"] = rng.choice(src)
        if sources and "s2" in o and rng.random() < keep:
            o["s2"] = rng.choice(src)
        return o

    return g


def gen_sched(rng: Random, nthreads: int, depth: int = 400, gc: bool = False) -> dict:
    """A random schedule policy (swarm style: the rate itself is varied)."""
    g = rng.choice([0.0, 0.05, 0.3]) if gc else 0.0
    r = rng.random()
    seed = rng.randrange(1 << 30)
    if r < 0.55:
        p = rng.choice([0.3, 0.15, 0.08, 0.04, 0.02, 0.01, 0.004])
        return {"mode": "walk", "seed": seed, "p": p, "q": rng.choice([0.1, 0.3, 0.6]), "g": g}
    if r < 0.95:
        return {
            "mode": "few",
            "seed": seed,
            "k": rng.choice([1, 1, 2, 2, 3, 4, 6]),
            "depth": rng.choice([depth // 8 + 1, depth // 3 + 1, depth]),
            "n": max(1, nthreads),
            "g": g,
        }
    return {"mode": "few", "seed": seed, "k": 0, "depth": 1, "n": 1, "g": 0.0}


_known: dict[str, list[str]] = {}


def known(pid: str, what: str) -> bool:
    """Is this specific failure (its text starts with `what`) listed as a finding in known_findings.txt?"""
    if pid not in _known:
        out: list[str] = []
        try:
            with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")) as f:
                for line in f:
                    head = f"finding: property={pid} "
                    if line.startswith(head):
                        out.append(line[len(head):].strip())
        except FileNotFoundError:
            pass
        _known[pid] = out
    return any(k.startswith(what) for k in _known[pid])
