"""C07: from_continuations settles once, with the first continuation called."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.core import Injected, Violation
from sim.loop import run_loop
from sim.threads import Sim

from .aio import SPECIAL, after, odd, value, wait_for_spec, wait_spec

ID = "C07"
TITLE = "from_continuations"
QUICK = 150000
THOROUGH = 3000000
BATCH = 100
RULE = ("1-4 awaitables made by from_continuations; each with scripted continuation calls (inside the callback and later, any kind, any order, "
        "any value), a waiter that waits at once, later or never, and waiter cancellations at random instants.")
PROBES = ["sync-call", "late-call", "extra-call", "waiter-cancelled", "call-after-cancel", "never-called", "call-before-wait", "callback-raised"]


def generate(rng: Random, tier: str) -> dict:
    def call(late: bool) -> list:
        k = rng.choice(["ok", "ok", "ok", "err", "cancel"])
        return [wait_spec(rng) if late else None, k, rng.choice(["msg", "odd", *SPECIAL]) if k == "ok" else rng.choice(list(EXC))]

    items = []
    many = rng.random() < 0.01
    for _ in range(rng.choice([20, 70]) if many else rng.randint(1, 4)):
        items.append({
            "sync": [call(False) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
            "late": [call(True) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
            "start": wait_spec(rng),
            "wait": rng.choice([["now"], ["now"], ["later", wait_spec(rng)], ["never"]]),
            "cancel": wait_spec(rng) if rng.random() < 0.3 else None,
            "raise": rng.choice(list(EXC)) if rng.random() < 0.06 else None,
        })
    return {"items": items}


def SHRINK(path: tuple) -> bool:
    return path == ("items",) or path[-1] in ("sync", "late")


EXC = {"RuntimeError": RuntimeError, "TypeError": TypeError, "LookupError": LookupError, "Injected": Injected, "ValueError": ValueError, "TimeoutError": TimeoutError, "OSError": OSError, "KeyError": KeyError}


def execute(case: dict) -> None:
    from expression.core import aiotools
    from expression.system import OperationCanceledError

    sim = Sim(None)
    log = sim.log
    items = case["items"]
    N = len(items)
    bad: list[Violation] = []
    first: list[Any] = [None] * N
    calls = [0] * N
    outcome: list[Any] = [None] * N
    cancelled_at: list[Any] = [None] * N

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def show(v: Any) -> str:
        return type(v).__name__ if isinstance(v, BaseException) else repr(v)

    def invoke(i: int, c: list, conts: Any, n: int) -> None:
        ok, err, can = conts
        if c[1] == "ok":
            v: Any = value(c[2], (i, n))
        elif c[1] == "err":
            v = EXC[c[2]]((i, n))
        else:
            v = OperationCanceledError("x")
        calls[i] += 1
        if cancelled_at[i] is not None:
            sim.fault("call after waiter cancelled")
            sim.probe("call-after-cancel")
        if first[i] is None:
            first[i] = (c[1], v, sim.now, sim.loop_steps)
        else:
            sim.fault("repeated continuation call")
            sim.probe("extra-call")
        log("call", i, c[1], show(v))
        try:
            {"ok": ok, "err": err, "cancel": can}[c[1]](v)
        except Exception as e:  # noqa: BLE001
            flag("continuation-raised", f"calling continuation {c[1]} of {i} raised {e!r}")

    async def item(loop: Any, i: int) -> None:
        it = items[i]
        await wait_for_spec(it["start"])

        def cb(ok: Any, err: Any, can: Any) -> None:
            conts = (ok, err, can)
            for n, c in enumerate(it["sync"]):
                sim.probe("sync-call")
                invoke(i, c, conts, n)
            for n, c in enumerate(it["late"]):
                sim.probe("late-call")
                after(loop, c[0], lambda c=c, n=n: invoke(i, c, conts, 10 + n))

            if it["raise"]:
                sim.probe("callback-raised")
                sim.fault("callback raises")
                raise own

        own = EXC[it["raise"]]((i, "own")) if it["raise"] else None
        try:
            aw = aiotools.from_continuations(odd(cb, i))
        except Exception as e:  # noqa: BLE001
            if e is not own:
                raise
            outcome[i] = ("unwatched",)
            return
        if own is not None:
            flag("callback-error-lost", f"the callback of {i} raised {own!r}, but from_continuations did not")
        w = it["wait"]
        if w[0] == "never":
            outcome[i] = ("unwatched",)
            keep.append(aw)
            return
        if w[0] == "later":
            await wait_for_spec(w[1])
        if calls[i]:
            sim.probe("call-before-wait")

        async def waiter() -> Any:
            return await aw

        t = asyncio.ensure_future(waiter())

        def do_cancel() -> None:
            if not t.done():
                sim.fault("waiter cancelled")
                sim.probe("waiter-cancelled")
                cancelled_at[i] = log("cancel", i)
                t.cancel()

        if it["cancel"] is not None:
            after(loop, it["cancel"], do_cancel)
        try:
            v = await t
            outcome[i] = ("ok", v, sim.now)
        except asyncio.CancelledError:
            outcome[i] = ("cancel", None, sim.now)
        except Exception as e:  # noqa: BLE001
            outcome[i] = ("err", e, sim.now)
        log("settled", i, outcome[i][0], show(outcome[i][1]))
        if first[i] is None and cancelled_at[i] is None:
            flag("settled-early", f"{i} completed with {outcome[i]} before any continuation was called")

    keep: list[Any] = []

    async def main(loop: Any) -> None:
        ts = [asyncio.ensure_future(item(loop, i)) for i in range(N)]
        await loop.quiesce()
        for i, t in enumerate(ts):
            if t.done():
                t.result()

    sim.run(lambda: run_loop(sim, main))
    sim.nontrivial = N > 1
    if bad:
        raise bad[0]
    for i in range(N):
        f, o = first[i], outcome[i]
        if o == ("unwatched",):
            continue
        if o is None:
            if f is not None or cancelled_at[i] is not None:
                raise Violation("never-settled", f"{i} still waits although continuation {f and f[0]} was called")
            sim.probe("never-called")
            continue
        if cancelled_at[i] is not None and o[0] == "cancel":
            continue
        assert f is not None
        same = o[0] == f[0] and (o[1] is f[1] or f[0] == "cancel")
        if not same:
            raise Violation("wrong-outcome", f"{i}: the first continuation called was {f[0]} {show(f[1])}, the outcome is {o[0]} {show(o[1])}")
