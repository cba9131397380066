"""C06: async disposables and composites."""

from __future__ import annotations

import asyncio
import contextvars
from random import Random
from typing import Any

from sim.core import Injected, Violation
from sim.loop import run_loop
from sim.threads import Sim

from .aio import after, delay, wait_for_spec, wait_spec

ID = "C06"
TITLE = "async disposables"
QUICK = 150000
THOROUGH = 2000000
BATCH = 100
FAULTS = ("lib", "effect")
RULE = ("Trees of composites over 1-5 async disposables whose actions suspend, fail or are cancelled at random points; several disposer tasks "
        "(dispose_async, async with, retry after failure) on leaves and composites, cancelled at random instants.")
PROBES = ["concurrent", "retry", "disposer-cancelled", "action-failed", "enter-refused", "composite-ok", "composite-error", "shared-leaf"]

_call: contextvars.ContextVar = contextvars.ContextVar("call", default=())


def generate(rng: Random, tier: str) -> dict:
    many = rng.random() < 0.02
    nl = rng.choice([12, 40, 70]) if many else rng.randint(1, 5)
    leaves = []
    for _ in range(nl):
        leaves.append({
            "steps": [wait_spec(rng) for _ in range(rng.choice([0, 1, 1, 2]))],
            "fail": rng.choice([None, None, None, "E", "early"]),
        })

    def tree(depth: int) -> Any:
        if depth >= 3 or rng.random() < 0.6:
            return rng.randrange(nl)
        return [tree(depth + 1) for _ in range(rng.randint(0, 4))]

    comps = [[tree(1) for _ in range(rng.randint(0, 5))] for _ in range(rng.choice([1, 1, 2]))]
    if many or rng.random() < 0.4:
        comps[0] = list(range(nl))
    disposers = []
    for _ in range(rng.randint(1, 4)):
        tgt: Any = ["c", rng.randrange(len(comps))] if rng.random() < 0.7 else ["l", rng.randrange(nl)]
        disposers.append({
            "start": wait_spec(rng),
            "target": tgt,
            "mode": rng.choice(["dispose", "dispose", "dispose", "with", "withraise"]),
            "hold": wait_spec(rng),
            "retries": rng.choice([0, 0, 1, 3]),
            "cancel": wait_spec(rng) if rng.random() < 0.35 else None,
        })
    return {"leaves": leaves, "comps": comps, "disposers": disposers}


def SHRINK(path: tuple) -> bool:
    return path == ("disposers",) or path[0] == "comps" and len(path) > 1 or path[-1] == "steps"


def execute(case: dict) -> None:
    from expression.system import AsyncDisposable, ObjectDisposedException

    sim = Sim(None)
    log = sim.log
    leaves = case["leaves"]
    nl = len(leaves)
    bad: list[Violation] = []
    starts: list[int] = [0] * nl
    first_start = [1 << 60] * nl
    first_ret = [1 << 60] * nl  # earliest return of a direct dispose/with of the leaf (or completion of a composite call covering it)
    started_in: dict[int, list] = {}  # call id -> leaves started
    done_in: dict[int, list] = {}
    exc_in: dict[int, Any] = {}
    objs: list[Any] = []
    comps: list[Any] = []
    active = [0]

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def make_leaf(i: int) -> Any:
        spec = leaves[i]

        async def action() -> None:
            starts[i] += 1
            st = log("start", i)
            first_start[i] = min(first_start[i], st)
            call = _call.get()
            if starts[i] > 1:
                flag("action-twice", f"the action of {i} was started {starts[i]} times")
                return
            cid = call if call else -1
            if cid != -1:
                if started_in[cid] and started_in[cid][-1] not in done_in[cid]:
                    flag("not-sequential", f"action {i} was started while {started_in[cid][-1]} of the same disposal was not done")
                started_in[cid].append(i)
            try:
                if spec["fail"] == "early":
                    sim.fault("action fails")
                    sim.probe("action-failed")
                    raise Injected(i)
                for w in spec["steps"]:
                    await wait_for_spec(w)
                if spec["fail"]:
                    sim.fault("action fails")
                    sim.probe("action-failed")
                    raise Injected(i)
            except BaseException as e:
                if cid != -1:
                    exc_in[cid] = e
                log("aborted", i, type(e).__name__)
                raise
            log("done", i)
            if cid != -1:
                done_in[cid].append(i)

        return AsyncDisposable.create(action)

    def build(t: Any) -> Any:
        if isinstance(t, int):
            return objs[t % nl]
        return AsyncDisposable.composite(*[build(x) for x in t]) if t or sim.seq % 2 else AsyncDisposable.empty()

    def flat(t: Any) -> list[int]:
        if isinstance(t, int):
            return [t % nl]
        return [y for x in t for y in flat(x)]

    ncalls = [0]

    def new_call(order: list[int]) -> int:
        ncalls[0] += 1
        c = ncalls[0]
        started_in[c] = []
        done_in[c] = []
        _call.set(c)
        return c

    def after_call(c: int, order: list[int], before: list[int], exc: Any) -> None:
        """Checks when a disposal ended: before = start stamps of the leaves when it began."""
        st = started_in[c]
        pos = [order.index(x) for x in st]
        if pos != sorted(pos):
            flag("order", f"one disposal started actions {st}, member order is {order}")
        if exc is None:
            sim.probe("composite-ok")
            for x in order:
                if not starts[x]:
                    flag("skipped", f"a disposal of {order} succeeded but member {x} was never disposed")
                first_ret[x] = min(first_ret[x], log("disposed", x))
        else:
            sim.probe("composite-error")
            if isinstance(exc, Injected):
                if exc_in.get(c) is not exc:
                    flag("wrong-exception", f"a disposal raised {exc!r}, which none of the actions it ran raised")
            for x in st[:-1]:
                if x not in done_in[c]:
                    flag("continued-after-error", f"a disposal went on after member {x} failed")
        # members before a started one must all have been started by then
        for x in st:
            for y in order[:order.index(x)]:
                if first_start[y] > first_start[x]:
                    flag("order", f"member {x} was started before the earlier member {y}")
        if exc_in.get(c) is not None and exc is None:
            flag("swallowed", f"the error of an action was swallowed by the disposal")

    async def disposer(d: dict) -> None:
        await wait_for_spec(d["start"])
        kind, i = d["target"]
        if kind == "c":
            i %= len(comps)
            obj, order = comps[i], flat(case["comps"][i])
        else:
            i %= nl
            obj, order = objs[i], [i]
        tries = 0
        while True:
            c = new_call(order)
            tries += 1
            if tries > 1:
                sim.probe("retry")
            before = list(first_start)
            if active[0]:
                sim.probe("concurrent")
            active[0] += 1
            exc: Any = None
            boom = Injected(("body", i))
            refused = entered = False
            try:
                if d["mode"] == "dispose":
                    await obj.dispose_async()
                else:
                    inv = log("enter?", d["target"])
                    try:
                        async with obj as w:
                            entered = True
                            if w is not obj:
                                flag("enter-value", f"entering {d['target']} gave {w!r}, not the disposable")
                            if kind == "l" and first_ret[i] < inv:
                                flag("enter-after-dispose", f"entering {i} after its disposal did not raise")
                            await wait_for_spec(d["hold"])
                            if d["mode"] == "withraise":
                                sim.fault("with-body raises")
                                raise boom
                        if d["mode"] == "withraise":
                            flag("swallowed", "async with swallowed the body's exception")
                    except ObjectDisposedException as e:
                        if entered or isinstance(e, Injected):
                            raise
                        refused = True
                        sim.probe("enter-refused")
                        if not any(starts[x] for x in order):
                            flag("enter-raised", f"entering {d['target']} raised although nothing was disposed")
            except Injected as e:
                exc = e
            except asyncio.CancelledError as e:
                exc = e
            finally:
                active[0] -= 1
            if exc is boom:
                exc = None
            if entered and order and not starts[order[0]]:
                flag("left-undisposed", f"async with over {d['target']} was left by {type(exc).__name__} and disposed nothing")
            if not refused:
                after_call(c, order, before, exc)
            log("result", d["target"], "refused" if refused else type(exc).__name__)
            if isinstance(exc, asyncio.CancelledError):
                sim.probe("disposer-cancelled")
                if tries > d["retries"]:
                    raise exc
            if exc is None or tries > d["retries"]:
                return

    async def main(loop: Any) -> None:
        for i in range(nl):
            objs.append(make_leaf(i))
        for t in case["comps"]:
            comps.append(AsyncDisposable.composite(*[build(x) for x in t]))
            f = flat(t)
            if len(set(f)) < len(f):
                sim.probe("shared-leaf")
        ts = []
        for d in case["disposers"]:
            t = asyncio.ensure_future(disposer(d))
            ts.append(t)
            if d["cancel"] is not None:
                def do_cancel(t: Any = t) -> None:
                    if not t.done():
                        sim.fault("disposer cancelled")
                        t.cancel()

                after(loop, d["cancel"], do_cancel)
        await loop.quiesce()
        for t in ts:
            if not t.done():
                flag("stuck", "a disposal never ended")
            elif not t.cancelled():
                t.result()
        # faults are over: one clean retry must finish every composite
        for k in range(len(comps)):
            order = flat(case["comps"][k])
            for _ in range(nl + 1):
                c = new_call(order)
                exc: Any = None
                try:
                    await comps[k].dispose_async()
                except Injected as e:
                    exc = e
                after_call(c, order, list(first_start), exc)
                if exc is None:
                    break
            else:
                flag("never-disposed", f"composite {k} could not be disposed in {nl + 1} attempts")
        _call.set(())
        for i in range(nl):
            try:
                await objs[i].dispose_async()
            except Injected:
                pass
            if starts[i] != 1:
                flag("action-count", f"the action of {i} was started {starts[i]} times")
            try:
                async with objs[i]:
                    flag("enter-after-dispose", f"entering {i} after its disposal did not raise")
            except ObjectDisposedException:
                pass

    sim.run(lambda: run_loop(sim, main))
    sim.nontrivial = len(case["disposers"]) > 1
    if bad:
        raise bad[0]
