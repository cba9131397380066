"""C13: tailrec and tailrec_async against the plain loop."""

from __future__ import annotations

import asyncio
import contextvars
import sys
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, SimAbort, Violation, gen_sched
from sim.loop import run_loop
from sim.threads import Sim

from .aio import SPECIAL, Msg, Odd, after, wait_for_spec, wait_spec

ID = "C13"
TITLE = "tail recursion"
QUICK = 70000
THOROUGH = 2000000
BATCH = 80
FAULTS = ("lib", "effect")
RULE = ("Threads and tasks call the same decorated functions at once; every step returns a TailCall with random positional and keyword arguments, a value, or fails; "
        "steps call other decorated functions; random preemption schedule, latencies and cancellation instants; some runs are thousands of steps deep.")
PROBES = ["kwargs", "reused-tailcall", "nested", "same-fn-concurrent", "raised", "cancelled-in-step", "deep", "awaitable-result", "async", "sync", "direct-return", "empty-tailcall"]

CX: contextvars.ContextVar = contextvars.ContextVar("cx")
VALS = ["msg", "msg", "odd", *SPECIAL, "some", "nothing"]
KEYS = ["k", "x", "args", "kw", "fn", "bouncer", "cx", "value", "state", "result"]


def gen_plan(rng: Random, a: bool, depth: int, fns: list) -> dict:
    steps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        s: dict = {"args": [rng.choice(VALS) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
                   "kw": {k: rng.choice(VALS) for k in rng.sample(KEYS, rng.choice([0, 0, 1, 2]))},
                   "wait": wait_spec(rng) if rng.random() < 0.4 else None, "reuse": rng.random() < 0.15, "subs": [], "sub": rng.random() < 0.1}
        if depth < 2 and rng.random() < 0.2:
            j = rng.randrange(len(fns))
            if a or not fns[j]:
                s["subs"].append([j, gen_plan(rng, fns[j], depth + 1, fns)])
        steps.append(s)
    end = rng.choice(["value"] * 5 + ["E", "B", "S"])
    return {"amb": rng.random() < 0.6, "steps": steps, "end": end, "value": rng.choice(VALS), "a0": [rng.choice(VALS) for _ in range(rng.choice([0, 1, 2]))],
            "k0": {k: rng.choice(VALS) for k in rng.sample(KEYS, rng.choice([0, 0, 1, 2]))}, "ewait": wait_spec(rng) if rng.random() < 0.3 else None}


def generate(rng: Random, tier: str) -> dict:
    fns = [rng.random() < 0.5 for _ in range(rng.choice([1, 1, 2, 3]))]
    calls = []
    nt = 0
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        j = rng.randrange(len(fns))
        c: dict = {"fn": j, "plan": gen_plan(rng, fns[j], 0, fns), "start": wait_spec(rng)}
        if fns[j]:
            c["cancel"] = wait_spec(rng) if rng.random() < 0.25 else None
        elif rng.random() < 0.8:
            nt += 1
            c["thread"] = True
        if rng.random() < 0.002:
            c["plan"]["steps"] = [{"args": ["msg"], "kw": {"k": "msg"}, "wait": None, "reuse": False, "subs": []}]
            c["plan"]["deep"] = rng.choice([500, 1500, 3000]) if rng.random() < 0.93 else 120_000
        calls.append(c)
    return {"fns": fns, "calls": calls, "sched": gen_sched(rng, nt + 1, 200)}


def SHRINK(path: tuple) -> bool:
    return path[-1] in ("calls", "steps", "args", "subs")


class Cx:
    def __init__(self, plan: dict, who: str) -> None:
        self.plan, self.who = plan, who
        self.n = 0
        self.expect: Any = None
        self.problem: Any = None
        self.base: int | None = None
        self.cache: dict = {}
        self.ended = False
        self.exc: Any = None
        self.result: Any = None
        self.cancelled = False
        self.total = plan.get("deep", len(plan["steps"]))


def depth_of(f: Any) -> int:
    n = 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


def execute(case: dict) -> None:
    from expression import Nothing, Some, TailCall, tailrec, tailrec_async

    nt = sum(1 for c in case["calls"] if c.get("thread"))
    deepest = sum(c["plan"].get("deep", 0) for c in case["calls"])
    sim = Sim(case.get("sched"), nthreads=nt + 1, max_steps=3_000_000 + 200 * deepest)
    log = sim.log
    class Marked(TailCall):
        """A TailCall that carries a note of the application's own."""

        note = "again"

    F: list = []
    active: dict[int, int] = {}

    def value(kind: str) -> Any:
        if kind == "msg":
            return Msg(0)
        if kind == "odd":
            return Odd(0)
        if kind == "some":
            return Some(1)
        if kind == "nothing":
            return Nothing
        return SPECIAL[kind]

    def enter(cx: Cx, args: tuple, kw: dict, depth: int) -> Any:
        """One step has been called. Returns the step, or None for the last one."""
        n = cx.n
        cx.n += 1
        if not cx.plan.get("amb"):
            if not args or args[0] is not cx:
                cx.problem = cx.problem or ("arguments", f"step {n} got {args!r} {kw!r}")
            args = args[1:]
        if n < 50:
            log("step", cx.who, n)
        if cx.ended:
            cx.problem = cx.problem or ("after-end", "a step ran after the last one")
        ea, ek = cx.expect
        if len(ea) != len(args) or any(a is not b for a, b in zip(ea, args)) or set(ek) != set(kw) or any(kw[k] is not ek[k] for k in ek):
            cx.problem = cx.problem or ("arguments", f"step {n} got {args!r} {kw!r} instead of {ea!r} {ek!r}")
        if cx.base is None:
            cx.base = depth
        elif depth > cx.base + 12:
            cx.problem = cx.problem or ("depth", f"step {n} ran {depth - cx.base} frames deeper than step 0")
        if n > cx.total:
            cx.problem = cx.problem or ("extra", f"step {n} ran")
            raise Injected("stop")
        if n == cx.total:
            return None
        steps = cx.plan["steps"]
        return steps[n % len(steps)]

    def leave(cx: Cx, s: dict | None) -> Any:
        if s is None:
            cx.ended = True
            p = cx.plan
            if p["end"] == "value" or p["end"] == "S" and cx.a:
                cx.result = value(p["value"])
                if p["value"] in ("some", "nothing"):
                    sim.probe("awaitable-result")
                if not cx.total:
                    sim.probe("direct-return")
                return cx.result
            sim.fault("step raises")
            cx.exc = {"E": Injected, "B": InjectedBase, "S": StopIteration}[p["end"]](("end", cx.total, p["value"]))
            raise cx.exc
        key = "last"
        if s["reuse"] and key in cx.cache:
            sim.probe("reused-tailcall")
            tc, cx.expect = cx.cache[key]
            return tc
        a = tuple(value(v) for v in s["args"])
        k = {x: value(v) for x, v in s["kw"].items()}
        if k:
            sim.probe("kwargs")
        cx.expect = (a, k)
        if not a and not k:
            sim.probe("empty-tailcall")
        tc = (Marked if s.get("sub") else TailCall)(*first(cx), *a, **k)
        cx.cache[key] = (tc, cx.expect)
        return tc

    def first(cx: Cx) -> tuple:
        """What identifies the call among the arguments; most calls have nothing of the kind."""
        return () if cx.plan.get("amb") else (cx,)

    def begin(j: int, plan: dict, who: str) -> tuple:
        cx = Cx(plan, who)
        cx.a = case["fns"][j]
        a = tuple(value(v) for v in plan["a0"])
        k = {x: value(v) for x, v in plan["k0"].items()}
        cx.expect = (a, k)
        if plan.get("deep"):
            sim.probe("deep")
        if active.get(j):
            sim.probe("same-fn-concurrent")
        active[j] = active.get(j, 0) + 1
        return cx, a, k

    def settle(cx: Cx, j: int, got: tuple) -> None:
        active[j] -= 1
        log("end", cx.who, got[0])
        if cx.problem is None:
            if cx.cancelled:
                if got[0] != "cancelled":
                    cx.problem = ("cancel", f"ended with {got!r} although cancelled in a step")
                sim.probe("cancelled-in-step")
            elif cx.exc is not None:
                sim.probe("raised")
                if got[0] != "exc" or got[1] is not cx.exc:
                    cx.problem = ("exception", f"ended with {got!r} instead of {cx.exc!r}")
            elif not cx.ended:
                cx.problem = ("early", f"ended with {got!r} after {cx.n} steps")
            elif got[0] != "value" or got[1] is not cx.result:
                cx.problem = ("result", f"ended with {got!r} instead of {cx.result!r}")
        if cx.problem and not bad:
            bad.append(Violation(cx.problem[0], f"call {cx.who}: {cx.problem[1]}"))

    bad: list[Violation] = []

    def run_sync(j: int, plan: dict, who: str) -> None:
        cx, a, k = begin(j, plan, who)
        try:
            tok = CX.set(cx)
            try:
                got = ("value", F[j](*first(cx), *a, **k))
            finally:
                CX.reset(tok)
        except SimAbort:
            raise
        except BaseException as e:
            got = ("exc", e)
        sim.probe("sync")
        settle(cx, j, got)

    async def run_async(j: int, plan: dict, who: str, hold: list | None = None) -> None:
        cx, a, k = begin(j, plan, who)
        if hold is not None:
            hold.append(cx)
        try:
            tok = CX.set(cx)
            try:
                got = ("value", await F[j](*first(cx), *a, **k))
            finally:
                CX.reset(tok)
        except SimAbort:
            raise
        except asyncio.CancelledError:
            got = ("cancelled", None)
        except BaseException as e:
            got = ("exc", e)
        sim.probe("async")
        settle(cx, j, got)
        if got[0] == "cancelled":
            raise asyncio.CancelledError

    def make(j: int) -> Any:
        if case["fns"][j]:
            async def astep(*args: Any, **kw: Any) -> Any:
                cx = CX.get()
                s = enter(cx, args, kw, depth_of(sys._getframe()))
                try:
                    w = cx.plan["ewait"] if s is None else s["wait"]
                    if w is not None:
                        await wait_for_spec(w)
                    for m, (i, p) in enumerate(s["subs"] if s else ()):
                        sim.probe("nested")
                        if case["fns"][i]:
                            await run_async(i, p, f"{cx.who}.{m}")
                        else:
                            run_sync(i, p, f"{cx.who}.{m}")
                except asyncio.CancelledError:
                    cx.cancelled = True
                    raise
                return leave(cx, s)

            return tailrec_async(astep)

        def step(*args: Any, **kw: Any) -> Any:
            cx = CX.get()
            s = enter(cx, args, kw, depth_of(sys._getframe()))
            if (cx.plan["ewait"] if s is None else s["wait"]) is not None:
                sim.point()
            for m, (i, p) in enumerate(s["subs"] if s else ()):
                sim.probe("nested")
                run_sync(i, p, f"{cx.who}.{m}")
            return leave(cx, s)

        return tailrec(step)

    for j in range(len(case["fns"])):
        F.append(make(j))

    async def main(loop: Any) -> None:
        ts = []
        for n, c in enumerate(case["calls"]):
            j = c["fn"]
            if c.get("thread"):
                sim.spawn(lambda n=n, c=c, j=j: run_sync(j, c["plan"], str(n)))
                continue

            async def go(n: int = n, c: dict = c, j: int = j) -> None:
                await wait_for_spec(c["start"])
                if case["fns"][j]:
                    await run_async(j, c["plan"], str(n))
                else:
                    run_sync(j, c["plan"], str(n))

            t = asyncio.ensure_future(go())
            ts.append(t)
            if c.get("cancel") is not None:
                def do_cancel(t: Any = t) -> None:
                    if not t.done():
                        sim.fault("call cancelled")
                        t.cancel()

                after(loop, c["cancel"], do_cancel)
        await loop.quiesce()
        for t in ts:
            if not t.done():
                bad.append(Violation("stuck", "a call never ended"))
                t.cancel()
            elif not t.cancelled():
                t.result()
        await loop.quiesce()

    sim.run(lambda: run_loop(sim, main))
    sim.nontrivial = len(case["calls"]) > 1
    if bad:
        raise bad[0]
