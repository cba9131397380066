"""C11: async effect blocks against the sequential meaning of their bodies."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, SimAbort, Violation, size
from sim.loop import run_loop
from sim.threads import Sim

from .aio import after, wait_for_spec, wait_spec
from .effects import OPT, Cx, Quiet, RefCx, Root, emit, gen_fns, load, outcome, ref_fns, same

ID = "C11"
TITLE = "async effects"
QUICK = 80000
THOROUGH = 2000000
BATCH = 60
FAULTS = ("lib",)
RULE = ("Random effect bodies (yield, await of Some/Ok/Nothing/Error now or later, nested and recursive effects, loops, try/finally, except, return, "
        "raise) compiled and decorated; many concurrent calls of the same functions with random latencies, cancelled at random instants.")
PROBES = ["short", "no-yield", "plain-function", "cancelled-in-body", "body-raised", "nested", "concurrent-same", "finally", "zero"]


def generate(rng: Random, tier: str) -> dict:
    fns = gen_fns(rng, ["async_option", "async_option", "async_result", "async_result", "async_try"])
    calls = []
    for _ in range(size(rng, [1, 2, 2, 3, 4, 6], 0.01, (12, 30))):
        calls.append({"fn": rng.randrange(len(fns)), "start": wait_spec(rng), "cancel": [wait_spec(rng) for _ in range(rng.choice([1, 1, 2]))] if rng.random() < 0.25 else []})
    return {"fns": fns, "calls": calls}


def SHRINK(path: tuple) -> bool:
    return path == ("calls",) or path[-1] in ("cancel", "body") or (path[0] == "fns" and len(path) > 3)


def execute(case: dict) -> None:
    from expression import Error, Nothing, Ok, Some, effect

    sim = Sim(None, nthreads=1)
    log = sim.log
    fns = case["fns"]

    class RealCx(Cx):
        async def w(self, spec: Any) -> None:
            r = self.root
            r.nw += 1
            n = r.nw
            try:
                await wait_for_spec(spec)
            except asyncio.CancelledError as e:
                r.hits[n] = e
                log("hit", n)
                raise

        def ok(self, kind: str) -> Any:
            return (Some if self.kind in OPT else Ok)(self.v(kind))

        def fail(self, k: int) -> Any:
            e = self.err(k)
            sim.probe("short")
            log("short")
            return Nothing if self.kind in OPT else Error(e)

        async def later(self, kind: str, spec: Any) -> Any:
            await self.w(spec)
            return self.ok(kind)

    F: list = []
    builders: dict = {}
    for i, f in enumerate(fns):
        kind = f["kind"]
        body = load(emit(fns, i, False), {"F": F, "Injected": Injected, "InjectedBase": InjectedBase, "Cancelled": asyncio.CancelledError})

        def entry(body: Any = body, kind: str = kind) -> Any:
            # the decorated function must itself be the generator / coroutine function
            return body

        if f["single"]:
            b = builders.setdefault(kind, getattr(effect, kind)[Any]() if kind in ("async_option", "async_try") else getattr(effect, kind)[Any, Any]())
        else:
            b = getattr(effect, kind)()
        dec = b(entry())

        def call(cx: Any, *a: Any, dec: Any = dec, kind: str = kind, **k: Any) -> Any:
            cx.kind = kind
            if cx.depth:
                sim.probe("nested")
            return dec(cx, *a, **k)

        F.append(call)
        import inspect
        if not inspect.isasyncgenfunction(body):
            sim.probe("no-yield" if inspect.iscoroutinefunction(body) else "plain-function")

    roots: list[Root] = []
    outs: list = [None] * len(case["calls"])
    cancelled: set[int] = set()
    stuck: list[int] = []
    active: dict[int, int] = {}

    async def one(n: int, c: dict) -> None:
        await wait_for_spec(c["start"])
        j = c["fn"] % len(fns)
        if active.get(j):
            sim.probe("concurrent-same")
        active[j] = active.get(j, 0) + 1
        log("call", n, j)
        roots[n].started = True
        try:
            outs[n] = ("value", await F[j](RealCx(roots[n], 0, "", sim), n, k=("k", n)))
        except SimAbort:
            raise
        except asyncio.CancelledError:
            outs[n] = ("cancelled", None)
        except BaseException as e:
            outs[n] = ("exc", e)
        active[j] -= 1
        log("out", n, outs[n][0])

    async def main(loop: Any) -> None:
        ts = []
        for n, c in enumerate(case["calls"]):
            r = Root({})
            r.started = False
            roots.append(r)
            t = asyncio.ensure_future(one(n, c))
            ts.append(t)
            for spec in c["cancel"]:
                def do_cancel(t: Any = t, n: int = n) -> None:
                    if not t.done():
                        sim.fault("call cancelled")
                        log("cancel", n)
                        cancelled.add(n)
                        t.cancel()

                after(loop, spec, do_cancel)
        await loop.quiesce()
        for n, t in enumerate(ts):
            if not t.done():
                stuck.append(n)
                t.cancel()
        await loop.quiesce()

    sim.run(lambda: run_loop(sim, main))
    sim.nontrivial = len(case["calls"]) > 1
    RF = ref_fns(fns)
    for n, c in enumerate(case["calls"]):
        root = roots[n]
        if n in stuck:
            raise Violation("stuck", f"call {n} never finished")
        if not root.started:
            continue
        j = c["fn"] % len(fns)
        ref = Root(root.memo, root.hits)
        want = outcome(lambda: RF[j](RefCx(ref, 0, "", Quiet()), n, k=("k", n)))
        got = outs[n]
        ev, rv = root.ev, ref.ev
        if n in cancelled and not root.hits and got[0] == "cancelled":
            sim.probe("cancelled-outside")
            rv = rv[: len(ev)]
            want = got
        elif root.hits:
            sim.probe("cancelled-in-body")
        for k in range(max(len(ev), len(rv))):
            a, b = ev[k] if k < len(ev) else None, rv[k] if k < len(rv) else None
            if a is None:
                raise Violation("skipped", f"call {n} of fn {j}: the body did not reach step {k}: {b!r}")
            if b is None:
                raise Violation("extra", f"call {n} of fn {j}: the body went on with {a!r} after step {k}")
            if not same(a, b):
                raise Violation("step", f"call {n} of fn {j}: step {k} was {a!r} instead of {b!r}")
            if a == ("m", "fin"):
                sim.probe("finally")
        if got[0] != want[0]:
            raise Violation("outcome", f"call {n} of fn {j}: gave {got!r} instead of {want!r}")
        if got[0] == "exc":
            sim.probe("body-raised")
            if got[1] is not want[1]:
                raise Violation("exception", f"call {n} of fn {j}: raised {got[1]!r} instead of {want[1]!r}")
        elif got[0] == "value":
            if not same(got[1], want[1]):
                raise Violation("value", f"call {n} of fn {j}: gave {got[1]!r} instead of {want[1]!r}")
            if want[1].tag == "none" or want[1].v is None:
                sim.probe("zero")
