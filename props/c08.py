"""C08: started computations."""

from __future__ import annotations

import asyncio
import gc
import weakref
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, gen_sched
from sim.loop import SimLoop, run_loop
from sim.threads import Sim

from .aio import after, delay, wait_for_spec, wait_spec

ID = "C08"
TITLE = "started computations"
QUICK = 40000
THOROUGH = 900000
BATCH = 50
FAULTS = ("lib",)
RULE = ("1-6 computations (coroutines, futures, custom awaitables; nested starts) given to start / start_immediate with random latencies, ends "
        "(value, error, BaseException, own cancellation) and tokens; cancellations from loop or foreign threads, garbage collections at random "
        "bytecode positions, awaited objects reachable only through the computation itself; weak references tell what is retained.")
PROBES = ["orphan-await", "cancelled", "foreign-cancel", "failed", "pre-cancelled", "none-token", "cancel-after-end", "nested", "stubborn", "released", "other-loop", "cancelled-from-inside", "stopped-loop"]


class Res:
    """A weakly referenceable result."""


class Aw:
    """A custom awaitable."""

    def __init__(self, coro: Any) -> None:
        self.coro = coro

    def __await__(self) -> Any:
        return self.coro.__await__()


def generate(rng: Random, tier: str) -> dict:
    ns = rng.choice([1, 1, 2])
    comps = []
    many = rng.random() < 0.01
    for i in range(rng.choice([15, 40, 70]) if many else rng.randint(1, 6)):
        r = rng.random()
        steps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            q = rng.random()
            if q < 0.4:
                steps.append(["w", wait_spec(rng)])
            elif q < 0.85:
                steps.append(["orphan", wait_spec(rng)])
            elif q < 0.93:
                steps.append(["gc"])
            else:
                steps.append(["cancel", rng.randrange(ns)])
        comps.append({
            "how": rng.choice(["start", "start_immediate"]),
            "aw": rng.choice(["coro", "coro", "coro", "custom", "future"]),
            "token": rng.choice(["absent", "absent", "none", "pre"]) if r < 0.4 else rng.randrange(ns),
            "steps": steps,
            "end": rng.choice(["value", "value", "value", "E", "B", "selfcancel"]),
            "stubborn": rng.random() < 0.1,
            "when": wait_spec(rng) if rng.random() < 0.5 else None,
            "parent": rng.randrange(i) if i and rng.random() < 0.2 else None,
        })
    cancels = []
    nth = 0
    for _ in range(rng.choice([0, 1, 1, 2])):
        kind = rng.choice(["thread", "thread", "loop"])
        nth += kind == "thread"
        cancels.append({"kind": kind, "src": rng.randrange(ns), "when": ["t", delay(rng) + (0.02 if rng.random() < 0.1 else 0)] if kind == "thread" else wait_spec(rng), "loop": rng.random() < 0.3})
    gcs = [wait_spec(rng) for _ in range(rng.choice([0, 1, 2]))]
    case = {"ns": ns, "comps": comps, "cancels": cancels, "gcs": gcs, "sched": gen_sched(rng, nth + 1, 250, gc=True)}
    if rng.random() < 0.08:
        # the loop is stopped, the token cancelled meanwhile, the loop run again
        case["stopped"] = {"comps": [[rng.choice(["start", "start_immediate"]), rng.random() < 0.7] for _ in range(rng.randint(1, 3))],
                           "turns": rng.choice([0, 0, 1, 2]), "thread": rng.random() < 0.3}
    return case


def SHRINK(path: tuple) -> bool:
    return path in (("cancels",), ("gcs",), ("comps",)) or path[-1] == "steps"


def execute(case: dict) -> None:
    from expression.core import aiotools
    from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException

    comps = case["comps"]
    N = len(comps)
    ns = case["ns"]
    sim = Sim(case.get("sched"), nthreads=1 + sum(c["kind"] == "thread" for c in case["cancels"]))
    log = sim.log
    INF = 1 << 60
    bad: list[Violation] = []
    prog: list[list] = [[] for _ in range(N)]  # step log
    ended: list[Any] = [None] * N  # (how, stamp, time, loop step)
    started: list[Any] = [None] * N
    accepted: list[Any] = [None] * N
    start_inv = [INF] * N
    start_ret = [INF] * N
    c_inv = [INF] * ns
    c_ret = [INF] * ns
    c_time = [float("inf")] * ns
    c_steps = [0] * ns
    n_cancelled = [0] * N
    susp_after = [0] * N  # suspensions completed normally after cancel returned
    refs: list[dict] = [{} for _ in range(N)]
    sources: list[Any] = []

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def src(i: int) -> Any:
        t = comps[i]["token"]
        return t % ns if isinstance(t, int) else None

    async def orphan(w: Any, i: int) -> None:
        """Wait for a future that only this frame (and a weak reference) knows."""
        loop = asyncio.get_running_loop()
        fut = loop.create_future()
        wr = weakref.ref(fut)
        sim.probe("orphan-await")

        def fire() -> None:
            f = wr()
            if f is not None and not f.done():
                f.set_result(None)

        after(loop, w, fire)
        del fire
        await fut

    async def comp(i: int, loop: Any) -> Any:
        spec = comps[i]
        if started[i] is not None:
            flag("ran-twice", f"computation {i} was started twice")
        started[i] = log("begin", i)
        try:
            for k, st in enumerate(spec["steps"]):
                while True:
                    try:
                        if st[0] == "w":
                            await wait_for_spec(st[1])
                        elif st[0] == "orphan":
                            await orphan(st[1], i)
                        elif st[0] == "cancel":
                            sim.probe("cancelled-from-inside")
                            cancel({"src": st[1], "kind": "loop"})
                        else:
                            sim.fault("gc")
                            gc.collect()
                        break
                    except asyncio.CancelledError:
                        n_cancelled[i] += 1
                        if not spec["stubborn"]:
                            raise
                        sim.probe("stubborn")
                        log("ignored cancel", i)
                        break
                prog[i].append(k)
                s = src(i)
                if s is not None and c_ret[s] < log("step", i, k) and st[0] not in ("gc", "cancel"):
                    susp_after[i] += 1
            for j in range(i + 1, N):
                if comps[j]["parent"] == i:
                    sim.probe("nested")
                    launch(j, loop)
            e = spec["end"]
            if e == "value":
                r = Res()
                refs[i]["result"] = weakref.ref(r)
                return r
            if e == "selfcancel":
                raise asyncio.CancelledError
            sim.fault("computation fails")
            sim.probe("failed")
            x: BaseException = (Injected if e == "E" else InjectedBase)(i)
            refs[i]["exception"] = weakref.ref(x)
            raise x
        except asyncio.CancelledError:
            ended[i] = ("cancelled", log("cancelled", i), sim.now, sim.loop_steps)
            raise
        finally:
            if ended[i] is None:
                ended[i] = ("end", log("ended", i), sim.now, sim.loop_steps)

    def launch(i: int, loop: Any) -> None:
        spec = comps[i]
        t = spec["token"]
        if t == "absent":
            args: list = []
        elif t == "none":
            sim.probe("none-token")
            args = [CancellationToken.none()]
        elif t == "pre":
            x = CancellationTokenSource()
            x.cancel()
            sim.probe("pre-cancelled")
            args = [x.token]
        else:
            args = [sources[t % ns].token]
        c: Any = comp(i, loop)
        refs[i]["coroutine"] = weakref.ref(c)
        if spec["aw"] == "custom":
            c = Aw(c)
            refs[i]["awaitable"] = weakref.ref(c)
        elif spec["aw"] == "future":
            f = loop.create_future()
            inner = c

            async def pump() -> Any:
                await f
                return await inner

            f.set_result(None)
            c = pump()
            refs[i]["awaitable"] = weakref.ref(c)
        now, st = sim.now, sim.loop_steps
        start_inv[i] = log("start?", i)
        try:
            r = getattr(aiotools, spec["how"])(c, *args)
            accepted[i] = True
        except ObjectDisposedException:
            accepted[i] = False
            if t != "pre" and (src(i) is None or c_inv[src(i)] == INF):
                flag("start-raised", f"starting {i} raised although its token was not cancelled")
        if t == "pre" and accepted[i]:
            flag("start-accepted", f"starting {i} with a cancelled token did not raise")
        start_ret[i] = log("start!", i, accepted[i])
        if (sim.now, sim.loop_steps) != (now, st):
            flag("start-waited", f"starting {i} ran the event loop")

    def cancel(c: dict) -> None:
        s = c["src"] % ns
        inv = log("cancel?", s)
        c_inv[s] = min(c_inv[s], inv)
        for i in range(N):
            if src(i) == s and ended[i] is not None:
                sim.probe("cancel-after-end")
        sources[s].cancel()
        sim.fault("token cancelled" + (" from a foreign thread" if c["kind"] == "thread" else ""))
        if c["kind"] == "thread":
            sim.probe("foreign-cancel")
        ret = log("cancel!", s)
        if inv < c_ret[s]:
            c_time[s] = sim.now
            c_steps[s] = sim.loop_steps
        c_ret[s] = min(c_ret[s], ret)

    async def main(loop: Any) -> None:
        for _ in range(ns):
            sources.append(CancellationTokenSource())

        async def later(i: int) -> None:
            await wait_for_spec(comps[i]["when"])
            launch(i, loop)

        ts = []
        for i in range(N):
            if comps[i]["parent"] is not None:
                continue
            if comps[i]["when"] is None:
                launch(i, loop)
            else:
                ts.append(asyncio.ensure_future(later(i)))

        def tcancel(c: dict) -> Any:
            def body() -> None:
                sim.sleep(c["when"][1])
                if c.get("loop"):
                    run_loop(sim, lambda _: in_other_loop(c))
                else:
                    cancel(c)

            return body

        async def in_other_loop(c: dict) -> None:
            sim.probe("other-loop")
            await asyncio.sleep(0)
            cancel(c)
            await asyncio.sleep(0)

        for c in case["cancels"]:
            if c["kind"] == "thread":
                sim.spawn(tcancel(c))
            else:
                after(loop, c["when"], lambda c=c: cancel(c))

        def collect() -> None:
            sim.fault("gc")
            gc.collect()

        for w in case["gcs"]:
            after(loop, w, collect)
        await loop.quiesce()
        for t in ts:
            t.result()
        ts.clear()
        t = None
        gc.collect()
        for i in range(N):
            if ended[i] is None and started[i] is not None:
                continue
            for k, r in refs[i].items():
                if r() is not None:
                    if accepted[i] or accepted[i] is False:
                        flag("retained", f"the {k} of computation {i} ({ended[i] and ended[i][0]}) is still retained")
                else:
                    sim.probe("released")

    def stopped(sp: dict) -> None:
        sim.probe("stopped-loop")
        cts = CancellationTokenSource()
        done: list = []

        async def comp(i: int) -> None:
            done.append((i, "begin"))
            try:
                await asyncio.sleep(5)
            except asyncio.CancelledError:
                done.append((i, "cancelled"))
                raise
            done.append((i, "end"))

        async def go() -> None:
            for i, (how, tok) in enumerate(sp["comps"]):
                getattr(aiotools, how)(comp(i), cts.token if tok else None)
            for _ in range(sp["turns"]):
                await asyncio.sleep(0)

        def cancel_now() -> None:
            sim.fault("token cancelled with the loop stopped")
            cts.cancel()

        loop = SimLoop()
        asyncio.set_event_loop(loop)
        try:
            loop.run_until_complete(go())
            if sp["thread"]:
                sim.join(sim.spawn(cancel_now))
            else:
                cancel_now()
            log("stopped", len(done))
            loop.run_until_complete(asyncio.sleep(10))
        finally:
            asyncio.set_event_loop(None)
            loop._closed = True
        for i, (_, tok) in enumerate(sp["comps"]):
            mine = [w for j, w in done if j == i]
            if mine not in ([["begin", "cancelled"], []] if tok else [["begin", "end"]]):
                flag("stopped-loop", f"computation {i} {'with' if tok else 'without'} a token that was cancelled while the loop was stopped did {mine}")

    def everything() -> None:
        run_loop(sim, main)
        if case.get("stopped"):
            stopped(case["stopped"])

    sim.run(everything)
    if bad:
        raise bad[0]
    for i in range(N):
        spec = comps[i]
        s = src(i)
        if accepted[i] is None:
            continue  # its parent never launched it
        if accepted[i] is False:
            if started[i] is not None:
                raise Violation("ran-refused", f"computation {i} ran although starting it raised")
            continue
        tok = s is not None and c_inv[s] < INF
        if s is not None and c_ret[s] < start_inv[i]:
            raise Violation("start-accepted", f"computation {i} was accepted although its token was cancelled before")
        if started[i] is None:
            if not tok:
                raise Violation("never-ran", f"computation {i} never ran")
            continue
        if ended[i] is None:
            raise Violation("never-ended", f"computation {i} stopped after steps {prog[i]} without ending")
        how = ended[i][0]
        full = list(range(len(spec["steps"])))
        if not tok:
            if prog[i] != full:
                raise Violation("wrong-steps", f"computation {i} did steps {prog[i]} of {full} ({how})")
            if (how == "cancelled") != (spec["end"] == "selfcancel"):
                raise Violation("wrong-end", f"computation {i} ended {how}, expected {spec['end']}")
            if n_cancelled[i]:
                raise Violation("cancelled-without-cause", f"computation {i} saw a cancellation but its token was not cancelled")
            continue
        if n_cancelled[i]:
            sim.probe("cancelled")
        if n_cancelled[i] > 1:
            raise Violation("cancelled-twice", f"computation {i} was cancelled {n_cancelled[i]} times")
        if n_cancelled[i] == 0:
            # must have ended before the cancellation could reach it
            if prog[i] != full:
                raise Violation("wrong-steps", f"computation {i} did steps {prog[i]} of {full} ({how})")
            if ended[i][1] > c_ret[s] and susp_after[i] > 2:
                raise Violation("not-cancelled", f"computation {i} went through {susp_after[i]} suspensions after its token was cancelled")
            if ended[i][2] > c_time[s] + 1e-9:
                raise Violation("not-cancelled", f"computation {i} ran on until {ended[i][2]:.4f}, its token was cancelled at {c_time[s]:.4f}")
        elif not spec["stubborn"]:
            if ended[i][2] > c_time[s] + 1e-9 or ended[i][3] > c_steps[s] + 25:
                raise Violation("late-cancel", f"computation {i} was cancelled at {ended[i][2]:.4f} (iteration {ended[i][3]}), its token at {c_time[s]:.4f} ({c_steps[s]})")
            if susp_after[i] > 2:
                raise Violation("late-cancel", f"computation {i} went through {susp_after[i]} suspensions after its token was cancelled")
