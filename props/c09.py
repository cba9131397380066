"""C09: sleep, run_synchronously, singleton, from_result, empty on a virtual clock."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, gen_sched
from sim.loop import run_loop
from sim.threads import Sim

from .aio import SPECIAL, after, delay, value, wait_for_spec, wait_spec

ID = "C09"
TITLE = "sleep and run_synchronously"
QUICK = 70000
THOROUGH = 1500000
BATCH = 60
FAULTS = ("lib",)
RULE = ("Concurrent sleepers with random durations (zero, fractional, hours), started at random times, cancelled at random instants, under loop "
        "stalls and forward clock jumps; threads running computations with run_synchronously (values, errors, cancellation, nested sleeps).")
PROBES = ["overslept-by-stall", "cancelled-sleeper", "zero", "hours", "same-deadline", "sync-value", "sync-error", "sync-cancel", "const"]

MS = [0, 0, 1, 1, 2, 3, 5, 0.5, 1.5, 2.25, 10, 100, 1000, 60000, 3600000, 90000000, 2592000000, 10000000000, -1, True, 7, 33, 249, 999, 1001, 1234, 2501, 12347, 61239, 3600007, 86400001, 0.1, 1234.5]


def generate(rng: Random, tier: str) -> dict:
    sl = []
    small = rng.random() < 0.6
    many = rng.random() < 0.01
    for _ in range(rng.choice([20, 70, 150]) if many else rng.randint(1, 7)):
        naps = [rng.choice(MS[:10]) if small else rng.choice(MS) for _ in range(rng.choice([1, 1, 2, 3]))]
        sl.append({"start": wait_spec(rng), "naps": naps, "cancel": wait_spec(rng) if rng.random() < 0.25 else None})
    stalls = [[delay(rng) + rng.choice([0, 0, 0.01]), rng.choice([0.0005, 0.001, 0.002, 0.01, 5.0]), rng.choice(["stall", "jump"])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    consts = [[wait_spec(rng), rng.choice(["singleton", "from_result", "empty"]), rng.choice(["msg", "odd", *SPECIAL])] for _ in range(rng.choice([0, 1, 2]))]
    syncs = []
    nth = rng.choice([0, 0, 1, 2])
    for _ in range(nth):
        runs = []
        for _ in range(rng.randint(1, 3)):
            runs.append({"naps": [rng.choice(MS[:11] if rng.random() < 0.8 else MS) for _ in range(rng.randint(0, 3))], "end": rng.choice(["value", "value", "E", "B", "cancel"]),
                         "value": rng.choice(["msg", "odd", *SPECIAL]), "wrap": rng.choice(["coro", "coro", "custom"]), "child": rng.choice([None, None, 1, 5])})
        syncs.append(runs)
    return {"sleepers": sl, "stalls": stalls, "consts": consts, "syncs": syncs, "sched": gen_sched(rng, nth + 1, 100)}


def SHRINK(path: tuple) -> bool:
    return path in (("sleepers",), ("stalls",), ("consts",), ("syncs",)) or path[-1] == "naps" or (path[0] == "syncs" and len(path) == 2)


class Aw:
    def __init__(self, coro: Any) -> None:
        self.coro = coro

    def __await__(self) -> Any:
        return self.coro.__await__()


EPS = 1e-6


def execute(case: dict) -> None:
    from expression.core import aiotools

    sim = Sim(case.get("sched"), nthreads=1 + len(case["syncs"]))
    log = sim.log
    bad: list[Violation] = []
    naps: list[dict] = []
    busy: list[list[float]] = []  # intervals in which the loop could not run
    multi = bool(case["syncs"])

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    async def sleeper(i: int, sp: dict) -> None:
        await wait_for_spec(sp["start"])
        for ms in sp["naps"]:
            rec = {"i": i, "ms": ms, "t0": sim.now, "end": None, "stamp": None, "how": None}
            naps.append(rec)
            if not ms:
                sim.probe("zero")
            elif ms > 10**6:
                sim.probe("hours")
            log("sleep", i, ms)
            try:
                r = await aiotools.sleep(ms)
            except asyncio.CancelledError:
                rec.update(end=sim.now, stamp=log("cancelled", i), how="cancelled")
                raise
            rec.update(end=sim.now, stamp=log("awake", i), how="awake")
            if r is not None:
                flag("sleep-value", f"sleep returned {r!r}")

    cancels: dict[int, float] = {}

    async def const(c: list, n: int) -> None:
        await wait_for_spec(c[0])
        v = value(c[2], n)
        sim.probe("const")
        now, st = sim.now, asyncio.get_running_loop().steps
        if c[1] == "empty":
            v = None
            r = await aiotools.empty()
        else:
            r = await getattr(aiotools, c[1])(v)
        if r is not v:
            flag("const-value", f"{c[1]} gave {r!r} instead of {v!r}")
        if sim.now != now or asyncio.get_running_loop().steps > st + 5:
            flag("const-waited", f"{c[1]} waited")
        log("const", c[1])

    def sync(k: int, runs: list) -> Any:
        def body() -> None:
            for n, r in enumerate(runs):
                v = value(r["value"], (k, n))
                x = Injected((k, n)) if r["end"] == "E" else InjectedBase((k, n))
                state = {"done": False, "child": None, "slept": 0.0}

                async def child(ms: Any) -> None:
                    await aiotools.sleep(ms)

                async def comp(r: Any = r, v: Any = v, x: Any = x, state: Any = state) -> Any:
                    if r["child"]:
                        state["child"] = asyncio.ensure_future(child(r["child"]))
                    for ms in r["naps"]:
                        t0 = sim.now
                        await aiotools.sleep(ms)
                        if sim.now < t0 + ms / 1000 - EPS:
                            flag("early", f"sleep({ms}) in run_synchronously returned after {sim.now - t0}s")
                    state["done"] = True
                    if r["end"] == "value":
                        return v
                    if r["end"] == "cancel":
                        raise asyncio.CancelledError
                    sim.fault("computation fails")
                    raise x

                c: Any = comp()
                if r["wrap"] == "custom":
                    c = Aw(c)
                log("sync?", k, n)
                try:
                    out = aiotools.run_synchronously(c)
                    how = "value"
                except (Injected, InjectedBase) as e:
                    out, how = e, "E"
                except asyncio.CancelledError as e:
                    out, how = e, "cancel"
                log("sync!", k, n, how)
                sim.probe({"value": "sync-value", "E": "sync-error", "cancel": "sync-cancel"}[how])
                want = {"B": "E"}.get(r["end"], r["end"])
                if how != want:
                    flag("sync-outcome", f"run_synchronously ended with {how}, the computation with {want}")
                elif how == "value" and out is not v:
                    flag("sync-outcome", f"run_synchronously returned {out!r} instead of {v!r}")
                elif how == "E" and out is not x:
                    flag("sync-outcome", "run_synchronously raised another exception than the computation")
                if state["child"] is not None and not state["child"].done():
                    flag("sync-leftover", "run_synchronously returned and left a task of the computation pending for good")
                if not state["done"]:
                    flag("sync-early", "run_synchronously returned before the computation ended")

        return body

    async def main(loop: Any) -> None:
        ts = []
        for i, sp in enumerate(case["sleepers"]):
            t = asyncio.ensure_future(sleeper(i, sp))
            ts.append(t)
            if sp["cancel"] is not None:
                def do_cancel(t: Any = t, i: int = i) -> None:
                    if not t.done():
                        sim.fault("sleeper cancelled")
                        cancels[i] = sim.now
                        log("cancel", i)
                        t.cancel()

                after(loop, sp["cancel"], do_cancel)

        def stall(d: float, kind: str) -> None:
            t0 = sim.now
            sim.fault("clock jump" if kind == "jump" else "loop stall")
            if kind == "jump":
                sim.now += d
            else:
                sim.sleep(d)
            log(kind, d)
            busy.append([t0, sim.now])

        for t, d, kind in case["stalls"]:
            loop.call_later(t, stall, d, kind)
        cs = [asyncio.ensure_future(const(c, n)) for n, c in enumerate(case["consts"])]
        for k, runs in enumerate(case["syncs"]):
            sim.spawn(sync(k, runs))
        await loop.quiesce()
        for t in cs:
            t.result() if t.done() else flag("const-waited", "a constant never completed")
        for i, t in enumerate(ts):
            if not t.done():
                flag("never-woke", f"sleeper {i} never woke up")
            elif not t.cancelled():
                t.result()

    sim.run(lambda: run_loop(sim, main))
    sim.nontrivial = len(case["sleepers"]) > 1
    if bad:
        raise bad[0]
    busy.sort()

    def soonest(t: float) -> float:
        for a, b in busy:
            if a - EPS <= t <= b + EPS:
                t = max(t, b)
        return t

    jumps = any(s[2] == "jump" for s in case["stalls"])
    awake = []
    for r in naps:
        if r["how"] == "awake":
            dl = r["t0"] + max(0.0, r["ms"] / 1000.0)
            r["dl"] = dl
            if r["end"] < dl - EPS:
                raise Violation("early", f"sleep({r['ms']}) called at {r['t0']:.6f} returned at {r['end']:.6f}")
            lim = soonest(dl)
            if lim > dl + EPS:
                sim.probe("overslept-by-stall")
            if r["end"] > lim + EPS and not (multi and jumps):
                raise Violation("late", f"sleep({r['ms']}) called at {r['t0']:.6f} returned at {r['end']:.6f}, the loop could run at {lim:.6f}")
            if r["ms"] > 0:
                awake.append(r)
        elif r["how"] == "cancelled":
            sim.probe("cancelled-sleeper")
            c = cancels.get(r["i"])
            if c is None:
                raise Violation("cancelled", f"sleeper {r['i']} was cancelled by nobody")
            if r["end"] > soonest(c) + EPS:
                raise Violation("late-cancel", f"sleeper {r['i']} cancelled at {c:.6f} woke at {r['end']:.6f}")
    for a in awake:
        for b in awake:
            if a["dl"] < b["dl"] - EPS and a["stamp"] > b["stamp"]:
                raise Violation("order", f"sleeper due at {a['dl']:.6f} woke after the one due at {b['dl']:.6f}")
            if a is not b and abs(a["dl"] - b["dl"]) < EPS:
                sim.probe("same-deadline")
