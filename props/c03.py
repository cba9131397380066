"""C03: cancelling a mailbox agent through its token."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.core import Violation, gen_sched
from sim.loop import run_loop
from sim.threads import Sim

from .aio import Msg, Odd, after, delay, wait_for_spec, wait_spec

ID = "C03"
TITLE = "mailbox cancellation"
QUICK = 50000
THOROUGH = 1200000
BATCH = 60
RULE = ("Random agents (own, shared, no, none or already cancelled token; started at random times; plain, retrying, sub-task or slow bodies), "
        "posting threads/tasks, cancellations from the loop or from foreign threads at random instants, random preemption schedule.")
PROBES = ["cancelled-waiting", "foreign-cancel", "loop-cancel", "message-after-cancel", "retry-receive", "pre-cancelled", "survivor", "in-flight", "other-loop", "own-cancel"]


def generate(rng: Random, tier: str) -> dict:
    many = rng.random() < 0.02
    ns = rng.choice([1, 1, 2])
    na = rng.choice([5, 12]) if many and rng.random() < 0.5 else rng.choice([1, 1, 2, 3])
    agents = []
    for i in range(na):
        r = rng.random()
        tok: Any = rng.randrange(ns) if i == 0 or r < 0.6 else rng.choice(["absent", "none", "pre"])
        agents.append({
            "token": tok,
            "start": delay(rng) if rng.random() < 0.2 else None,
            "body": rng.choice(["plain", "plain", "retry", "sub", "slow", "timeout", "finite"]),
            "think": delay(rng),
            "stall": delay(rng) if rng.random() < 0.15 else 0,
            "n": rng.randint(0, 3),
            "own": [rng.randint(1, 4), rng.randrange(ns)] if rng.random() < 0.15 else None,
        })
    posters = []
    nth = 0
    for _ in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(["thread", "task"])
        nth += kind == "thread"
        posters.append({"kind": kind, "ops": [[delay(rng) if rng.random() < 0.6 else None, rng.randrange(na), rng.random() < 0.2] for _ in range(rng.choice([20, 70]) if many else rng.randint(1, 6))]})
    cancels = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["thread", "thread", "task", "timer"])
        nth += kind == "thread"
        cancels.append({"kind": kind, "src": rng.randrange(ns), "when": wait_spec(rng) if kind != "thread" else ["t", delay(rng)], "how": rng.choice(["cancel", "dispose"]), "loop": rng.random() < 0.3})
    return {"ns": ns, "agents": agents, "posters": posters, "cancels": cancels, "sched": gen_sched(rng, nth + 1, 400)}


def SHRINK(path: tuple) -> bool:
    return path in (("posters",), ("cancels",)) or path[-1] == "ops"


def execute(case: dict) -> None:
    from expression.core import MailboxProcessor
    from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException

    nth = sum(p["kind"] == "thread" for p in case["posters"]) + sum(c["kind"] == "thread" for c in case["cancels"])
    sim = Sim(case.get("sched"), nthreads=1 + nth)
    log = sim.log
    INF = 1 << 60
    ags = case["agents"]
    na = len(ags)
    ns = case["ns"]
    bad: list[Violation] = []
    boxes: list[Any] = [None] * na
    started: list[Any] = [None] * na  # stamp of first body statement
    ended: list[Any] = [None] * na  # (how, stamp, virtual time)
    start_inv = [INF] * na
    waiting_since: list[Any] = [None] * na
    retrying = [False] * na
    posted: list[list[dict]] = [[] for _ in range(na)]
    got: list[list] = [[] for _ in range(na)]
    c_inv = [INF] * ns
    c_ret = [INF] * ns
    c_time = [float("inf")] * ns
    c_steps = [INF] * ns
    stalled = 0.0
    n = 0
    helpers: list[Any] = []

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def src_of(i: int) -> Any:
        t = ags[i]["token"]
        return t % ns if isinstance(t, int) else None

    def agent(i: int) -> Any:
        spec = ags[i]
        kind = spec["body"]

        def take(v: Any) -> None:
            if isinstance(v, tuple):
                v = v[1]
            got[i].append((v, log("recv", i, v)))
            if spec.get("own") and spec["own"][0] == len(got[i]):
                sim.probe("own-cancel")
                cancel({"src": spec["own"][1], "how": "cancel", "kind": "task"})

        async def one(mbox: Any) -> None:
            if kind == "sub":
                take(await asyncio.ensure_future(mbox.receive()))
            elif kind == "timeout":
                try:
                    v = await asyncio.wait_for(mbox.receive(), spec["think"])
                except TimeoutError:
                    await asyncio.sleep(0.001)
                else:
                    take(v)
            else:
                take(await mbox.receive())

        async def body(mbox: Any) -> None:
            nonlocal stalled
            started[i] = log("start", i)
            s = src_of(i)
            try:
                rounds = 0
                while kind != "finite" or rounds < spec["n"]:
                    rounds += 1
                    if kind == "timeout" and rounds > 60:
                        break
                    if kind == "slow" and spec["think"]:
                        await asyncio.sleep(spec["think"])
                    if spec["stall"] and rounds < 4:
                        sim.fault("loop stall")
                        stalled += spec["stall"]
                        sim.sleep(spec["stall"])
                    waiting_since[i] = sim.stamp()
                    await one(mbox)
                    waiting_since[i] = None
                ended[i] = ("end", log("end", i), sim.now, sim.loop_steps)
            except asyncio.CancelledError:
                if s is None or c_inv[s] == INF:
                    flag("cancelled-without-cause", f"agent {i} was cancelled but its token was not")
                if waiting_since[i]:
                    sim.probe("cancelled-waiting")
                ended[i] = ("cancelled", log("cancelled", i), sim.now, sim.loop_steps)
                if kind == "retry" and s is not None:
                    for _ in range(2):
                        sim.probe("retry-receive")
                        at = sim.now
                        retrying[i] = True
                        try:
                            v = await mbox.receive()
                        except asyncio.CancelledError:
                            log("cancelled again", i)
                            if sim.now > at + stalled:
                                flag("late-cancel", f"agent {i}: a receive after the cancellation waited until {sim.now}")
                        except Exception as e:  # noqa: BLE001
                            flag("receive-raised", f"agent {i}: receive after cancellation raised {e!r}")
                        else:
                            take(v)
                            flag("received-after-cancelled", f"agent {i} received {v!r} after a receive had ended in cancellation")
                        retrying[i] = False
                    ended[i] = ("cancelled", log("really ended", i), ended[i][2], ended[i][3])
                raise
            except Exception as e:  # noqa: BLE001
                flag("receive-raised", f"agent {i}: receive raised {e!r}")
                ended[i] = ("raised", log("raised", i), sim.now, sim.loop_steps)

        return body

    def post(a: int, par: bool, on_loop: bool) -> None:
        nonlocal n
        if a >= na or boxes[a] is None:
            return
        n += 1
        v = Odd(n) if n % 3 == 0 else Msg(n)
        rec = {"v": v, "inv": log("post?", a, v), "ret": INF}
        posted[a].append(rec)
        s = src_of(a)
        if s is not None and c_ret[s] < rec["inv"]:
            sim.probe("message-after-cancel")
        if par and on_loop:
            boxes[a].post_and_async_reply(lambda ch: ("par", v))
        else:
            boxes[a].post(v)
        rec["ret"] = log("post!", a, v)

    def cancel(c: dict) -> None:
        s = c["src"] % ns
        inv = log("cancel?", s)
        c_inv[s] = min(c_inv[s], inv)
        getattr(sources[s], c["how"])()
        sim.fault("token cancelled" + (" from a foreign thread" if c["kind"] == "thread" else " on the loop"))
        sim.probe("foreign-cancel" if c["kind"] == "thread" else "loop-cancel")
        ret = log("cancel!", s)
        if inv < c_ret[s]:
            # of several overlapping calls, the one that runs the callbacks may return last
            c_time[s] = sim.now
            c_steps[s] = sim.loop_steps
        c_ret[s] = min(c_ret[s], ret)

    sources: list[Any] = []

    async def main(loop: Any) -> None:
        for _ in range(ns):
            sources.append(CancellationTokenSource())

        def start(i: int) -> None:
            t = ags[i]["token"]
            if t == "absent":
                args: list = [None]
            elif t == "none":
                args = [CancellationToken.none()]
            elif t == "pre":
                x = CancellationTokenSource()
                x.cancel()
                sim.probe("pre-cancelled")
                args = [x.token]
            else:
                args = [sources[t % ns].token]
            start_inv[i] = log("start?", i)
            try:
                boxes[i] = MailboxProcessor.start(agent(i), *args)
            except ObjectDisposedException:
                s = src_of(i)
                if t != "pre" and (s is None or c_inv[s] == INF):
                    flag("start-raised", f"starting agent {i} raised although its token was not cancelled")
                log("start refused", i)

        async def start_later(i: int) -> None:
            await asyncio.sleep(ags[i]["start"])
            start(i)

        tasks = []
        for i in range(na):
            if ags[i]["start"] is None:
                start(i)
            else:
                tasks.append(asyncio.ensure_future(start_later(i)))

        def tposter(ops: list) -> Any:
            def body() -> None:
                for d, a, par in ops:
                    if d is not None:
                        sim.sleep(d)
                    post(a, par, False)

            return body

        async def aposter(ops: list) -> None:
            for d, a, par in ops:
                if d is not None:
                    await asyncio.sleep(d)
                post(a, par, True)

        async def acancel(c: dict) -> None:
            await wait_for_spec(c["when"])
            cancel(c)

        def tcancel(c: dict) -> Any:
            def body() -> None:
                sim.sleep(c["when"][1])
                if c.get("loop"):
                    run_loop(sim, lambda _: in_other_loop(c))
                else:
                    cancel(c)

            return body

        async def in_other_loop(c: dict) -> None:
            sim.probe("other-loop")
            await asyncio.sleep(0)
            cancel(c)
            await asyncio.sleep(0)

        for p in case["posters"]:
            if p["kind"] == "thread":
                sim.spawn(tposter(p["ops"]))
            else:
                tasks.append(asyncio.ensure_future(aposter(p["ops"])))
        for c in case["cancels"]:
            if c["kind"] == "thread":
                sim.spawn(tcancel(c))
            elif c["kind"] == "task":
                tasks.append(asyncio.ensure_future(acancel(c)))
            else:
                after(loop, c["when"], lambda c=c: cancel(c))
        await loop.quiesce()
        for t in tasks:
            t.result() if t.done() else flag("task-stuck", "a posting or cancelling task never finished")

    sim.run(lambda: run_loop(sim, main))
    if bad:
        raise bad[0]
    for i in range(na):
        s = src_of(i)
        pre = ags[i]["token"] == "pre"
        cancelled = s is not None and c_inv[s] < INF
        if pre or (s is not None and c_ret[s] < start_inv[i]):
            if started[i] is not None:
                raise Violation("ran-cancelled", f"agent {i} ran although its token was cancelled before it was started")
            continue
        # exactly once, in order, prefix
        idx: list[int] = []
        for v, _ in got[i]:
            j = next((j for j, r in enumerate(posted[i]) if r["v"] is v and j not in idx), None)
            if j is None:
                raise Violation("duplicate", f"agent {i} received {v!r}, which is not an undelivered message of its own")
            idx.append(j)
        P = posted[i]
        for x in range(len(idx)):
            for y in range(x + 1, len(idx)):
                if P[idx[y]]["ret"] < P[idx[x]]["inv"]:
                    raise Violation("order", f"agent {i} received {P[idx[x]]['v']} before the earlier {P[idx[y]]['v']}")
        missing = [r for j, r in enumerate(P) if j not in idx]
        for r in missing:
            for j in idx:
                if r["ret"] < P[j]["inv"]:
                    raise Violation("not-a-prefix", f"agent {i} received {P[j]['v']} but not {r['v']}, which was posted earlier")
        endless = ags[i]["body"] not in ("finite", "timeout")
        if not cancelled:
            sim.probe("survivor")
            if started[i] is None:
                if boxes[i] is not None:
                    raise Violation("never-ran", f"agent {i} never ran")
            elif endless:
                if ended[i] is not None:
                    raise Violation("ended-early", f"agent {i} ended ({ended[i][0]}) although its token was not cancelled")
                if missing:
                    raise Violation("lost", f"agent {i} never received {[r['v'] for r in missing]}")
            continue
        late = [v for v, st in got[i] if st > c_ret[s]]
        if late:
            sim.probe("in-flight")
        if len(late) > 1:
            raise Violation("received-after-cancel", f"agent {i} received {late} after the cancellation (at most one may be in flight)")
        for j in idx:
            if P[j]["inv"] > c_ret[s]:
                raise Violation("posted-after-cancel", f"agent {i} received {P[j]['v']}, posted after the cancellation")
        if started[i] is not None:
            if retrying[i]:
                raise Violation("stuck-receive", f"agent {i}: a receive after the cancellation never ended")
            if ended[i] is None:
                raise Violation("not-cancelled", f"agent {i} still waits although its token was cancelled")
            if ended[i][0] == "cancelled" and ended[i][2] > c_time[s] + stalled + 1e-9:
                raise Violation("late-cancel", f"agent {i} was cancelled at {ended[i][2]:.4f}, its token at {c_time[s]:.4f}")
            if ended[i][0] == "cancelled" and endless and ended[i][3] > c_steps[s] + 25:
                raise Violation("late-cancel", f"agent {i} needed {ended[i][3] - c_steps[s]} loop iterations to end")
