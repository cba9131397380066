"""C01: mailbox exactly-once, in arrival order."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.core import Violation, gen_sched
from sim.loop import SimLoop, run_loop
from sim.threads import Sim

from .aio import SPECIAL, Msg, after, delay, value, wait_for_spec, wait_spec

ID = "C01"
TITLE = "mailbox delivery"
QUICK = 48000
THOROUGH = 1500000
BATCH = 60
RULE = ("Random mailboxes (1-3 agents), posting threads and tasks (post and post_and_async_reply, unique and odd message values), agents whose "
        "receives are plain, timed out, cancelled at random instants or doubled, loop stalls, random preemption schedule.")
PROBES = ["abandoned-receive", "agent-posts", "other-loop", "second-receive", "refused-receive", "foreign-post", "par", "burst", "stopped-loop"]


def generate(rng: Random, tier: str) -> dict:
    na = rng.choice([1, 1, 1, 2, 3])
    agents = []
    for _ in range(na):
        steps = []
        calm = rng.random() < 0.25
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            r = rng.random()
            if calm or r < 0.3:
                steps.append(["plain", delay(rng)])
            elif r < 0.6:
                steps.append(["timeout", delay(rng), delay(rng)])
            elif r < 0.7:
                steps.append(["second", delay(rng), rng.randint(0, 3)])
            elif r < 0.92:
                steps.append(["cancel", delay(rng), wait_spec(rng)])
            else:
                steps.append(["stall", delay(rng)])
        relay = [[rng.randint(1, 5), rng.randrange(na), rng.choice(["msg", "odd"]), rng.choice(["post", "post", "par"])] for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        agents.append({"steps": steps, "think": delay(rng) if rng.random() < 0.3 else 0, "relay": relay})
    posters = []
    used: set = set()
    np = rng.choice([1, 2, 2, 3, 4])
    nthreads = 0
    for p in range(np):
        kind = rng.choice(["thread", "thread", "task"])
        nthreads += kind == "thread"
        ops = []
        for _ in range(rng.randint(1, 6)):
            a = rng.randrange(na)
            r = rng.random()
            vk = "msg" if r < 0.6 else "odd"
            if r > 0.85:
                k = rng.choice(list(SPECIAL))
                if (a, k) not in used:
                    used.add((a, k))
                    vk = k
            how = "par" if kind == "task" and rng.random() < 0.2 else "post"
            d = delay(rng) if rng.random() < 0.6 else None
            ops.append([d, a, vk, how])
        posters.append({"kind": kind, "ops": ops, "loop": rng.random() < 0.15})
    burst = None
    if rng.random() < 0.006:  # many messages at once, before the agent runs again
        burst = [rng.choice([100, 300, 1100, 1100]), rng.randrange(na), rng.choice(["task", "thread"]), rng.choice(["post", "post", "par"])]
        nthreads += burst[2] == "thread"
    case = {"agents": agents, "posters": posters, "burst": burst, "sched": gen_sched(rng, nthreads + 1, 400)}
    if rng.random() < 0.06:
        hows = lambda: [rng.choice(["here", "here", "thread"]) for _ in range(rng.choice([0, 1, 1, 2, 4]))]  # noqa: E731
        case["stopped"] = [[hows(), rng.choice([0, 0, 1, 2, 5]), hows()] for _ in range(rng.randint(1, 3))]
    return case


def SHRINK(path: tuple) -> bool:
    return path in (("posters",), ("stopped",)) or path[-1] in ("ops", "steps")


def execute(case: dict) -> None:
    from expression.core import MailboxProcessor

    posters = case["posters"]
    sim = Sim(case.get("sched"), nthreads=1 + sum(p["kind"] == "thread" for p in posters))
    log = sim.log
    na = len(case["agents"])
    posted: list[list[dict]] = [[] for _ in range(na)]
    got: list[list] = [[] for _ in range(na)]
    bad: list[Violation] = []
    boxes: list[Any] = []
    n = 0

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def agent(i: int, spec: dict) -> Any:
        def take(v: Any) -> None:
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "par":
                v[1].reply(None)
                v = v[1].payload
            if len(got[i]) > 9000:
                flag("runaway", "more messages received than posted")
                raise asyncio.CancelledError
            log("recv", i, key(v))
            got[i].append(v)
            for k, a, vk, how in spec.get("relay", ()):
                if k == len(got[i]) and a < na:  # the agent itself posts, to itself or to another
                    sim.probe("agent-posts")
                    post(a, vk, how)

        async def body(mbox: Any) -> None:
            loop = asyncio.get_running_loop()
            try:
                for st in spec["steps"]:
                    if st[0] == "stall":
                        sim.fault("loop stall")
                        sim.sleep(st[1])
                        continue
                    if st[1]:
                        await asyncio.sleep(st[1])
                    if st[0] == "plain":
                        take(await mbox.receive())
                    elif st[0] == "second":
                        # a second receive while one is pending: it may be refused, but must not disturb the first
                        async def rx() -> None:
                            take(await mbox.receive())

                        t1 = asyncio.ensure_future(rx())
                        for _ in range(st[2]):
                            await asyncio.sleep(0)
                        t2 = asyncio.ensure_future(rx())
                        await asyncio.wait([t1, t2])
                        sim.probe("second-receive")
                        t1.result()
                        if isinstance(t2.exception(), Exception):
                            sim.fault("receive refused")
                            sim.probe("refused-receive")
                            log("refused", i)
                        else:
                            t2.result()
                    elif st[0] == "timeout":
                        try:
                            v = await asyncio.wait_for(mbox.receive(), st[2])
                        except TimeoutError:
                            sim.fault("receive timed out")
                            sim.probe("abandoned-receive")
                            log("timeout", i)
                        else:
                            take(v)
                    else:
                        t = asyncio.ensure_future(mbox.receive())
                        after(loop, st[2], t.cancel)
                        try:
                            v = await t
                        except asyncio.CancelledError:
                            sim.fault("receive cancelled")
                            sim.probe("abandoned-receive")
                            log("cancelled", i)
                        else:
                            take(v)
                while True:
                    if spec["think"]:
                        await asyncio.sleep(spec["think"])
                    take(await mbox.receive())
            except asyncio.CancelledError:
                flag("agent-cancelled", f"agent {i}: a receive ended in cancellation although nobody cancelled it")
                raise
            except Exception as e:  # noqa: BLE001
                flag("receive-raised", f"agent {i}: receive raised {e!r}")

        return body

    def key(v: Any) -> str:
        return repr(v) if not isinstance(v, BaseException) else "exc"

    def post(a: int, vk: str, how: str) -> Any:
        nonlocal n
        n += 1
        v = value(vk, n)
        rec = {"v": v, "inv": log("post?", a, key(v)), "ret": 1 << 60}
        posted[a].append(rec)
        r = None
        if how == "par":
            sim.probe("par")

            def build(ch: Any) -> Any:
                ch.payload = v
                return ("par", ch)

            r = boxes[a].post_and_async_reply(build)
        else:
            boxes[a].post(v)
        rec["ret"] = log("post!", a, key(v))
        return r

    def thread_poster(ops: list) -> Any:
        def body() -> None:
            for d, a, vk, how in ops:
                if d is not None:
                    sim.sleep(d)
                if a < na:
                    sim.probe("foreign-post")
                    post(a, vk, "post")

        return body

    async def in_other_loop(ops: list) -> None:
        await task_poster([[d, a, vk, "post"] for d, a, vk, _ in ops])

    def loop_poster(ops: list) -> Any:
        sim.probe("other-loop")
        return lambda: run_loop(sim, lambda _: in_other_loop(ops))

    async def task_poster(ops: list) -> None:
        for d, a, vk, how in ops:
            if d is not None:
                await asyncio.sleep(d)
            if a < na:
                post(a, vk, how)

    async def main(loop: Any) -> None:
        for i, spec in enumerate(case["agents"]):
            boxes.append(MailboxProcessor.start(agent(i, spec)))
        tasks = []
        for p in posters:
            if p["kind"] == "thread":
                sim.spawn((loop_poster if p.get("loop") else thread_poster)(p["ops"]))
            else:
                tasks.append(asyncio.ensure_future(task_poster(p["ops"])))
        b = case.get("burst")
        if b:
            sim.probe("burst")

            def flood() -> None:
                for _ in range(b[0]):
                    post(b[1] % na, "msg", b[3] if b[2] == "task" else "post")

            if b[2] == "thread":
                sim.spawn(flood)
            else:
                flood()
        await loop.quiesce()
        for t in tasks:
            if not t.done():
                flag("poster-stuck", "a posting task never finished")
            else:
                t.result()

    def stopped(sp: list) -> None:
        """Posts while the agent's loop does not run; it runs again afterwards."""
        sim.probe("stopped-loop")
        rec: list = []
        sent: list = []
        box: list = []

        async def body(mbox: Any) -> None:
            while True:
                rec.append(await mbox.receive())

        def send(how: str) -> None:
            m = Msg(("stopped", len(sent)))
            sent.append(m)
            if how == "thread":
                sim.join(sim.spawn(lambda: box[0].post(m)))
            else:
                box[0].post(m)

        async def begin(hows: list, turns: int) -> None:
            if not box:
                box.append(MailboxProcessor.start(body))
            for how in hows:
                send(how)
            for _ in range(turns):
                await asyncio.sleep(0)

        loop = SimLoop()
        asyncio.set_event_loop(loop)
        try:
            for inside, turns, outside in sp:
                loop.run_until_complete(begin(inside, turns))
                for how in outside:
                    sim.fault("post with the loop stopped")
                    send(how)
                log("stopped", len(rec))
            loop.run_until_complete(asyncio.sleep(1))
        finally:
            asyncio.set_event_loop(None)
            loop._ready.clear()
            loop._closed = True
        if len(rec) != len(sent) or any(x is not y for x, y in zip(rec, sent)):
            flag("stopped-loop", f"with the loop stopped now and then the agent received {rec!r} of {sent!r}")

    def everything() -> None:
        run_loop(sim, main)
        if case.get("stopped"):
            stopped(case["stopped"])

    sim.run(everything)
    if bad:
        raise bad[0]
    for a in range(na):
        where: list[int] = []
        used: set[int] = set()
        cand: dict[int, list[int]] = {}
        for j, rec in enumerate(posted[a]):
            cand.setdefault(id(rec["v"]), []).append(j)
        for v in got[a]:
            j = next((j for j in cand.get(id(v), ()) if j not in used), None)
            if j is None:
                kind = "duplicate" if any(r["v"] is v for r in posted[a]) else "invented"
                raise Violation(kind, f"agent {a} received {key(v)}, which is not an undelivered message of its own")
            used.add(j)
            where.append(j)
        first = 1 << 62  # earliest return among the later ones
        for x in range(len(where) - 1, -1, -1):
            if first < posted[a][where[x]]["inv"]:
                y = next(y for y in range(x + 1, len(where)) if posted[a][where[y]]["ret"] == first)
                raise Violation("order", f"agent {a} received {key(got[a][x])} before {key(got[a][y])}, which was posted earlier")
            first = min(first, posted[a][where[x]]["ret"])
        if len(used) != len(posted[a]):
            lost = [key(r["v"]) for j, r in enumerate(posted[a]) if j not in used]
            raise Violation("lost", f"agent {a} keeps receiving but never received {lost}")
