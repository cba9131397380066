"""C02: request/reply over a mailbox."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.core import Injected, Violation, gen_sched
from sim.loop import run_loop
from sim.threads import Sim

from .aio import SPECIAL, after, delay, value, wait_for_spec, wait_spec

ID = "C02"
TITLE = "request/reply"
QUICK = 90000
THOROUGH = 1500000
BATCH = 60
RULE = ("Random requesters (tasks) against 1-2 agents; each request has a scripted list of replies (inside build_message, in the agent, from "
        "other tasks, delayed, repeated, any value) and a requester that waits at once, later, with a timeout, or is cancelled.")
PROBES = ["none-reply", "falsy-reply", "double-reply", "abandoned", "reply-before-wait", "no-reply", "late-reply", "many-requests", "agent-stopped", "answer-after-stop", "agent-crashed"]

VALUES = ["msg", "msg", "odd", "odd", *SPECIAL]


def generate(rng: Random, tier: str) -> dict:
    na = rng.choice([1, 1, 2])
    reqs = []
    many = rng.random() < 0.006
    for _ in range(rng.choice([40, 130, 400]) if many else rng.randint(1, 7)):
        replies = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            where = rng.choice(["build", "agent", "agent", "task", "task", "chain"])
            replies.append([where, wait_spec(rng), rng.choice(VALUES)])
        r = rng.random()
        if r < 0.5:
            mode: list = ["now"]
        elif r < 0.7:
            mode = ["later", wait_spec(rng)]
        elif r < 0.85:
            mode = ["timeout", delay(rng)]
        else:
            mode = ["cancel", wait_spec(rng)]
        reqs.append({"start": wait_spec(rng), "agent": rng.randrange(na), "replies": replies, "mode": mode})
    posts = [[delay(rng), rng.randrange(na)] for _ in range(rng.choice([0, 0, 2]))]
    agents = [{"delay": delay(rng) if rng.random() < 0.4 else 0, "hold": rng.choice([0, 5, 50, 300]) if many else rng.choice([0, 0, 0, 1, 2]),
               "stop": wait_spec(rng) if rng.random() < 0.15 else None, "crash": rng.randint(1, 4) if rng.random() < 0.07 else None} for _ in range(na)]
    return {"agents": agents, "reqs": reqs, "posts": posts, "sched": gen_sched(rng, 2, 300)}


def SHRINK(path: tuple) -> bool:
    return path in (("reqs",), ("posts",)) or path[-1] == "replies"


def execute(case: dict) -> None:
    from expression.core import MailboxProcessor
    from expression.system import CancellationTokenSource

    sim = Sim(case.get("sched"), nthreads=2)
    log = sim.log
    na = len(case["agents"])
    reqs = case["reqs"]
    bad: list[Violation] = []
    boxes: list[Any] = []
    replied: list[list] = [[] for _ in reqs]
    result: list[Any] = [("pending",) for _ in reqs]
    seen = [0] * len(reqs)
    bg: list[Any] = []
    ended = [False] * na

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def key(v: Any) -> str:
        return "exc" if isinstance(v, BaseException) else repr(v)

    def reply(i: int, j: int, ch: Any) -> None:
        v = value(reqs[i]["replies"][j][2], (i, j))
        if replied[i]:
            sim.fault("duplicate reply")
            sim.probe("double-reply")
        if v is None:
            sim.probe("none-reply")
        elif not v:
            sim.probe("falsy-reply")
        if result[i][0] in ("timeout", "cancelled"):
            sim.fault("reply after requester gave up")
            sim.probe("late-reply")
        replied[i].append(v)
        log("reply", i, key(v))
        try:
            ch.reply(v)
        except Exception as e:  # noqa: BLE001
            flag("reply-raised", f"replying to request {i} raised {e!r}")

    async def later(i: int, j: int, ch: Any) -> None:
        await wait_for_spec(reqs[i]["replies"][j][1])
        reply(i, j, ch)

    def agent(a: int) -> Any:
        spec = case["agents"][a]

        async def body(mbox: Any) -> None:
            held: list = []
            left = spec.get("crash")
            while True:
                m = await mbox.receive()
                if m == "plain":
                    log("plain", a)
                    continue
                i, ch = m
                seen[i] += 1
                log("request", a, i)
                if spec["delay"]:
                    await asyncio.sleep(spec["delay"])
                for j, (where, w, _) in enumerate(reqs[i]["replies"]):
                    if where == "agent":
                        if w[0] == "t" and w[1]:
                            await asyncio.sleep(w[1])
                        if spec["hold"]:
                            held.append((i, j, ch))  # answered out of order
                            while len(held) > spec["hold"]:
                                reply(*held.pop())
                        else:
                            reply(i, j, ch)
                    elif where == "task":
                        bg.append(asyncio.ensure_future(later(i, j, ch)))
                    elif where == "chain":
                        after(asyncio.get_running_loop(), w, lambda i=i, j=j, ch=ch: reply(i, j, ch))
                if left is not None:
                    left -= 1
                    if left <= 0:
                        ended[a] = True
                        sim.fault("agent failed")
                        sim.probe("agent-crashed")
                        raise Injected(("agent", a))

        return body

    def stop(a: int, src: Any) -> None:
        ended[a] = True
        sim.fault("agent stopped")
        sim.probe("agent-stopped")
        log("stop", a)
        src.cancel()

    async def requester(i: int) -> None:
        r = reqs[i]
        await wait_for_spec(r["start"])
        a = r["agent"] % na

        def build(ch: Any) -> Any:
            for j, (where, _, _) in enumerate(r["replies"]):
                if where == "build":
                    sim.probe("reply-before-wait")
                    reply(i, j, ch)
            return (i, ch)

        log("ask", i)
        aw = boxes[a].post_and_async_reply(build)
        mode = r["mode"]
        try:
            if mode[0] == "now":
                v = await aw
            elif mode[0] == "later":
                await wait_for_spec(mode[1])
                v = await aw
            elif mode[0] == "timeout":
                try:
                    v = await asyncio.wait_for(aw, mode[1])
                except TimeoutError:
                    sim.fault("requester timed out")
                    sim.probe("abandoned")
                    result[i] = ("timeout",)
                    log("gave up", i)
                    return
            else:
                async def w() -> Any:
                    return await aw

                t = asyncio.ensure_future(w())
                after(asyncio.get_running_loop(), mode[1], t.cancel)
                try:
                    v = await t
                except asyncio.CancelledError:
                    sim.fault("requester cancelled")
                    sim.probe("abandoned")
                    result[i] = ("cancelled",)
                    log("gave up", i)
                    return
            result[i] = ("value", v)
            if ended[a]:
                sim.probe("answer-after-stop")
            log("answer", i, key(v))
            if not replied[i]:
                flag("answer-before-reply", f"request {i} completed before any reply was sent")
            elif replied[i][0] is not v:
                flag("wrong-reply", f"request {i} got {key(v)} but the first reply was {key(replied[i][0])}")
        except asyncio.CancelledError:
            flag("cancelled", f"request {i} ended in cancellation although nobody cancelled it")
            raise
        except Exception as e:  # noqa: BLE001
            flag("request-raised", f"request {i} raised {e!r}")

    async def poster() -> None:
        for d, a in case["posts"]:
            await asyncio.sleep(d)
            boxes[a % na].post("plain")

    async def main(loop: Any) -> None:
        for a in range(na):
            if case["agents"][a].get("stop"):
                src = CancellationTokenSource()
                after(loop, case["agents"][a]["stop"], lambda a=a, src=src: stop(a, src))
                boxes.append(MailboxProcessor.start(agent(a), src.token))
            else:
                boxes.append(MailboxProcessor.start(agent(a)))
        ts = [asyncio.ensure_future(requester(i)) for i in range(len(reqs))]
        ts.append(asyncio.ensure_future(poster()))
        await loop.quiesce()
        for t in bg:
            t.result()

    sim.run(lambda: run_loop(sim, main))
    if bad:
        raise bad[0]
    for i, r in enumerate(reqs):
        if seen[i] != 1 and not (seen[i] == 0 and ended[r["agent"] % na]):
            raise Violation("request-count", f"request {i} reached its agent {seen[i]} times")
        st = result[i]
        if st[0] == "pending":
            if replied[i]:
                raise Violation("reply-lost", f"request {i} was answered with {key(replied[i][0])} but its requester still waits")
            sim.probe("no-reply")
    if len(reqs) > 30:
        sim.probe("many-requests")
    sim.nontrivial = len(reqs) > 1
