"""C05: disposables under concurrent disposal."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, gen_sched
from sim.threads import Sim

from .aio import odd

ID = "C05"
TITLE = "disposable once"
QUICK = 50000
THOROUGH = 3000000
BATCH = 100
FAULTS = ("lib", "effect", "base", "stop")
RULE = ("Random programs of 1-4 threads disposing / entering 1-4 shared disposables whose actions fail, re-enter, dispose each other or wait "
        "for another thread's dispose to return; random preemption schedule at bytecode granularity.")
PROBES = ["cross", "waits", "enter-refused", "concurrent-dispose", "action-raised", "body-raised"]


def generate(rng: Random, tier: str) -> dict:
    nd = rng.choice([1, 1, 2, 2, 3, 4])
    nt = rng.choice([1, 2, 2, 3, 3, 4])
    actions = []
    for d in range(nd):
        a: dict[str, Any] = {}
        if rng.random() < 0.25:
            a["raise"] = rng.choice(["E", "E", "B"])
        if rng.random() < 0.4:
            a["disp"] = [rng.randrange(nd) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.2:
            a["point"] = 1
        if rng.random() < 0.15:
            a["wait"] = rng.choice([["dispose", d], ["with", d], ["dispose", rng.randrange(nd)]])
        actions.append(a)

    def op(depth: int) -> list:
        d = rng.randrange(nd)
        if rng.random() < 0.6:
            return ["dispose", d]
        return ["with", d, rng.choice([0, 0, 0, "E", "B"]), [op(depth + 1) for _ in range(rng.choice([0, 0, 1, 2]))] if depth < 2 else []]

    threads = [[op(0) for _ in range(rng.randint(1, 4))] for _ in range(nt)]
    return {"actions": actions, "threads": threads, "sched": gen_sched(rng, nt + 1, 150)}


def SHRINK(path: tuple) -> bool:
    return path != ("actions",)


def execute(case: dict) -> None:
    from expression.system import Disposable, ObjectDisposedException

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1)
    log = sim.log
    INF = 1 << 60
    acts = case["actions"]
    nd = len(acts)
    runs = [0] * nd
    excs: list[Any] = [None] * nd
    raised_to: list[list] = [[] for _ in range(nd)]
    inv1 = [INF] * nd
    ret1 = [INF] * nd
    bad: list[Violation] = []
    gates: dict[int, tuple] = {}
    ds: list[Any] = []
    local: dict[int, list] = {}  # per thread: stack of disposables whose dispose call is in progress
    running: dict[int, int] = {}  # disposable -> how many dispose calls are in progress

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def make_action(d: int) -> Any:
        def action() -> None:
            runs[d] += 1
            log("action", d)
            if runs[d] > 1:
                flag("action-twice", f"the action of disposable {d} ran {runs[d]} times")
                return
            st = local.get(sim.cur.tid) or []
            if d not in st:
                flag("action-elsewhere", f"action {d} ran outside any dispose call of its own")
            a = acts[d]
            if a.get("point"):
                sim.point()
            for j in a.get("disp", ()):
                if j >= nd:
                    continue
                sim.probe("cross")
                try:
                    dispose(j)
                except (Injected, InjectedBase) as e:
                    log("inner", j, e.tag)
            if a.get("wait"):
                sim.probe("waits")
                asked, answered = gates[d]
                asked.set()
                answered.wait()
            log("action-end", d)
            if a.get("raise"):
                e = (Injected if a["raise"] == "E" else InjectedBase)(d)
                sim.fault("action raises")
                excs[d] = e
                raise e

        return action

    def dispose(d: int) -> None:
        tid = sim.cur.tid
        st = local.setdefault(tid, [])
        inv1[d] = min(inv1[d], log("dispose?", d))
        if running.get(d):
            sim.probe("concurrent-dispose")
        running[d] = running.get(d, 0) + 1
        st.append(d)
        try:
            r = ds[d].dispose()
        except (Injected, InjectedBase) as e:
            raised_to[d].append(e)
            sim.probe("action-raised")
            if e is not excs[d]:
                flag("wrong-exception", f"dispose of {d} raised an exception that its action did not raise")
            raise
        finally:
            st.pop()
            running[d] -= 1
            ret1[d] = min(ret1[d], log("dispose!", d))

    def use(d: int, braise: Any, body: list) -> None:
        tid = sim.cur.tid
        st = local.setdefault(tid, [])
        inv = log("enter?", d)
        entered = left = False
        boom = None
        if braise:
            boom = (Injected if braise == "E" else InjectedBase)(("body", d))
        try:
            with ds[d] as w:
                entered = True
                if w is not ds[d]:
                    flag("enter-value", f"entering disposable {d} gave {w!r}, not the disposable")
                log("enter!", d)
                if ret1[d] < inv:
                    flag("enter-after-dispose", f"entering disposable {d} after its disposal did not raise")
                for b in body:
                    do(b)
                left = True
                inv1[d] = min(inv1[d], log("exit?", d))
                st.append(d)
                running[d] = running.get(d, 0) + 1
                if boom is not None:
                    sim.fault("with-body raises")
                    sim.probe("body-raised")
                    raise boom
            if boom is not None:
                flag("swallowed", f"the with-block of disposable {d} swallowed the body's exception")
        except (Injected, InjectedBase, ObjectDisposedException) as e:
            if e is boom:
                pass
            elif e is excs[d]:
                raised_to[d].append(e)
            elif isinstance(e, ObjectDisposedException) and not isinstance(e, Injected):
                if entered:
                    flag("exit-raised", f"leaving the with-block of {d} raised ObjectDisposedException")
                sim.probe("enter-refused")
                if inv1[d] == INF:
                    flag("enter-raised", f"entering disposable {d} raised although nobody disposed it")
            else:
                flag("wrong-exception", f"leaving the with-block of {d} raised {e!r}")
        finally:
            if left:
                st.pop()
                running[d] -= 1
                ret1[d] = min(ret1[d], log("exit!", d))

    def do(o: list) -> None:
        d = o[1]
        if d >= nd:
            return
        if o[0] == "dispose":
            try:
                dispose(d)
            except (Injected, InjectedBase):
                pass
        else:
            use(d, o[2], o[3])

    def helper(d: int, what: list) -> None:
        asked, answered = gates[d]
        asked.wait()
        if runs[d]:
            do(["dispose", what[1]] if what[0] == "dispose" else ["with", what[1], 0, []])
        answered.set()

    def main() -> None:
        for d in range(nd):
            ds.append(Disposable.create(odd(make_action(d), d)))
        for d in range(nd):
            w = acts[d].get("wait")
            if w:
                gates[d] = (sim.event(), sim.event())
                sim.spawn(lambda d=d, w=w: helper(d, w))
        ts = [sim.spawn(lambda ops=ops: [do(o) for o in ops]) for ops in case["threads"]]
        for t in ts:
            sim.join(t)
        for a, _ in gates.values():
            a.set()

    sim.run(main)
    if bad:
        raise bad[0]
    for d in range(nd):
        want = 1 if inv1[d] < INF else 0
        if runs[d] != want:
            raise Violation("action-count", f"the action of disposable {d} ran {runs[d]} times, expected {want}")
        if excs[d] is not None and len(raised_to[d]) != 1:
            raise Violation("exception-routing", f"the exception of action {d} reached {len(raised_to[d])} disposers, expected 1")
