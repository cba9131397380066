"""C12: sync effect blocks against the sequential meaning of their bodies, from several threads."""

from __future__ import annotations

import inspect
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, SimAbort, Violation, gen_sched
from sim.threads import Sim

from .effects import OPT, Cx, Quiet, RefCx, Root, emit, gen_fns, load, outcome, ref_fns, same

ID = "C12"
TITLE = "sync effects"
QUICK = 15000
THOROUGH = 2000000
BATCH = 80
FAULTS = ("lib",)
RULE = ("Random effect bodies (yield, yield from Some/Ok/Nothing/Error/sequences, nested and recursive effects, loops, try/finally, except, return, raise) "
        "compiled and decorated; several threads call the same functions at once under a random preemption schedule at bytecode granularity.")
PROBES = ["short", "no-yield", "body-raised", "nested", "concurrent-same", "finally", "zero", "seq", "long-body", "preempted-in-call"]


def generate(rng: Random, tier: str) -> dict:
    fns = gen_fns(rng, ["option", "option", "result", "result", "try_", "seq", "seq"])
    if rng.random() < 0.002:
        body = [["loop", rng.choice([300, 1100]), [["yield", "msg"]]], ["return", rng.choice(["none", "msg"])]]
        fns = [{"kind": rng.choice(["seq", "seq", "option", "result"]), "plain": False, "body": body, "single": False}]
        return {"fns": fns, "threads": [[0], [0]], "sched": {"mode": "few", "seed": rng.randrange(1 << 30), "k": 4, "depth": 50000, "n": 3}}
    nt = rng.choice([1, 2, 2, 3, 4])
    threads = [[rng.randrange(len(fns)) for _ in range(rng.randint(1, 3))] for _ in range(nt)]
    return {"fns": fns, "threads": threads, "sched": gen_sched(rng, nt + 1, 500)}


def SHRINK(path: tuple) -> bool:
    return path == ("threads",) or path[0] == "threads" or path[-1] == "body" or (path[0] == "fns" and len(path) > 3)


def execute(case: dict) -> None:
    from expression import Error, Nothing, Ok, Some, effect

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1)
    log = sim.log
    fns = case["fns"]

    class RealCx(Cx):
        def w(self, spec: Any) -> None:
            self.root.nw += 1
            sim.point()

        def ok(self, kind: str) -> Any:
            return (Some if self.kind in OPT else Ok)(self.v(kind))

        def vs(self, kinds: list) -> Any:
            from expression.collections import Seq

            xs = Cx.vs(self, kinds)
            return Seq(xs) if len(xs) % 2 else (x for x in xs)

        def fail(self, k: int) -> Any:
            e = self.err(k)
            sim.probe("short")
            log("short")
            return Nothing if self.kind in OPT else Error(e)

    F: list = []
    builders: dict = {}
    for i, f in enumerate(fns):
        kind = f["kind"]
        body = load(emit(fns, i, False), {"F": F, "Injected": Injected, "InjectedBase": InjectedBase, "Cancelled": InjectedBase})
        if not inspect.isgeneratorfunction(body):
            sim.probe("no-yield")
        if kind == "seq":
            sim.probe("seq")
        if any(s[0] == "loop" and s[1] > 100 for s in f["body"]):
            sim.probe("long-body")
        B = getattr(effect, kind)
        b = builders.setdefault(kind, B()) if f["single"] else B()
        dec = b(body)

        def call(cx: Any, *a: Any, dec: Any = dec, kind: str = kind, **k: Any) -> Any:
            cx.kind = kind
            if cx.depth:
                sim.probe("nested")
            return dec(cx, *a, **k)

        F.append(call)

    calls = [(t, n, j % len(fns)) for t, js in enumerate(case["threads"]) for n, j in enumerate(js)]
    roots = {(t, n): Root({}) for t, n, _ in calls}
    outs: dict = {}
    active: dict[int, int] = {}

    def thread(t: int, js: list) -> Any:
        def run() -> None:
            for n, j in enumerate(js):
                j %= len(fns)
                if active.get(j):
                    sim.probe("concurrent-same")
                active[j] = active.get(j, 0) + 1
                sw = sim.switches
                log("call", t, n, j)
                out = outcome(lambda: F[j](RealCx(roots[t, n], 0, "", sim), n, k=("k", n)))
                if sim.switches != sw:
                    sim.probe("preempted-in-call")
                active[j] -= 1
                if out[0] == "value" and fns[j]["kind"] == "seq":
                    one = outcome(lambda: list(out[1]))
                    two = outcome(lambda: list(out[1]))
                    if two[0] != one[0] or one[0] == "value" and not (len(one[1]) == len(two[1]) and all(x is y for x, y in zip(one[1], two[1]))):
                        out = ("seq iterated twice", (one, two))
                    else:
                        out = one
                outs[t, n] = out
                log("out", t, n, out[0])

        return run

    def main() -> None:
        ts = [sim.spawn(thread(t, js)) for t, js in enumerate(case["threads"])]
        for t in ts:
            sim.join(t)

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
    RF = ref_fns(fns)
    for t, n, j in calls:
        root = roots[t, n]
        ref = Root(root.memo)
        want = outcome(lambda: RF[j](RefCx(ref, 0, "", Quiet()), n, k=("k", n)))
        got = outs[t, n]
        who = f"thread {t} call {n} of fn {j}"
        ev, rv = root.ev, ref.ev
        for k in range(max(len(ev), len(rv))):
            a, b = ev[k] if k < len(ev) else None, rv[k] if k < len(rv) else None
            if a is None:
                raise Violation("skipped", f"{who}: the body did not reach step {k}: {b!r} (outcome {got!r})")
            if b is None:
                raise Violation("extra", f"{who}: the body went on with {a!r} after step {k}")
            if not same(a, b):
                raise Violation("step", f"{who}: step {k} was {a!r} instead of {b!r}")
            if a == ("m", "fin"):
                sim.probe("finally")
        if got[0] != want[0]:
            raise Violation("outcome", f"{who}: gave {got!r} instead of {want!r}"[:400])
        if got[0] == "exc":
            sim.probe("body-raised")
            if got[1] is not want[1]:
                raise Violation("exception", f"{who}: raised {got[1]!r} instead of {want[1]!r}")
        elif got[0] == "value":
            if not same(got[1], want[1]):
                raise Violation("value", f"{who}: gave {got[1]!r} instead of {want[1]!r}"[:400])
            if fns[j]["kind"] != "seq" and (want[1].tag == "none" or want[1].v is None):
                sim.probe("zero")
