"""C20: pipe, compose, curry, curry_flip, pipeable and friends against direct application; partial applications shared by threads, functions failing."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, focused, gen_sched
from sim.threads import Sim

from .aio import SPECIAL, Falsy, Msg, Odd, odd

ID = "C20"
TITLE = "pipe, compose and currying"
QUICK = 80000
THOROUGH = 3000000
BATCH = 150
FAULTS = ("lib", "effect", "base", "stop")
RULE = ("Threads build and apply curried functions, flipped ones, compositions and pipelines kept in one shared pool, applying every stage of a partial application many times with different arguments; "
        "the functions fail, re-enter the same stage or return falsy values and tuples; random preemption at bytecode granularity; some compositions have thousands of functions.")
PROBES = ["function-fails", "reentrant", "preempted-in-op", "stage-reused", "keywords", "empty-pipe", "long", "nested-composition", "star", "falsy-result", "foreign-stage"]

OPS = ["curry", "curry", "flip2", "flip2", "pipeable", "apply", "apply", "apply", "apply", "apply", "compose", "compose", "call", "call", "pipe", "mpipe", "starcompose", "starpipe", "pipe2", "pipe3",
       "flip", "fst", "snd", "identity", "starid"]
PAY = ["msg", "msg", "odd", "falsy", "tuple", *SPECIAL]


def gen_op(rng: Random, depth: int = 0) -> dict:
    op = rng.choice(OPS)
    o: dict = {"op": op, "s": rng.choice([rng.randrange(64), rng.randrange(64), -1]), "v": [rng.choice(PAY) for _ in range(3)], "rets": [rng.choice(["msg", "msg", "arg", "falsy", "none", "pair"]) for _ in range(3)]}
    if op in ("curry", "flip2"):
        o["n"] = rng.choice([0, 1, 1, 2, 2, 3, 4])
    o["npos"] = rng.choice([0, 1, 1, 2])
    o["kw"] = rng.choice([0, 0, 1, 2])
    if op in ("compose", "pipe", "mpipe", "starcompose", "starpipe", "pipe2", "pipe3"):
        o["fs"] = [rng.randrange(64) for _ in range(rng.choice([0, 1, 2, 3, 4, 7]))]
        if rng.random() < 0.004 and op in ("compose", "pipe"):
            o["rep"] = rng.choice([400, 1500])
    if rng.random() < 0.2:
        o["fail"] = [rng.choice([0, 0, 1, 2]), rng.choice(["E", "E", "B"])]
    if depth < 2 and rng.random() < 0.12:
        o["re"] = gen_op(rng, depth + 1)
        if rng.random() < 0.7:
            o["re"]["op"] = rng.choice(["apply", "call"])
            o["re"]["s"] = o["s"]
    return o


def generate(rng: Random, tier: str) -> dict:
    nt = rng.choice([1, 1, 2, 3])
    op = focused(rng, lambda: gen_op(rng), always=("apply", "call"))
    return {"threads": [[op() for _ in range(rng.choice([3, 6, 10, 16]))] for _ in range(nt)], "sched": gen_sched(rng, nt + 1, 300)}


def SHRINK(path: tuple) -> bool:
    return path[0] == "threads" and path[-1] not in ("fail", "v", "rets")


def execute(case: dict) -> None:
    from expression import compose, curry, curry_flip, flip, fst, identity, pipe, pipeable, snd
    from expression.core import PipeMixin, pipe2, pipe3
    from expression.core.misc import starid
    from expression.core.pipe import starpipe
    from expression.core.compose import starcompose

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=6_000_000)
    log = sim.log
    counter = [0]

    class Pm(PipeMixin):
        def __repr__(self) -> str:
            return "Pm"

    def pay(kind: str) -> Any:
        counter[0] += 1
        n = counter[0]
        if kind in ("msg", "odd", "falsy"):
            return {"msg": Msg, "odd": Odd, "falsy": Falsy}[kind](n)
        return SPECIAL[kind]

    stack: dict[int, list[dict]] = {}
    nbase = [0]

    def call(i: int, width: int, a: tuple, kw: dict) -> Any:
        tid = sim.cur.tid
        fr = stack[tid][-1]
        o = fr["o"]
        n = len(fr["calls"])
        if fr["exc"] is not None:
            raise Violation("called-again", f"{o['op']} called a function after one had failed")
        fr["calls"].append((i, a, kw))
        if "re" in o and n == 0:
            sim.probe("reentrant")
            do(o["re"], tid)
        if "fail" in o and o["fail"][0] == n:
            sim.probe("function-fails")
            sim.fault("function fails")
            fr["exc"] = (Injected if o["fail"][1] == "E" else InjectedBase)((o["op"], counter[0]))
            raise fr["exc"]
        if width:
            r: Any = tuple(pay(o["v"][(n + j) % 3]) for j in range(width))
            if n % 4 == 3:
                r = list(r)
        else:
            k = o["rets"][n % 3]
            if k in ("falsy", "none"):
                sim.probe("falsy-result")
            r = (a[0] if a else None) if k == "arg" else (Msg(n), Odd(n)) if k == "pair" else pay(k)
        fr["rets"].append(r)
        return r

    def base(width: int = 0) -> tuple[int, Any]:
        nbase[0] += 1
        i = nbase[0]

        def fn(*a: Any, **kw: Any) -> Any:
            return call(i, width, a, kw)

        return i, odd(fn, i)

    unary: list[tuple] = []  # (function, ids of the base functions, in order)
    stages: list[dict] = []  # partial applications
    stars: list[tuple] = []  # (function, id)
    for _ in range(4):
        i, f = base()
        unary.append((f, [i]))
    for w in (1, 2, 3, 0):
        i, f = base(w)
        stars.append((f, i))

    def do(o: dict, tid: int) -> None:
        op = o["op"]
        v = [pay(x) for x in o["v"]]
        pos = tuple(v[j % 3] for j in range(o["npos"]))
        kws = {c: v[(j + 1) % 3] for j, c in zip(range(o["kw"]), ("x", "b"))}
        fs = [unary[j % len(unary)] for j in o.get("fs", [])]
        if "rep" in o and fs:
            sim.probe("long")
            fs = (fs * o["rep"])[: o["rep"]]
            fs = [e if len(e[1]) == 1 else unary[0] for e in fs]
        ids = [i for _, m in fs for i in m]
        ss = [stars[j % len(stars)] for j in o.get("fs", [])]
        frame = {"o": o, "calls": [], "rets": [], "exc": None}
        got: Any = None
        err: Any = None
        want: Any = None
        nxt: Any = None

        calls: list[tuple] = []

        def ask(i: int, a: tuple, kw: dict | None = None) -> Any:
            kw = kw or {}
            calls.append(())
            n = len(calls) - 1
            if n >= len(frame["calls"]):
                raise Violation(op, f"{op}: a function was not called")
            i2, a2, kw2 = frame["calls"][n]
            if i2 != i:
                raise Violation(op, f"{op}: call {n} was of function {i2} instead of {i}")
            if len(a) != len(a2) or any(p is not q for p, q in zip(a, a2)) or set(kw) != set(kw2) or any(kw[c] is not kw2[c] for c in kw):
                raise Violation(op, f"{op}: a function got {a2!r} {kw2!r} instead of {a!r} {kw!r}"[:300])
            if n >= len(frame["rets"]):
                raise frame["exc"]
            return frame["rets"][n]

        def chain(x: Any, seq: list) -> Any:
            for i in seq:
                x = ask(i, (x,))
            return x

        def star(x: Any, seq: list) -> Any:
            for i in seq:
                x = ask(i, tuple(x))
            return x

        x = v[0]
        table: Any = None
        stack[tid].append(frame)
        sw = sim.switches
        try:
            try:
                if op == "curry":
                    i, f = base()
                    nxt = {"kind": "curry", "fn": curry(o["n"])(f), "i": i, "left": o["n"], "args": (), "tail": ((), {}), "uses": 0, "tid": tid}
                elif op == "flip2":
                    i, f = base()
                    nxt = {"kind": "flip", "fn": curry_flip(o["n"])(f), "i": i, "left": o["n"], "args": (), "tail": None, "uses": 0, "tid": tid}
                elif op == "pipeable":
                    i, f = base()
                    nxt = {"kind": "flip", "fn": pipeable(f, *pos, **{c: z for c, z in kws.items()}), "i": i, "left": 1, "args": (),
                           "tail": (pos, {c: z for c, z in kws.items()}), "uses": 0, "tid": tid}
                elif op == "apply":
                    if not stages:
                        return
                    st = stages[o["s"] % len(stages)]
                    st["uses"] += 1
                    if st["uses"] > 1:
                        sim.probe("stage-reused")
                    if st["tid"] != tid:
                        sim.probe("foreign-stage")
                    if kws:
                        sim.probe("keywords")
                    if st["kind"] == "curry":
                        if st["left"]:
                            nxt = dict(st, fn=st["fn"](x), args=(*st["args"], x), left=st["left"] - 1, uses=0, tid=tid)
                        else:
                            table = lambda: ask(st["i"], st["args"] + pos, kws)  # noqa: E731
                            got = st["fn"](*pos, **kws)
                    elif st["tail"] is None:
                        if st["left"]:
                            nxt = dict(st, fn=st["fn"](*pos, **kws), tail=(pos, kws), uses=0, tid=tid)
                        else:
                            table = lambda: ask(st["i"], pos, kws)  # noqa: E731
                            got = st["fn"](*pos, **kws)
                    elif st["left"] > 1:
                        nxt = dict(st, fn=st["fn"](x), args=(*st["args"], x), left=st["left"] - 1, uses=0, tid=tid)
                    else:
                        table = lambda: ask(st["i"], (*st["args"], x, *st["tail"][0]), st["tail"][1])  # noqa: E731
                        got = st["fn"](x)
                elif op == "compose":
                    f = compose(*[e[0] for e in fs])
                    if any(len(e[1]) > 1 for e in fs):
                        sim.probe("nested-composition")
                    if len(unary) < 24 and len(ids) < 40:
                        unary.append((f, ids))
                    table = lambda: chain(x, ids)  # noqa: E731
                    got = f(x)
                elif op == "call":
                    f, m = unary[o["s"] % len(unary)]
                    table = lambda: chain(x, m)  # noqa: E731
                    got = f(x)
                elif op == "pipe":
                    if not fs:
                        sim.probe("empty-pipe")
                    table = lambda: chain(x, ids)  # noqa: E731
                    got = pipe(x, *[e[0] for e in fs])
                elif op == "mpipe":
                    x = Pm()
                    table = lambda: chain(x, ids)  # noqa: E731
                    got = x.pipe(*[e[0] for e in fs])
                elif op in ("starcompose", "starpipe"):
                    # only the last of a chain may return something that is not a tuple
                    sim.probe("star")
                    ss = [s for s in ss[:-1] if s is not stars[3]] + ss[-1:]
                    sids = [s[1] for s in ss]
                    x = tuple(v)
                    table = lambda: star(x, sids)  # noqa: E731
                    got = starcompose(*[s[0] for s in ss])(x) if op == "starcompose" else starpipe(x, *[s[0] for s in ss])
                    if not ss:
                        if type(got) is not tuple or len(got) != 3 or any(p is not q for p, q in zip(got, x)):
                            raise Violation(op, f"{op} of no function gave {got!r}")
                        return
                elif op in ("pipe2", "pipe3"):
                    w = int(op[-1])
                    i, f = base()
                    x = tuple(v[:w])
                    p = pipe2 if w == 2 else pipe3
                    table = lambda: chain(ask(i, x), ids) if fs else x  # noqa: E731
                    got = p(x, *([curry(w - 1)(f)] if fs else []), *[e[0] for e in fs])
                elif op == "flip":
                    i, f = base()
                    table = lambda: ask(i, (v[1], v[0]))  # noqa: E731
                    got = flip(f)(v[0], v[1])
                elif op == "fst":
                    got, want = fst((v[0], v[1])), v[0]
                    table = lambda: want  # noqa: E731
                elif op == "snd":
                    got, want = snd((v[0], v[1])), v[1]
                    table = lambda: want  # noqa: E731
                elif op == "identity":
                    table = lambda: x  # noqa: E731
                    got = identity(x)
                elif op == "starid":
                    got = starid(*v)
                    if type(got) is not tuple or len(got) != 3 or any(p is not q for p, q in zip(got, v)):
                        raise Violation(op, f"starid gave {got!r}")
                    return
            finally:
                stack[tid].pop()
        except (Injected, InjectedBase) as ex:
            err = ex
        if sim.switches != sw:
            sim.probe("preempted-in-op")
        log(op, len(frame["calls"]), type(err).__name__ if err else "")
        if nxt is not None:
            if frame["calls"]:
                raise Violation(op, f"{op}: the function was called before all its arguments were given")
            if not callable(nxt["fn"]):
                raise Violation(op, f"{op}: a partial application is {nxt['fn']!r}")
            if len(stages) < 40:
                stages.append(nxt)
            return
        if err is not frame["exc"]:
            raise Violation("exception", f"{op}: a function raised {frame['exc']!r}, the outcome is {err!r} {got!r}"[:300])
        try:
            want = table()
        except (Injected, InjectedBase):
            pass
        if len(calls) != len(frame["calls"]):
            raise Violation(op, f"{op} made {len(frame['calls'])} calls instead of {len(calls)}")
        if err is None and got is not want:
            raise Violation(op, f"{op} gave {got!r} instead of {want!r}"[:300])

    def thread(ops: list) -> Any:
        def run() -> None:
            stack[sim.cur.tid] = []
            for o in ops:
                do(o, sim.cur.tid)

        return run

    def main() -> None:
        ts = [sim.spawn(thread(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
