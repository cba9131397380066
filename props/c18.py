"""C18: pipelines, sequence/traverse and catch, shared by several threads, with failing and re-entrant steps."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, gen_sched, size
from sim.threads import Sim

from .aio import odd, value

ID = "C18"
TITLE = "railway steps"
QUICK = 15000
THOROUGH = 2500000
BATCH = 80
FAULTS = ("lib",)
RULE = ("Threads run shared result/option pipelines, traverse/sequence calls and catch-wrapped functions; each run has its own random plan of which step succeeds (with which value), fails, raises or "
        "runs the same pipeline again; random preemption schedule at bytecode granularity.")
PROBES = ["first-fails", "middle-fails", "last-fails", "all-ok", "step-raises", "reentrant", "empty-pipeline", "two-errors", "long-traverse", "catch-hit", "catch-sub", "catch-miss", "catch-base", "result-through",
          "preempted-in-run", "odd-value", "none-value", "option-nothing"]

KINDS = ["msg"] * 4 + ["odd", "none", "false", "zero", "empty", "tuple", "exc", "nan", "ok", "error", "some", "nothing", "type", "ni", "ell", "list", "dict", "true", "big", "stop", "aw"]
HOW = ["ok"] * 6 + ["fail", "raise", "re"]
CATCH = ["value", "value", "injected", "effect", "exc", "exc", "base", "baseexc", "arith", "lookup", "runtime", "os", "type", "assert"]
RAISE = ["value", "unicode", "injected", "base", "zerodiv", "overflow", "effect", "exc", "kbd", "stop", "key", "index", "rec", "notimpl", "notfound", "oserr", "type", "assert", "mem",
         "exit", "genexit", "astop", "group", "custom"]


def gen_run(rng: Random, n: int, kind: str) -> dict:
    r: dict[str, Any] = {"x": rng.choice(KINDS)}
    if kind in ("result", "option"):
        w = rng.choice([HOW, ["ok", "ok", "ok", "ok", "ok", "fail"], ["ok"], ["ok", "re"]])
        r["steps"] = [[rng.choice(w), rng.choice(KINDS)] for _ in range(n)]
        r["try"] = rng.random() < 0.2
    elif kind in ("traverse", "sequence"):
        m = size(rng, [0, 1, 2, 3, 5, 8])
        w = rng.choice([["ok"], ["ok", "ok", "fail"], ["ok"] * 7 + ["fail"]])
        r["items"] = [[rng.choice(w), rng.choice(KINDS)] for _ in range(m)]
        if kind == "traverse" and m and rng.random() < 0.15:
            r["items"] = [["ok", k] for _, k in r["items"]]
            r["items"][rng.randrange(m)][0] = "raise"
    else:
        r["how"] = rng.choice(["value", "value", "ok", "error", "success", "failure", "raise", "raise", "raise", "raise", "re"])
        r["exc"] = rng.choice(RAISE)
        r["v"] = rng.choice(KINDS)
        r["kw"] = rng.choice([0, 0, 1, 2, 3])
        r["ctx"] = rng.choice([None, None, None, "same", "value"])
        r["args"] = rng.choice([0, 1, 1, 2])
        r["cause"] = rng.choice([None, None, *CATCH])
    r["nested"] = rng.random() < 0.3
    return r


def generate(rng: Random, tier: str) -> dict:
    objs = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(["result", "result", "option", "option", "traverse", "sequence", "catch", "catch"])
        objs.append([k, size(rng, [0, 1, 1, 2, 3, 4, 6, 9], 0.01, (14, 20, 33)) if k in ("result", "option") else rng.choice(CATCH), rng.choice("df")])
    nt = rng.choice([1, 2, 2, 3])
    threads = []
    for _ in range(nt):
        rs = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            o = rng.randrange(len(objs))
            rs.append([o, gen_run(rng, objs[o][1] if isinstance(objs[o][1], int) else 0, objs[o][0])])
        threads.append(rs)
    return {"objs": objs, "threads": threads, "long": rng.choice([900, 3000]) if rng.random() < 0.002 else 0, "sched": gen_sched(rng, nt + 1, 300)}


def SHRINK(path: tuple) -> bool:
    return path[0] == "threads" and len(path) <= 3 or path[-1] == "items"


def execute(case: dict) -> None:
    from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success
    from expression.collections import Block
    from expression.core.error import EffectError
    from expression.extra.option import pipeline as opipe
    from expression.extra.result import catch, pipeline as rpipe, sequence, traverse

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=30_000_000)
    log = sim.log
    cnt = [0]

    def val(kind: str) -> Any:
        cnt[0] += 1
        if kind == "odd":
            sim.probe("odd-value")
        if kind == "none":
            sim.probe("none-value")
        m = {"ok": lambda: Ok(cnt[0]), "error": lambda: Error(cnt[0]), "some": lambda: Some(cnt[0]), "nothing": lambda: Nothing}
        return m[kind]() if kind in m else value(kind, cnt[0])

    EXC: dict[str, Any] = {"value": ValueError, "unicode": UnicodeError, "injected": Injected, "base": InjectedBase, "zerodiv": ZeroDivisionError, "overflow": OverflowError, "arith": ArithmeticError,
                           "effect": EffectError, "exc": Exception, "kbd": KeyboardInterrupt, "stop": StopIteration, "baseexc": BaseException}

    class Custom(ValueError):
        """An application's own exception, with a constructor of its own."""

        def __init__(self) -> None:
            super().__init__("custom", 7)

    EXC |= {"lookup": LookupError, "runtime": RuntimeError, "os": OSError, "type": TypeError, "assert": AssertionError, "key": KeyError, "index": IndexError, "rec": RecursionError,
            "notimpl": NotImplementedError, "notfound": FileNotFoundError, "oserr": OSError, "mem": MemoryError, "exit": SystemExit, "genexit": GeneratorExit, "astop": StopAsyncIteration}

    def mk(kind: str, n: int) -> BaseException:
        if kind == "custom":
            return Custom()
        if kind == "group":
            return ExceptionGroup("group", [ValueError("inner"), KeyError("inner")])
        return EXC[kind](*("x", cnt[0])[: 1 if kind in ("injected", "base") else n])

    # per thread stack of run contexts; the shared functions look up what to do there
    stack: dict[int, list[dict]] = {}

    def step(oi: int, si: int, opt: bool) -> Any:
        def f(x: Any) -> Any:
            c = stack[sim.cur.tid][-1]
            if c["at"] != si:
                raise Violation("order", f"step {si} ran when step {c['at']} was due")
            if c["done"]:
                raise Violation("after-failure", f"step {si} ran although an earlier step failed")
            if x is not c["x"]:
                raise Violation("argument", f"step {si} got {x!r} instead of {c['x']!r}")
            c["at"] += 1
            sim.point()
            how, k = c["steps"][si]
            if how == "re" and c["depth"] == 0:
                sim.probe("reentrant")
                run_pipe(oi, {"x": k, "steps": [[("ok" if h == "re" else h), kk] for h, kk in reversed(c["steps"])], "nested": False}, 1)
            if how == "raise":
                e = c["raised"] = Injected(("step", si, k))
                c["done"] = True
                sim.fault("step raises")
                sim.probe("step-raises")
                raise e
            if how == "fail":
                c["done"] = True
                sim.fault("step fails")
                if opt:
                    c["out"] = Nothing
                    sim.probe("option-nothing")
                    return Nothing
                e = val(k)
                c["err"] = e
                r = Failure(e) if c["try"] else Error(e)
                c["out"] = r
                return r
            v = val(k)
            c["x"] = v
            return Some(v) if opt else Success(v) if c["try"] else Ok(v)

        return odd(f, si)

    objs: list[Any] = []

    def run_pipe(oi: int, r: dict, depth: int) -> None:
        kind, n, _ = case["objs"][oi]
        opt = kind == "option"
        c: dict[str, Any] = {"x": val(r["x"]), "at": 0, "done": False, "steps": r["steps"], "depth": depth, "raised": None, "try": r.get("try")}
        st = stack.setdefault(sim.cur.tid, [])
        st.append(c)
        try:
            try:
                out = objs[oi](c["x"])
            finally:
                st.pop()
        except Violation:
            raise
        except Injected as e:
            if e is not c["raised"]:
                raise Violation("exception", f"the pipeline raised {e!r}; the step raised {c['raised']!r}")
            return
        except Exception as e:
            raise Violation("exception", f"the pipeline raised {e!r}")
        if c["raised"]:
            raise Violation("exception", f"a step raised but the pipeline returned {out!r}")
        if not isinstance(out, Option if opt else Result):
            raise Violation("result", f"the pipeline returned {out!r}")
        if n == 0:
            sim.probe("empty-pipeline")
        if c["done"]:
            sim.probe("first-fails" if c["at"] == 1 else "last-fails" if c["at"] == n else "middle-fails")
            if opt:
                if not out.is_none():
                    raise Violation("result", f"a step returned Nothing but the pipeline returned {out!r}")
            elif not out.is_error() or out.error is not c["err"]:
                raise Violation("result", f"step {c['at'] - 1} failed with {c['err']!r} but the pipeline returned {out!r}")
            return
        if c["at"] != n:
            raise Violation("order", f"only {c['at']} of {n} steps ran and none failed; the pipeline returned {out!r}")
        sim.probe("all-ok")
        if not (out.is_some() if opt else out.is_ok()) or (out.some if opt else out.ok) is not c["x"]:
            raise Violation("result", f"the last step gave {c['x']!r} but the pipeline returned {out!r}")

    def run_trav(oi: int, r: dict) -> None:
        kind = case["objs"][oi][0]
        vals = [(h, val(k)) for h, k in r["items"]]
        raised: list = []
        res = {"ok": Ok, "fail": Error}

        class Key:
            def __init__(self, i: int) -> None:
                self.i = i

        def fn(key: Any) -> Any:
            sim.point()
            h, v = vals[key.i]
            if h == "raise":
                raised.append(Injected(("traverse", len(raised), cnt[0])))
                sim.fault("step raises")
                raise raised[0]
            if r["nested"] and key.i == 1:
                sim.probe("reentrant")
                t = traverse(lambda x: Ok(x), Block([v, None]))
                if not t.is_ok() or tuple(t.ok)[0] is not v:
                    raise Violation("traverse", f"nested traverse gave {t!r}")
            return res[h](v)

        try:
            if kind == "traverse":
                out = traverse(fn, Block([Key(i) for i in range(len(vals))]))
            else:
                out = sequence(Block([res[h](v) for h, v in vals]))
        except Violation:
            raise
        except Injected as e:
            if not raised or e is not raised[0]:
                raise Violation("exception", f"traverse raised {e!r}")
            return
        except Exception as e:
            raise Violation("exception", f"{kind} of {vals!r} raised {e!r}")
        errs = [v for h, v in vals if h == "fail"]
        if raised:
            raise Violation("exception", f"the function raised but {kind} returned {out!r}")
        if len(errs) > 1:
            sim.probe("two-errors")
        if not isinstance(out, Result):
            raise Violation("traverse", f"{kind} returned {out!r}")
        if errs:
            sim.fault("step fails")
            if not out.is_error() or out.error is not errs[0]:
                raise Violation("traverse", f"{kind} of {vals!r} gave {out!r} instead of the error {errs[0]!r}")
        else:
            if not out.is_ok() or not isinstance(out.ok, Block):
                raise Violation("traverse", f"{kind} of {vals!r} gave {out!r}")
            got = tuple(out.ok)
            if len(got) != len(vals) or any(a is not b for a, (_, b) in zip(got, vals)):
                raise Violation("traverse", f"{kind} of {vals!r} gave {got!r}")

    def body(oi: int) -> Any:
        def f(*a: Any, **k: Any) -> Any:
            c = stack[sim.cur.tid][-1]
            c["calls"] += 1
            if a != (c["arg"],) or k != c["kw"] or a[0] is not c["arg"]:
                raise Violation("argument", f"the wrapped function got {a!r} {k!r}")
            sim.point()
            how = c["how"]
            if how == "re" and c["depth"] == 0:
                sim.probe("reentrant")
                run_catch(oi, {"how": "raise", "exc": "unicode", "v": "none", "kw": False}, 1)
            if how == "raise":
                sim.fault("wrapped function raises")
                if c["ctx"]:  # raised while another exception was being handled
                    try:
                        raise type(c["e"])(*c["e"].args) if c["ctx"] == "same" else ValueError("context")
                    except BaseException:
                        raise c["e"]
                raise c["e"]
            return c["v"]

        return odd(f, oi)

    def run_catch(oi: int, r: dict, depth: int) -> None:
        cls = EXC[case["objs"][oi][1]]
        v = val(r["v"])
        if r["how"] == "ok":
            v = Ok(v)
        elif r["how"] == "error":
            v = Error(v)
        elif r["how"] == "success":
            v = Success(v)
        elif r["how"] == "failure":
            v = Failure(v)
        c: dict[str, Any] = {"calls": 0, "how": r["how"], "v": v, "depth": depth, "e": mk(r["exc"], r.get("args", 1)), "arg": object(), "kw": [{}, {"k": 1}, {"k": None}, {"k": 0, "x": None}][int(r["kw"])], "ctx": r.get("ctx")}
        if r.get("cause"):
            c["e"].__cause__ = EXC[r["cause"]]("cause")
        st = stack.setdefault(sim.cur.tid, [])
        st.append(c)
        try:
            try:
                out = objs[oi](c["arg"], **c["kw"])
            finally:
                st.pop()
        except Violation:
            raise
        except BaseException as e:
            if e is not c["e"] or r["how"] != "raise":
                if isinstance(e, (Exception, InjectedBase, KeyboardInterrupt, SystemExit, GeneratorExit)):
                    raise Violation("exception", f"the wrapped function's call raised {e!r}")
                raise
            if isinstance(e, cls):
                raise Violation("catch", f"{e!r} was not turned into an Error by catch(exception={cls.__name__})")
            sim.probe("catch-miss" if isinstance(e, Exception) else "catch-base")
            return
        if c["calls"] != 1:
            raise Violation("catch", f"the wrapped function ran {c['calls']} times")
        if not isinstance(out, Result):
            raise Violation("catch", f"the wrapped function gave {out!r}")
        if r["how"] == "raise":
            if not isinstance(c["e"], cls):
                raise Violation("catch", f"{c['e']!r} was swallowed by catch(exception={cls.__name__}): {out!r}")
            if not out.is_error() or out.error is not c["e"]:
                raise Violation("catch", f"{c['e']!r} became {out!r}")
            sim.probe("catch-hit" if type(c["e"]) is cls else "catch-sub")
            return
        if isinstance(v, Result):
            sim.probe("result-through")
            if v.is_ok() != out.is_ok() or (out.ok is not v.ok if v.is_ok() else out.error is not v.error):
                raise Violation("catch", f"the wrapped function returned {v!r} but the call gave {out!r}")
        elif not out.is_ok() or out.ok is not v:
            raise Violation("catch", f"the wrapped function returned {v!r} but the call gave {out!r}")

    for oi, (kind, a, form) in enumerate(case["objs"]):
        if kind == "result":
            objs.append(rpipe(*[step(oi, i, False) for i in range(a)]))
        elif kind == "option":
            objs.append(opipe(*[step(oi, i, True) for i in range(a)]))
        elif kind == "catch":
            objs.append(catch(exception=EXC[a])(body(oi)) if form == "d" else catch(body(oi), exception=EXC[a]))
        else:
            objs.append(None)

    def thread(rs: list) -> Any:
        def run() -> None:
            for oi, r in rs:
                kind = case["objs"][oi][0]
                log("run", sim.cur.tid, kind, oi)
                sw = sim.switches
                if kind in ("result", "option"):
                    run_pipe(oi, r, 0)
                elif kind == "catch":
                    run_catch(oi, r, 0)
                    if r["nested"]:
                        run_catch(oi, r, 0)
                else:
                    run_trav(oi, r)
                if sim.switches != sw:
                    sim.probe("preempted-in-run")

        return run

    def long_run(n: int) -> None:
        sim.probe("long-traverse")
        try:
            out = traverse(lambda x: Ok(x + 1), Block(range(n)))
            if not out.is_ok() or tuple(out.ok) != tuple(range(1, n + 1)):
                raise Violation("traverse", f"traverse of {n} elements gave {out!r}"[:300])
            out = sequence(Block([Error(i) if i in (n - 2, n - 1) else Ok(i) for i in range(n)]))
            if not out.is_error() or out.error != n - 2:
                raise Violation("traverse", f"sequence of {n} elements gave {out!r}"[:300])
        except RecursionError:
            raise Violation("traverse", f"traverse of {n} elements exhausts the stack")

    def main() -> None:
        if case.get("long"):
            return long_run(case["long"])
        ts = [sim.spawn(thread(rs)) for rs in case["threads"]]
        for t in ts:
            sim.join(t)

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
