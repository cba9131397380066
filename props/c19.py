"""C19: Option, Result and Try combinators against their case tables, values and partial applications shared by threads, callbacks failing."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, focused, gen_sched
from sim.threads import Sim

from .aio import SPECIAL, Falsy, Msg, Odd, odd

ID = "C19"
TITLE = "Option and Result combinators"
QUICK = 40000
THOROUGH = 3000000
BATCH = 150
FAULTS = ("lib", "effect", "base", "stop")
RULE = ("Threads apply random combinators to a shared pool of Option, Result and Try values (payloads: None, falsy, equal-to-everything, nested) and add the results to it, in method form, "
        "function form and through partial applications shared by all threads; callbacks raise, re-enter the same partial application, or return falsy values; random preemption at bytecode granularity.")
PROBES = ["callback-fails", "reentrant", "preempted-in-op", "shared-partial", "nothing", "none-payload", "nested-payload", "try", "both-error", "falsy-predicate", "of-none"]

OPT = ["default_value", "default_with", "map", "map2", "apply", "starmap", "bind", "or_else", "or_else_with", "filter", "to_list", "to_seq", "is_some", "is_none", "to_optional",
       "to_result", "to_result_with", "value", "dict", "default_arg", "of_optional", "of_obj", "of_result", "pipe", "some"]
RES = ["default_value", "default_with", "map", "map2", "apply", "map_error", "bind", "is_ok", "is_error", "filter", "filter_with", "dict", "swap", "or_else", "or_else_with", "merge",
       "to_option", "of_option", "of_option_with", "pipe", "ok", "error"]
# operations whose function form is a partial application waiting for the value
PART = {"o": ["default_value", "default_with", "map", "map2", "apply", "starmap", "bind"],
        "r": ["default_value", "default_with", "map", "map2", "apply", "map_error", "bind", "filter", "filter_with", "or_else", "or_else_with"]}
PAY = ["msg", "msg", "odd", "falsy", "pair", "pair", "opt", "res", *SPECIAL]
RETS = ["msg", "arg", "arg", "odd", "falsy", "none", "false", "zero", "opt", "res", "type"]


def gen_op(rng: Random, depth: int = 0) -> dict:
    k = rng.choice("or")
    op = rng.choice(OPT if k == "o" else RES)
    o: dict = {"k": k, "op": op, "s": rng.choice([rng.randrange(64), rng.randrange(64), -1]), "s2": rng.choice([rng.randrange(64), -1]),
               "form": rng.choice("mmffp"), "v": rng.choice(PAY), "rets": [rng.choice(RETS) for _ in range(3)], "bits": [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(3)]}
    if o["form"] == "p":
        o["op"] = rng.choice(PART[k])
        o["part"] = rng.randrange(2)
    if rng.random() < 0.2:
        o["fail"] = [rng.choice([0, 0, 0, 1]), rng.choice(["E", "E", "B"])]
    if depth < 2 and rng.random() < 0.1:
        o["re"] = dict(gen_op(rng, depth + 1))
        if rng.random() < 0.7:
            o["re"].update({x: o[x] for x in ("k", "op", "form", "part") if x in o})
    return o


def generate(rng: Random, tier: str) -> dict:
    nt = rng.choice([1, 1, 2, 3])
    init = [[rng.choice(["some", "nothing", "nothing2"] if i % 2 else ["ok", "error", "ok", "error", "success", "failure"]), rng.choice(PAY)] for i in range(rng.choice([4, 6, 8]))]
    op = focused(rng, lambda: gen_op(rng))
    return {"init": init, "threads": [[op() for _ in range(rng.choice([2, 4, 8, 12]))] for _ in range(nt)], "sched": gen_sched(rng, nt + 1, 300)}


def SHRINK(path: tuple) -> bool:
    return path[0] == "threads" and path[-1] not in ("fail",)


def execute(case: dict) -> None:
    from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success
    from expression.core import option as om, result as rm

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=3_000_000)
    log = sim.log
    counter = [0]
    # entry: (value, kind, tag, payload)
    pools: dict[str, list[tuple]] = {"o": [], "r": []}
    own_nothing = [False]

    def pick(k: str, i: int) -> tuple:
        return pools[k][i % len(pools[k])]

    def pay(kind: str) -> Any:
        counter[0] += 1
        n = counter[0]
        if kind == "none":
            sim.probe("none-payload")
        if kind == "msg":
            return Msg(n)
        if kind == "odd":
            return Odd(n)
        if kind == "falsy":
            return Falsy(n)
        if kind == "pair":
            return (Msg(n), Odd(n))
        if kind in ("opt", "res"):
            sim.probe("nested-payload")
            p = pools[kind[0]]
            return p[n % len(p)][0] if p else Msg(n)
        return SPECIAL[kind]

    def check(e: tuple, what: str) -> None:
        v, k, tag, payload = e
        if not isinstance(v, Option if k == "o" else Result):
            raise Violation(what, f"{what} gave {v!r}, not {'an Option' if k == 'o' else 'a Result'}")
        other = {"some": "none", "none": "some", "ok": "error", "error": "ok"}[tag]
        if v.tag != tag:
            raise Violation(what, f"{what} gave {v!r} instead of the {tag} case")
        got = getattr(v, tag)
        if got is not payload:
            raise Violation(what, f"{what} gave {tag} {got!r} instead of {payload!r}")
        if hasattr(v, other):
            raise Violation(what, f"{what} gave a value that has both cases")

    def add(v: Any, k: str, tag: str, payload: Any, what: str) -> None:
        e = (v, k, tag, payload)
        check(e, what)
        if tag == "none":
            sim.probe("nothing")
            if v is not Nothing and not own_nothing[0]:
                raise Violation(what, f"{what} gave a Nothing that is not the singleton")
        if len(pools[k]) < 40:
            pools[k].append(e)

    for kind, p in case["init"]:
        x = pay(p)
        if kind == "some":
            add(Some(x), "o", "some", x, "Some")
        elif kind == "nothing":
            add(Nothing, "o", "none", None, "Nothing")
        elif kind == "nothing2":
            own_nothing[0] = True
            add(Option.Nothing(), "o", "none", None, "Option.Nothing")
        elif kind in ("ok", "success"):
            if kind == "success":
                sim.probe("try")
            add((Ok if kind == "ok" else Success)(x), "r", "ok", x, kind)
        else:
            add((Error if kind == "error" else Failure)(x), "r", "error", x, kind)

    # what the callbacks of the running operation do: per thread, a stack of frames
    stack: dict[int, list[dict]] = {}

    def call(which: str, *args: Any) -> Any:
        tid = sim.cur.tid
        fr = stack[tid][-1]
        o = fr["o"]
        n = len(fr["calls"])
        if fr["exc"] is not None:
            raise Violation("called-again", f"{o['op']} called a function after one had failed")
        fr["calls"].append((which, args))
        if "re" in o and n == 0:
            sim.probe("reentrant")
            do(o["re"], tid)
            if stack[tid][-1] is not fr:
                raise Violation("frame", "nested operation did not return")
        if "fail" in o and o["fail"][0] == n:
            sim.probe("callback-fails")
            sim.fault("callback fails")
            fr["exc"] = (Injected if o["fail"][1] == "E" else InjectedBase)((o["op"], counter[0]))
            raise fr["exc"]
        if which == "pred":
            b = o["bits"][n % 3]
            if not b:
                sim.probe("falsy-predicate")
            r = [False, True, Falsy(0), Msg(1)][b]
        elif which in ("opt", "res"):
            e = pick(which[0], o["s2"] + n)
            fr["entry"] = e
            r = e[0]
        else:
            k = o["rets"][n % 3]
            r = (args[0] if args else None) if k == "arg" else pay(k)
        fr["rets"].append(r)
        return r

    def mapper(*a: Any) -> Any:
        return call("map", *a)

    def pred(*a: Any) -> Any:
        return call("pred", *a)

    def to_opt(*a: Any) -> Any:
        return call("opt", *a)

    def to_res(*a: Any) -> Any:
        return call("res", *a)

    n0 = len(case["init"]) + len(case["threads"])
    mapper, pred, to_opt, to_res = odd(mapper, n0), odd(pred, n0 + 1), odd(to_opt, n0 + 2), odd(to_res, n0)

    # shared partial applications; the arguments that are fixed in them are fixed here too
    parts: dict[tuple, tuple] = {}
    for i in range(2):
        for k, mod in (("o", om), ("r", rm)):
            fv = pay(["msg", "falsy"][i])
            fe = pick(k, i)
            ff = ((Some if k == "o" else Ok)(mapper), k, "some" if k == "o" else "ok", mapper) if not i else pick(k, 1)
            if i and ff[2] in ("some", "ok"):
                ff = (Nothing, k, "none", None) if k == "o" else (Error(fv), k, "error", fv)
            for op in PART[k]:
                f = getattr(mod, op)
                if op == "default_value":
                    fn = f(fv)
                elif op == "apply":
                    fn = f(ff[0])
                elif op == "or_else":
                    fn = f(fe[0])
                elif op == "or_else_with":
                    fn = f(to_res)
                elif op == "bind":
                    fn = f(to_opt if k == "o" else to_res)
                elif op == "filter":
                    fn = f(pred, fv)
                elif op == "filter_with":
                    fn = f(pred, mapper)
                else:
                    fn = f(mapper)
                parts[k, op, i] = (fn, fv, fe, ff)

    def do(o: dict, tid: int) -> None:
        k, op, form = o["k"], o["op"], o["form"]
        e = pick(k, o["s"])
        v, _, tag, x = e
        e2 = pick(k, o["s2"])
        other = pick("r" if k == "o" else "o", o["s2"])
        arg = pay(o["v"])
        fe = e2
        good = "some" if k == "o" else "ok"
        mod: Any = om if k == "o" else rm
        has = tag == good
        part = None
        ff: Any = None
        if op == "apply":
            b = o["bits"][0]
            if b == 0:
                ff = (Nothing, k, "none", None) if k == "o" else (Error(arg), k, "error", arg)
            else:
                ff = ((Some if k == "o" else Ok)(mapper), k, good, mapper)
        if form == "p":
            part, pv, pe, pf = parts[k, op, o["part"]]
            arg, fe, ff = (pv, pe, pf)
            sim.probe("shared-partial")
        if op == "starmap" and has and not isinstance(x, (tuple, list)):
            op = "map"
            if form == "p":
                part = parts[k, op, o["part"]][0]
        if op == "starmap" and not has and k == "r":
            return
        frame = {"o": dict(o, op=op), "calls": [], "rets": [], "exc": None, "entry": None}
        stack[tid].append(frame)
        steps0 = sim.switches
        got: Any = None
        err: Any = None
        try:
            try:
                if part is not None:
                    got = part(v)(fe[0]) if op == "map2" else part(v)
                elif op in ("default_value", "default_arg"):
                    got = v.default_value(arg) if form == "m" else om.default_arg(v, arg) if op == "default_arg" else mod.default_value(arg)(v)
                elif op in ("default_with", "map", "starmap", "map_error"):
                    got = getattr(v, op)(mapper) if form == "m" else getattr(mod, op)(mapper)(v)
                elif op == "pipe":
                    got = v.pipe(mod.map(mapper), mod.map(mapper))
                elif op == "map2":
                    if form == "m":
                        got = v.map2(mapper, fe[0]) if k == "o" else v.map2(fe[0], mapper)
                    else:
                        got = mod.map2(mapper)(v)(fe[0])
                elif op == "apply":
                    got = v.apply(ff[0]) if form == "m" else mod.apply(ff[0])(v)
                elif op == "bind":
                    cb = to_opt if k == "o" else to_res
                    got = v.bind(cb) if form == "m" else mod.bind(cb)(v)
                elif op == "or_else":
                    got = v.or_else(fe[0]) if form == "m" else om.or_else(v, fe[0]) if k == "o" else rm.or_else(fe[0])(v)
                elif op == "or_else_with":
                    got = v.or_else_with(to_opt) if k == "o" else v.or_else_with(to_res) if form == "m" else rm.or_else_with(to_res)(v)
                elif op == "filter":
                    got = v.filter(pred) if k == "o" else v.filter(pred, arg) if form == "m" else rm.filter(pred, arg)(v)
                elif op == "filter_with":
                    got = v.filter_with(pred, mapper) if form == "m" else rm.filter_with(pred, mapper)(v)
                elif op in ("to_list", "to_seq", "is_some", "is_none", "to_optional", "is_ok", "is_error", "swap", "merge", "to_option"):
                    got = getattr(v, op)() if form == "m" else getattr(mod, op)(v)
                    if op == "to_seq":
                        got = list(got)
                elif op == "dict":
                    if getattr(x, "dict", None) is not None or type(x) in (list, tuple, dict):
                        return
                    got = v.dict() if form == "m" else om.model_dump(v) if k == "o" else rm.dict(v)
                elif op == "value":
                    try:
                        got = (v.value,)
                    except ValueError as ex:
                        err = ex
                elif op == "to_result":
                    got = v.to_result(arg) if form == "m" else om.to_result(v, arg)
                elif op == "to_result_with":
                    got = v.to_result_with(mapper) if form == "m" else om.to_result_with(v, mapper)
                elif op in ("of_optional", "of_obj"):
                    got = getattr(Option if form == "m" else om, op)(arg)
                elif op == "of_result":
                    got = (Option if form == "m" else om).of_result(other[0])
                elif op == "of_option":
                    got = (Result if form == "m" else rm).of_option(other[0], arg)
                elif op == "of_option_with":
                    got = (Result if form == "m" else rm).of_option_with(other[0], mapper)
                elif op == "some":
                    got = Some(arg) if form == "m" else Option.Some(arg)
                elif op == "ok":
                    got = Ok(arg) if form == "m" else Result.Ok(arg)
                elif op == "error":
                    got = Error(arg) if form == "m" else Result.Error(arg)
                else:
                    raise AssertionError(op)
            finally:
                stack[tid].pop()
        except (Injected, InjectedBase) as ex:
            err = ex
        if sim.switches != steps0:
            sim.probe("preempted-in-op")
        log(k, op, form, type(err).__name__ if err else "")
        # the case table: which calls, then what
        name = f"{'Option' if k == 'o' else 'Result'}.{op}"
        calls: list[tuple] = []
        rets = frame["rets"]

        def ask(which: str, *args: Any) -> Any:
            """The table demands this call; what the callback did is in the frame."""
            calls.append((which, args))
            n = len(calls) - 1
            if n >= len(frame["calls"]):
                raise Violation(name, f"{name} of {tag} did not call its function")
            w, a = frame["calls"][n]
            if w != which or len(a) != len(args) or any(p is not q for p, q in zip(a, args)):
                raise Violation(name, f"{name} of {tag} called its function with {a!r} instead of {args!r}")
            if n >= len(rets):
                raise frame["exc"]
            return rets[n]

        def table() -> tuple:
            """("O", tag, payload), ("R", tag, payload) or ("V", value); raises what a callback raised."""
            c = k.upper()
            bad = (c, tag, x) if k == "r" else ("O", "none", None)
            if op in ("default_value", "default_arg"):
                return ("V", x if has else arg)
            if op == "default_with":
                return ("V", x if has else ask("map", *([x] if k == "r" else [])))
            if op == "map":
                return (c, good, ask("map", x)) if has else bad
            if op == "starmap":
                return (c, good, ask("map", *x)) if has else bad
            if op == "pipe":
                return (c, good, ask("map", ask("map", x))) if has else bad
            if op == "map_error":
                return (c, tag, x if has else ask("map", x))
            if op == "map2":
                if not has:
                    if fe[2] != good:
                        sim.probe("both-error")
                    return bad
                if fe[2] != good:
                    return (c, fe[2], fe[3])
                return (c, good, ask("map", x, fe[3]))
            if op == "apply":
                if ff[2] != good:
                    if not has:
                        sim.probe("both-error")
                    return (c, ff[2], ff[3])
                return (c, good, ask("map", x)) if has else bad
            if op == "bind":
                if not has:
                    return bad
                ask("opt" if k == "o" else "res", x)
                return (c, *frame["entry"][2:])
            if op == "or_else":
                return (c, tag, x) if has else (c, *fe[2:])
            if op == "or_else_with":
                if has:
                    return (c, tag, x)
                ask("opt" if k == "o" else "res", *([x] if k == "r" else []))
                return (c, *frame["entry"][2:])
            if op == "filter":
                if not has:
                    return bad
                return (c, tag, x) if ask("pred", x) else ("O", "none", None) if k == "o" else ("R", "error", arg)
            if op == "filter_with":
                if not has:
                    return bad
                return (c, tag, x) if ask("pred", x) else ("R", "error", ask("map", x))
            if op in ("to_list", "to_seq"):
                return ("L", [x] if has else [])
            if op in ("is_some", "is_ok"):
                return ("B", has)
            if op in ("is_none", "is_error"):
                return ("B", not has)
            if op == "to_optional":
                return ("V", x if has else None)
            if op == "dict":
                return ("V", x if has else None) if k == "o" else ("D", tag, x)
            if op == "value":
                return ("T", x) if has else ("ERR",)
            if op == "to_result":
                return ("R", "ok", x) if has else ("R", "error", arg)
            if op == "to_result_with":
                return ("R", "ok", x) if has else ("R", "error", ask("map"))
            if op in ("of_optional", "of_obj"):
                if arg is None:
                    sim.probe("of-none")
                return ("O", "none", None) if arg is None else ("O", "some", arg)
            if op == "of_result":
                return ("O", "some", other[3]) if other[2] == "ok" else ("O", "none", None)
            if op == "of_option":
                return ("R", "ok", other[3]) if other[2] == "some" else ("R", "error", arg)
            if op == "of_option_with":
                return ("R", "ok", other[3]) if other[2] == "some" else ("R", "error", ask("map"))
            if op == "swap":
                return ("R", "error" if has else "ok", x)
            if op == "merge":
                return ("V", x)
            if op == "to_option":
                return ("O", "some", x) if has else ("O", "none", None)
            return {"some": ("O", "some", arg), "ok": ("R", "ok", arg), "error": ("R", "error", arg)}[op]

        want: Any = None
        try:
            want = table()
        except (Injected, InjectedBase) as ex:
            if err is not ex:
                raise Violation("exception", f"{name}: the callback raised {ex!r}, the operation {'raised ' + repr(err) if err else 'returned ' + repr(got)}") from None
            log("raised", op)
        if len(frame["calls"]) != len(calls):
            raise Violation(name, f"{name} of {tag} called a function {len(frame['calls'])} times instead of {len(calls)}")
        if want is None:
            pass
        elif want[0] == "ERR":
            if err is None:
                raise Violation(name, f"{name} of {tag} gave {got!r}")
        elif err is not None:
            raise Violation("exception", f"{name} of {tag} raised {err!r}")
        elif want[0] in "OR":
            add(got, want[0].lower(), want[1], want[2], name)
        elif want[0] == "V":
            if got is not want[1]:
                raise Violation(name, f"{name} of {tag} gave {got!r} instead of {want[1]!r}")
        elif want[0] == "B":
            if got is not want[1]:
                raise Violation(name, f"{name} of {tag} gave {got!r} instead of {want[1]!r}")
        elif want[0] == "D":
            if type(got) is not dict or set(got) != {"tag", want[1]} or got["tag"] != want[1] or got[want[1]] is not want[2]:
                raise Violation(name, f"{name} of {tag} gave {got!r}")
        else:
            w = [want[1]] if want[0] == "T" else want[1]
            if len(got) != len(w) or any(a is not b for a, b in zip(got, w)):
                raise Violation(name, f"{name} of {tag} gave {got!r} instead of {w!r}")
        for z in (e, e2, other):
            check(z, "a value read after " + op)

    def thread(ops: list) -> Any:
        def run() -> None:
            stack[sim.cur.tid] = []
            for o in ops:
                do(o, sim.cur.tid)

        return run

    def main() -> None:
        ts = [sim.spawn(thread(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
    for k in "or":
        for e in pools[k]:
            check(e, "an earlier value")
    if Nothing.tag != "none" or Nothing.none is not None:
        raise Violation("nothing", "Nothing changed")
