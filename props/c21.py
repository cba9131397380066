"""C21: tagged unions as (case, value) pairs, shared by threads, with payloads that fail to compare, hash or copy."""

from __future__ import annotations

import copy
import dataclasses
import pickle
from numbers import Number
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, focused, gen_sched
from sim.threads import Sim

ID = "C21"
TITLE = "tagged unions"
QUICK = 60000
THOROUGH = 2000000
BATCH = 150
FAULTS = ("lib", "effect", "base")
RULE = ("Threads build, compare, order, hash, copy, pickle, match and try to change a shared pool of tagged union values (frozen, ordered, generic, subclassed; Option, Result and Try too); payloads raise from "
        "comparisons, hashing, deepcopy and pickling; invalid constructions; random preemption at bytecode granularity.")
PROBES = ["payload-fails", "preempted-in-op", "rejected", "frozen", "cross-type", "cross-case", "equal", "try", "shared-payload", "falsy", "sorted", "equal-numbers", "unordered", "written"]

OPS = ["new", "new", "new", "bad", "bad", "eq", "eq", "eq", "lt", "lt", "hash", "hash", "copy", "deepcopy", "pickle", "set", "set", "del", "match", "sort", "asdict", "deeplist", "dictkey", "write", "order"]
FROZEN = ("One", "Four", "Sub", "Unord", "Ident", "Option", "Result", "Try")
ORDERED = ("One", "Four", "Sub", "Open", "Option", "Result", "Try")
NUMS: list[Any] = [1, True, 1.0, 0, False, 0.0, -0.0, -1, -1.0, 2, "1", "", (1,), (True,), 2**61 - 1, float(2**53), 2**53]
KIND = ["One", "Four", "Four", "Sub", "Open", "Unord", "Ident", "Plain", "Option", "Option", "Result", "Result", "Try"]


def gen_op(rng: Random) -> dict:
    op = rng.choice(OPS)
    o: dict = {"op": op, "s": rng.choice([rng.randrange(64), rng.randrange(64), -1]), "s2": rng.choice([rng.randrange(64), rng.randrange(64), -1, -2]), "kind": rng.choice(KIND),
               "case": rng.randrange(4), "p": rng.choice([0, 0, 1, 2, 3]), "pk": rng.choice(["P", "P", "P", "num", "num", "same", "none", "union", "list"]), "num": rng.randrange(len(NUMS)), "tag": rng.random() < 0.3,
               "how": rng.randrange(6), "n": rng.choice([2, 3, 4, 5])}
    if rng.random() < 0.15:
        o["fail"] = [rng.choice([0, 0, 1, 2]), rng.choice(["E", "E", "B"])]
    return o


def generate(rng: Random, tier: str) -> dict:
    nt = rng.choice([1, 1, 2, 3])
    init = [dict(gen_op(rng), op="new") for _ in range(rng.choice([3, 5, 8]))]
    for o in init:
        o.pop("fail", None)
    if rng.random() < 0.4:  # values that are comparable with one another
        k = rng.choice(KIND)
        c = [rng.randrange(4)] * 3 + [rng.randrange(4)]
        pks = rng.sample(["P", "P", "num", "num", "union", "list", "same"], rng.choice([1, 1, 2]))
        for o in init:
            o.update(kind=rng.choice([k, k, {"Four": "Sub", "Result": "Try", "Try": "Result", "Sub": "Four"}.get(k, k)]), case=rng.choice(c), pk=rng.choice(pks))
    op = focused(rng, lambda: gen_op(rng), sources=False)
    return {"init": init, "threads": [[op() for _ in range(rng.choice([3, 6, 10]))] for _ in range(nt)], "sched": gen_sched(rng, nt + 1, 300)}


def SHRINK(path: tuple) -> bool:
    return path[0] in ("threads", "init") and path[-1] not in ("fail",)


def execute(case: dict) -> None:
    from expression import Option, Result
    from expression.core.try_ import Try

    from . import unions as U
    from .unions import P

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=3_000_000)
    log = sim.log
    arm: dict[int, Any] = {}

    def hook(what: str) -> None:
        a = arm.get(sim.cur.tid) if sim.cur is not None else None
        if a is not None and not a[2]:
            if a[0] == 0:
                a[2] = True
                sim.probe("payload-fails")
                sim.fault(f"payload fails to {what}")
                raise a[1]
            a[0] -= 1

    U.HOOK[0] = hook
    classes: dict[str, Any] = {"One": U.One, "Four": U.Four, "Sub": U.Sub, "Open": U.Open, "Unord": U.Unord, "Ident": U.Ident, "Plain": U.Plain, "Option": Option, "Result": Result, "Try": Try}
    names = {"One": ["only"], "Four": ["z", "a", "m", "value"], "Sub": ["z", "a", "m", "value"], "Open": ["left", "right"], "Unord": ["tag1", "index", "x"], "Ident": ["p", "q"], "Plain": ["on", "off"], "Option": ["none", "some"], "Result": ["ok", "error"], "Try": ["ok", "error"]}
    family = {"Sub": "Four", "Try": "Result"}
    pool: list[tuple] = []  # (value, kind, case, payload)

    def fam(k: str) -> str:
        return family.get(k, k)

    def read(v: Any, cname: str) -> Any:
        return getattr(v, cname)

    def check(e: tuple, what: str) -> None:
        v, k, c, p = e
        if type(v) is not classes[k]:
            raise Violation(what, f"{what}: a {k} is a {type(v).__name__}")
        if v.tag != c:
            raise Violation(what, f"{what}: the case is {v.tag!r} instead of {c!r}")
        if read(v, c) is not p:
            raise Violation(what, f"{what}: the value is {read(v, c)!r} instead of {p!r}")
        for n in names[k]:
            if n != c and hasattr(v, n):
                raise Violation(what, f"{what}: a value of case {c} also has case {n}")

    def add(e: tuple) -> None:
        if len(pool) < 40:
            pool.append(e)

    def payload(o: dict) -> Any:
        if o["p"] == 0:
            sim.probe("falsy")
        if o["pk"] == "none":
            return None
        if o["pk"] == "same" and pool:
            sim.probe("shared-payload")
            return pool[o["s"] % len(pool)][3]
        if o["pk"] == "union" and pool:
            return pool[o["s"] % len(pool)][0]
        if o["pk"] == "list":
            return [o["p"]]
        if o["pk"] == "num":
            return NUMS[o["num"]]
        return P(o["p"])

    def entry(u: Any) -> Any:
        for e in pool:
            if e[0] is u:
                return e
        return None

    class Unknown(Exception):
        pass

    def model_eq(a: Any, b: Any) -> bool:
        """Payload equality without going through the code under test."""
        ea, eb = entry(a), entry(b)
        if (ea is None) != (eb is None):
            return False
        if a is b:
            return True
        if ea is not None:
            return ea[1] != "Ident" and fam(ea[1]) == fam(eb[1]) and ea[2] == eb[2] and model_eq(ea[3], eb[3])
        if isinstance(a, P) or isinstance(b, P):
            return isinstance(a, P) and isinstance(b, P) and a.n == b.n
        if hasattr(a, "tag") or hasattr(b, "tag"):
            raise Unknown
        return a == b

    def keys(x: Any) -> Any:
        """What a payload stands for: a comparable description."""
        if isinstance(x, P):
            return ("P", x.n)
        if isinstance(x, list):
            return ("list", *[keys(y) for y in x])
        e = entry(x)
        if e is not None:
            return (fam(e[1]), e[2], keys(e[3]))
        return ("const", repr(x))

    def describe(v: Any, k: str) -> Any:
        """The same for a union value just made, reading its public attributes."""
        c = v.tag
        x = read(v, c)
        for kk, cl in classes.items():
            if type(x) is cl:
                return (fam(k), c, describe(x, kk))
        return (fam(k), c, keys(x))

    def unhashable(x: Any) -> bool:
        return any(s in str(keys(x)) for s in ("list", "Open", "Plain"))

    def same_dict(d: Any, v: Any, c: str, p: Any) -> bool:
        if not isinstance(d, dict) or set(d) != {"tag", c} or d["tag"] != c:
            return False
        e = entry(p)
        if e is not None:
            return same_dict(d[c], e[0], e[2], e[3])
        if any(type(p) is cl for cl in classes.values()):
            return True
        return keys(d[c]) == keys(p)

    def do(o: dict, tid: int) -> None:
        op = o["op"]
        e = pool[o["s"] % len(pool)] if pool else None
        e2 = pool[o["s2"] % len(pool)] if pool else None
        if "fail" in o:
            arm[tid] = [o["fail"][0], (Injected if o["fail"][1] == "E" else InjectedBase)((op, o["s"], o["p"])), False]
        sw = sim.switches
        a = None
        try:
            try:
                work(o, op, e, e2)
            finally:
                a = arm.pop(tid, None)
            if a and a[2]:
                raise Violation("swallowed", f"{op} finished although a payload raised {a[1]!r}")
        except (Injected, InjectedBase) as ex:
            if not (a and a[2] and ex is a[1]):
                raise Violation("exception", f"{op} raised {ex!r}") from None
            log("raised", op)
        if sim.switches != sw:
            sim.probe("preempted-in-op")
        for z in (e, e2):
            if z is not None:
                check(z, f"a value read after {op}")

    def work(o: dict, op: str, e: Any, e2: Any) -> None:
        if op == "new":
            k = o["kind"]
            c = names[k][o["case"] % len(names[k])]
            p = None if (k, c) == ("Option", "none") else payload(o)
            kw = {c: p}
            if o["tag"]:
                kw = {"tag": c, c: p} if o["how"] % 2 else {c: p, "tag": c}
            if k == "Try":
                sim.probe("try")
            cl = classes[k]
            v = (cl[int, str] if k == "Result" else cl[int])(**kw) if o["n"] == 5 and k in ("Four", "Sub", "Option", "Result", "Try") else cl(**kw)
            log("new", k, c)
            n = (v, k, c, p)
            check(n, "construction")
            add(n)
            return
        if op == "bad":
            k = o["kind"]
            cs = names[k]
            c = cs[o["case"] % len(cs)]
            bads: list[dict] = [{}, {"tag": c}, {"nope": 1}, {c: 1, "nope": 2}, {"tag": "nope", c: 1}, {c: 1, "tag": "nope"}]
            if len(cs) > 1:
                bads += [{cs[0]: 1, cs[1]: 2}, {"tag": cs[0], cs[1]: 2}, {"tag": cs[0], cs[0]: None, cs[1]: None}]
                x, y = [(1, 2), (None, 1), (1, None), (0, 0), (None, None), (payload(o), None), ("", payload(o))][(o["n"] + o["p"]) % 7]
                d2 = cs[(o["case"] + 1) % len(cs)]
                bads += [{c: x, d2: y}, {d2: x, c: y}, {"tag": c, c: x, d2: y}, {c: x, d2: y, "tag": d2}, {n: y for n in cs}]
            kw = bads[(o["how"] + o["s"]) % len(bads)]
            try:
                v = classes[k](**kw)
            except TypeError:
                sim.probe("rejected")
                return
            raise Violation("bad-construction", f"{k}(**{kw}) was accepted")
        v, k, c, p = e
        v2, k2, c2, p2 = e2
        if op == "eq":
            got = v == v2
            ne = v != v2
            want = v is v2 or (k != "Ident" and fam(k) == fam(k2) and c == c2 and model_eq(p, p2))
            if fam(k) != fam(k2):
                sim.probe("cross-type")
            elif c != c2:
                sim.probe("cross-case")
            elif want:
                sim.probe("equal")
            log("eq", want)
            if bool(got) != want or bool(ne) == want:
                raise Violation("eq", f"{k}.{c} {p!r} == {k2}.{c2} {p2!r} gave {got!r}, != gave {ne!r}")
            if v == (c, p) or v == p and not isinstance(p, type(v)) and entry(p) is None:
                raise Violation("eq", f"{k}.{c} {p!r} equals something that is not a union")
        elif op == "order":
            # no order: between different unions, with something else, or where none was asked for
            if k in ORDERED and fam(k) == fam(k2):
                v2 = [p, (c, p), 3, None][o["how"] % 4]
                if entry(v2) is not None and fam(entry(v2)[1]) == fam(k):
                    return
            if isinstance(v2, P) or k in ORDERED and isinstance(v2, Number):
                return
            try:
                got = v < v2
            except TypeError as ex:
                if isinstance(ex, Injected):
                    raise
                sim.probe("unordered")
                return
            raise Violation("order", f"{k}.{c} {p!r} < {v2!r} gave {got!r}")
        elif op == "write":
            if k not in ("Open", "Plain"):
                return
            sim.probe("written")
            n = copy.copy(v) if o["how"] % 2 else copy.deepcopy(v)
            x = P(o["p"])
            setattr(n, c, x)
            if n.tag != c or read(n, c) is not x:
                raise Violation("write", f"{k}.{c} {p!r} was set to {x!r} and reads as {n!r}")
            check(e, "the value whose copy was set")
        elif op == "lt":
            num = isinstance(p, int | float) and isinstance(p2, int | float)
            if fam(k) != fam(k2) or k not in ORDERED or (c == c2 and not num and not (isinstance(p, P) and isinstance(p2, P))):
                return
            got = v < v2
            gt = v > v2
            cs = names[k]
            x, y = (cs.index(c), (p if num else p.n) if c == c2 else 0), (cs.index(c2), (p2 if num else p2.n) if c == c2 else 0)
            log("lt", got, gt)
            if bool(got) != (x < y) or bool(gt) != (x > y):
                raise Violation("lt", f"{k}.{c} {p!r} < {k2}.{c2} {p2!r} gave {got!r}, > gave {gt!r}")
        elif op == "sort":
            es = [z for z in pool if fam(z[1]) == fam(k) and k in ORDERED]
            cs = names[k]
            if any(es[i][2] == es[j][2] and not (isinstance(es[i][3], P) and isinstance(es[j][3], P)) for i in range(len(es)) for j in range(i)):
                es = [z for z in es if isinstance(z[3], P)]
            if len(es) > 1:
                sim.probe("sorted")
            got = sorted([z[0] for z in es])
            want = sorted(es, key=lambda z: (cs.index(z[2]), z[3].n if isinstance(z[3], P) else 0))
            if len(got) != len(want) or any(g is not w[0] for g, w in zip(got, want)):
                raise Violation("sort", f"sorting {es!r} gave {got!r}")
        elif op in ("hash", "dictkey"):
            if k not in FROZEN:
                return
            bad = unhashable(p)
            try:
                h = hash(v)
            except TypeError as ex:
                if isinstance(ex, Injected) or not bad:
                    raise
                return
            if bad:
                return
            if hash(v) != h:
                raise Violation("hash", "the hash of a value changed")
            if k2 in FROZEN and not unhashable(p2):
                h2 = hash(v2)
                if (v is v2 or k != "Ident") and fam(k) == fam(k2) and c == c2 and model_eq(p, p2):
                    sim.probe("equal")
                    if type(p) is not type(p2):
                        sim.probe("equal-numbers")
                    if h != h2:
                        raise Violation("hash", f"equal values {k}.{c} {p!r} and {k2}.{c2} {p2!r} hash differently")
                if op == "dictkey":
                    d = {v: 1}
                    same = v is v2 or (k != "Ident" and fam(k) == fam(k2) and c == c2 and model_eq(p, p2))
                    if (v2 in d) != same:
                        raise Violation("hash", f"{k2}.{c2} {p2!r} in a dict keyed by {k}.{c} {p!r}: {not same}")
        elif op == "copy":
            n = copy.copy(v)
            check((n, k, c, p), "copy")
            add((n, k, c, p))
        elif op == "deepcopy":
            n = copy.deepcopy(v)
            if type(n) is not classes[k] or describe(n, k) != (fam(k), c, keys(p)):
                raise Violation("deepcopy", f"the deep copy of {k}.{c} {p!r} is {n!r}")
            if isinstance(p, (P, list)) and read(n, c) is p:
                raise Violation("deepcopy", f"the deep copy of {k}.{c} {p!r} shares its value")
            if p is None or type(p) in (P, int, bool, float, str):
                add((n, k, c, read(n, c)))
        elif op == "deeplist":
            n = copy.deepcopy([v, v2, v, p])
            if n[0] is not n[2] or (v is v2) != (n[0] is n[1]) and v is v2:
                raise Violation("deepcopy", "a value that occurs twice was copied twice")
            if isinstance(p, (P, list)):
                if read(n[0], c) is not n[3]:
                    raise Violation("deepcopy", "a value shared by a union and its surroundings was copied twice")
                if p2 is p and read(n[1], c2) is not n[3]:
                    raise Violation("deepcopy", "a value shared by two unions was copied twice")
        elif op == "pickle":
            n = pickle.loads(pickle.dumps(v, protocol=o["how"]))
            if type(n) is not classes[k] or describe(n, k) != (fam(k), c, keys(p)):
                raise Violation("pickle", f"{k}.{c} {p!r} comes back as {n!r}")
            for x in names[k]:
                if x != c and hasattr(n, x):
                    raise Violation("pickle", f"a pickled value of case {c} comes back with case {x} too")
            if p is None or type(p) in (P, int, bool, float, str):
                add((n, k, c, read(n, c)))
        elif op in ("set", "del"):
            if k not in FROZEN:
                return
            sim.probe("frozen")
            name = (["tag", c, *names[k]])[o["how"] % (2 + len(names[k]))]
            try:
                if op == "set":
                    setattr(v, name, [c, p, "other", names[k][0]][o["n"] % 4])
                else:
                    delattr(v, name)
            except (TypeError, AttributeError) as ex:
                if isinstance(ex, Injected):
                    raise
                check(e, f"after a rejected {op}attr")
                return
            raise Violation("frozen", f"{op}attr({k}.{c}, {name!r}) was accepted")
        elif op == "match":
            if k not in ("Option", "Result", "Try"):
                got = U.view(v)
                if got[0] != c or got[1] is not p:
                    raise Violation("match", f"{k}.{c} {p!r} matches as {got!r}")
                if k in ("Four", "Sub") and v.get() is not p:
                    raise Violation("match", f"{k}.{c} {p!r} matches as {v.get()!r}")
            else:
                match v:
                    case Option(tag="some", some=x):
                        r = ("some", x)
                    case Option(tag="none"):
                        r = ("none", None)
                    case Try(tag="ok", ok=x):
                        r = ("ok", x)
                    case Result(tag="ok", ok=x):
                        r = ("ok", x)
                    case Result(error=x):
                        r = ("error", x)
                    case _:
                        r = ("no case", None)
                if r[0] != c or r[1] is not p:
                    raise Violation("match", f"{k}.{c} {p!r} matches as {r!r}")
        elif op == "asdict":
            d = dataclasses.asdict(v)
            if not same_dict(d, v, c, p):
                raise Violation("asdict", f"asdict of {k}.{c} {p!r} is {d!r}")

    def thread(ops: list) -> Any:
        def run() -> None:
            for o in ops:
                do(o, sim.cur.tid)

        return run

    def main() -> None:
        for o in case["init"]:
            do(o, sim.cur.tid)
        if not pool:
            return
        ts = [sim.spawn(thread(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)
        for e in pool:
            check(e, "an earlier value")

    try:
        sim.run(main)
    finally:
        U.HOOK[0] = lambda w: None
    sim.nontrivial = len(case["threads"]) > 1
