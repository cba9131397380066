"""C14: Map against a sorted dict, from several threads, with failing comparisons and callbacks."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, SimAbort, Violation, focused, gen_sched
from sim.threads import Sim

from .aio import Msg, odd

ID = "C14"
TITLE = "immutable Map"
QUICK = 16000
THOROUGH = 1200000
BATCH = 50
FAULTS = ("lib", "effect", "base")
RULE = ("Threads apply random operations (method and function forms) to a shared pool of Map values and add their results to it, with open iterators in between; "
        "key comparisons, hashes, callbacks and source iterables raise at random points; random preemption schedule at bytecode granularity; some runs build maps of over a thousand keys.")
PROBES = ["compare-fails", "hash-fails", "callback-fails", "source-fails", "preempted-in-op", "big", "replace", "remove-present", "change-remove", "change-insert", "change-nothing", "eq-true", "eq-false",
          "eq-prefix", "open-iterator", "pick-none", "reentrant"]

KEYKINDS = ["obj", "obj", "obj", "int", "str", "tuple", "neg", "mid", "float"]
OPS = (["add"] * 8 + ["remove"] * 4 + ["change"] * 4 + ["filter", "map", "partition", "find", "try_find", "get", "contains", "iter", "to_list", "to_seq", "items",
       "fold", "fold_back", "exists", "for_all", "pick", "try_pick", "len", "eq", "hash", "build", "build", "rebuild", "iterate", "open", "step", "step", "keysvalues", "try_get_value", "is_empty"])
BUILD = ["create", "create_m", "of_seq", "of_seq_m", "of_list", "of_list_m", "of_block", "of_block_m", "of", "of_m"]


def gen_op(rng: Random, nk: int) -> dict:
    op = rng.choice(OPS)
    o: dict = {"op": op, "s": rng.randrange(64), "f": rng.random() < 0.4}
    if op in ("add", "remove", "change", "find", "try_find", "get", "contains", "try_get_value"):
        o["k"] = rng.randrange(nk)
    if op == "change":
        o["how"] = rng.choice(["keep", "some", "some", "none", "none"])
    if op in ("filter", "partition", "exists", "for_all", "pick", "try_pick"):
        m = rng.choice([2, 3, 5])
        o["p"] = rng.choice([[m, rng.randrange(m)], [m, rng.randrange(m)], [1, 0], [1, 5], [0, rng.randrange(nk)]])
    if op in ("change", "filter", "map", "partition", "fold", "fold_back", "exists", "for_all", "pick", "try_pick", "iterate"):
        if rng.random() < 0.12:
            o["cbfail"] = [rng.randrange(nk), rng.choice(["E", "B"])]
        if rng.random() < 0.15:
            o["cbread"] = rng.randrange(64)
    if op == "eq":
        o["s2"] = rng.choice([rng.randrange(64), -1, -2])
        if rng.random() < 0.4:
            o["s"] = rng.choice([-1, -2, -3])
    if op == "build":
        o["how"] = rng.choice(BUILD)
        o["ks"] = [rng.randrange(nk) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 13]))]
        if rng.random() < 0.1 and o["how"] in ("create", "create_m", "of_seq", "of_seq_m"):
            o["srcfail"] = [rng.randrange(0, len(o["ks"]) + 1), rng.choice(["E", "B"])]
    if op == "rebuild":
        o["seed"] = rng.randrange(1 << 20)
    if rng.random() < 0.08:
        o["cmpfail"] = [rng.choice([0, 1, 2, 3, 5, 9, 15]), rng.choice(["E", "E", "B"])]
    return o


def generate(rng: Random, tier: str) -> dict:
    nk = rng.choice([3, 6, 12, 12, 30, 60])
    if rng.random() < 0.003:
        n = rng.choice([400, 1100])
        ks = list(range(n))
        how = rng.choice(["up", "down", "mixed", "zigzag", "blocks"])
        if how == "down":
            ks.reverse()
        elif how == "mixed":
            rng.shuffle(ks)
        elif how == "zigzag":
            ks = [x for p in zip(ks, reversed(ks)) for x in p][:n]
        elif how == "blocks":
            w = rng.choice([3, 10, 40])
            ks = [y for x in range(n - n % w, -1, -w) for y in range(x, min(x + w, n))]
        ops = [{"op": "build", "s": 0, "f": True, "how": rng.choice(BUILD[:4] * 3 + BUILD[:8]), "ks": ks}, {"op": rng.choice(["to_list", "iter", "hash", "len", "map", "fold"]), "s": 0, "f": False}]
        return {"keys": rng.choice(["int", "str", "neg", "mid", "float"]), "init": [0, 1], "threads": [ops], "big": True, "sched": {"mode": "few", "seed": 1, "k": 0, "depth": 1, "n": 1}}
    if rng.random() < 0.01:  # trees of several levels, taken apart
        n = rng.choice([70, 130, 250])
        ks = rng.sample(range(n), n)
        ops: list = []
        for _ in range(rng.choice([3, 8, 20, 40])):
            o = gen_op(rng, n)
            if rng.random() < 0.7:
                o = {"op": rng.choice(["remove", "remove", "change", "add"]), "s": -1, "f": rng.random() < 0.4, "k": rng.randrange(n), "how": "none"}
            ops.append(o)
        return {"keys": rng.choice(["int", "str", "neg", "mid", "float"]), "init": ks, "threads": [ops], "big": True, "sched": {"mode": "few", "seed": 1, "k": 0, "depth": 1, "n": 1}}
    nt = rng.choice([1, 2, 2, 3])
    op = focused(rng, lambda: gen_op(rng, nk), 0.25)
    threads = [[op() for _ in range(rng.choice([2, 4, 6, 10]))] for _ in range(nt)]
    return {"keys": rng.choice(KEYKINDS), "init": [rng.randrange(nk) for _ in range(rng.choice([0, 1, 4, 10, 25]))], "threads": threads, "sched": gen_sched(rng, nt + 1, 2500)}


def SHRINK(path: tuple) -> bool:
    return path[0] in ("threads", "init") and path[-1] not in ("p", "cbfail", "cmpfail", "srcfail")


def execute(case: dict) -> None:
    from expression import Nothing, Option, Some
    from expression.collections import Block, Map, map as mp

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=60_000_000 if case.get("big") else 3_000_000)
    log = sim.log
    kk = case["keys"]
    if case.get("big"):
        sim.probe("big")
    arm: dict[int, list] = {}  # per thread: [countdown, exception, fired]

    def hit(what: str) -> None:
        a = arm.get(sim.cur.tid)
        if a is not None and not a[2]:
            if a[0] == 0:
                a[2] = True
                sim.probe(what)
                sim.fault(what.replace("-", " "))
                log(what)
                raise a[1]
            a[0] -= 1

    class Key:
        __slots__ = ("n",)

        def __init__(self, n: int) -> None:
            self.n = n

        def __lt__(self, o: Any) -> bool:
            sim.point()
            hit("compare-fails")
            return self.n < o.n

        def __eq__(self, o: Any) -> bool:
            hit("compare-fails")
            return isinstance(o, Key) and self.n == o.n

        def __hash__(self) -> int:
            hit("hash-fails")
            return hash(self.n)

        def __repr__(self) -> str:
            return f"K{self.n}"

    def key(n: int) -> Any:
        if kk == "obj":
            return Key(n)
        if kk == "str":
            return f"k{n:04}"
        if kk == "tuple":
            return (n // 3, n % 3)
        if kk == "neg":
            return -1000 + n
        if kk == "mid":
            return n - 20
        if kk == "float":
            return n / 4 - 3
        return n

    def back(k: Any) -> int:
        if kk == "obj":
            return k.n
        if kk == "str":
            return int(k[1:])
        if kk == "tuple":
            return k[0] * 3 + k[1]
        if kk == "neg":
            return k + 1000
        if kk == "mid":
            return k + 20
        if kk == "float":
            return int((k + 3) * 4)
        return k

    count = [0]

    def val() -> Any:
        count[0] += 1
        c = count[0]
        return None if c % 11 == 0 else 0 if c % 7 == 0 else Nothing if c % 17 == 0 else Some(None) if c % 19 == 0 else False if c % 23 == 0 else Msg(c)

    pool: list[tuple[Any, list]] = []  # (map, model); a model is a list of (n, value) in ascending n

    def pairs(ms: Any) -> list:
        return [(back(k), v) for k, v in ms]

    def eqp(a: list, b: list) -> bool:
        return len(a) == len(b) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(a, b))

    def put(m: Any, model: list) -> None:
        pool.append((m, model))

    def expect(op: str, got: Any, want: Any) -> None:
        if got is not want and not (type(got) is type(want) and got == want):
            raise Violation(op, f"{op} gave {got!r} instead of {want!r}")

    def expect_map(op: str, m: Any, want: list) -> None:
        if not isinstance(m, Map):
            raise Violation(op, f"{op} gave {m!r}, not a Map")
        got = pairs(m.to_list())
        if not eqp(got, want):
            raise Violation(op, f"{op} gave {got!r} instead of {want!r}")
        put(m, want)

    def expect_opt(op: str, o: Any, want: Any) -> None:
        """want: () for Nothing or (value,)."""
        got = (o.some,) if isinstance(o, Option) and o.tag == "some" else () if isinstance(o, Option) else o
        if len(got) != len(want) or (want and got[0] is not want[0]):
            raise Violation(op, f"{op} gave {o!r} instead of {want!r}")

    if kk == "obj":
        init_model: dict = {}
    init_model = {}
    for n in case["init"]:
        init_model[n] = val()

    opens: dict[int, list] = {}

    def do(o: dict, tid: int) -> None:
        m, model = pool[o["s"] % len(pool)]
        op, f = o["op"], o["f"]
        d = dict(model)
        calls: list = []
        cbx: list = []

        def cb(n: int) -> None:
            calls.append(n)
            if "cbread" in o:
                sim.probe("reentrant")
                m2, mod2 = pool[o["cbread"] % len(pool)]
                if len(m2) != len(mod2):
                    raise Violation("reentrant", "a Map read from a callback has the wrong length")
            if "cbfail" in o and n == o["cbfail"][0] and not cbx:
                sim.probe("callback-fails")
                sim.fault("callback fails")
                log("callback-fails", n)
                cbx.append((Injected if o["cbfail"][1] == "E" else InjectedBase)(("cb", n)))
                raise cbx[0]

        def pred(k: Any, v: Any) -> bool:
            n = back(k)
            if n not in d or d[n] is not v:
                raise Violation("callback-args", f"the callback of {op} got {k!r}, {v!r}")
            cb(n)
            return holds(n)

        def holds(n: int) -> bool:
            if o["p"][0] == 0:
                return n < o["p"][1]
            return n % o["p"][0] == o["p"][1]

        k = key(o["k"]) if "k" in o else None
        n = o.get("k", -1)
        if "cmpfail" in o:
            arm[tid] = [o["cmpfail"][0], (Injected if o["cmpfail"][1] == "E" else InjectedBase)(("cmp", o["s"])), False]
        srcx: list = []
        try:
            try:
                if op == "add":
                    v = val()
                    r = mp.add(k, v)(m) if f else m.add(k, v)
                    if n in d:
                        sim.probe("replace")
                elif op == "remove":
                    r = mp.remove(k)(m) if f else m.remove(k)
                elif op == "change":
                    nv = val()

                    def ch(old: Any) -> Any:
                        cb(n)
                        w = (d[n],) if n in d else ()
                        expect_opt("change-callback", old, w)
                        return old if o["how"] == "keep" else Some(nv) if o["how"] == "some" else Nothing

                    r = mp.change(k, odd(ch, o["s"]))(m) if f else m.change(k, odd(ch, o["s"]))
                elif op == "filter":
                    r = mp.filter(odd(pred, o["s"]))(m) if f else m.filter(odd(pred, o["s"]))
                elif op == "partition":
                    r = mp.partition(odd(pred, o["s"]))(m) if f else m.partition(odd(pred, o["s"]))
                elif op == "map":
                    made: dict = {}

                    def mapping(k: Any, v: Any) -> Any:
                        cb(back(k))
                        made[back(k)] = (d[back(k)] is v, Msg(("m", back(k))))
                        return made[back(k)][1]

                    r = mp.map(odd(mapping, o["s"]))(m) if f else m.map(odd(mapping, o["s"]))
                elif op == "find":
                    try:
                        r = (mp.find(k)(m) if f else m[k],)
                    except KeyError as e:
                        if isinstance(e, Injected):
                            raise
                        r = ()
                elif op == "try_find":
                    r = mp.try_find(k)(m) if f else m.try_find(k)
                elif op == "get":
                    dflt = Msg("default")
                    r = m.get(k, dflt) if f else m.get(k)
                elif op == "try_get_value":
                    had = [*list(d.values())[:2], None] if f else []
                    box: list = had[:]
                    r = m.try_get_value(k, box)
                elif op == "contains":
                    r = mp.contains_key(k)(m) if f else k in m
                elif op == "iter":
                    r = list(m)
                elif op == "to_list":
                    r = mp.to_list(m) if f else m.to_list()
                    if not isinstance(r, Block):
                        raise Violation("to_list", f"gave {r!r}")
                    r = list(r)
                elif op == "to_seq":
                    r = mp.to_seq(m) if f else m.to_seq()
                    r, again = list(r), list(r)
                    if not eqp(pairs(again), pairs(r)):
                        raise Violation("to_seq", f"iterated again, the sequence gave {again!r} instead of {r!r}")
                elif op == "items":
                    r = list(m.items())
                elif op == "keysvalues":
                    r = list(m.keys()) if f else list(m.values())
                elif op == "fold":
                    def folder(a: Any, kv: Any) -> Any:
                        cb(back(kv[0]))
                        return (a, back(kv[0]), kv[1])

                    r = mp.fold(folder, ())(m) if f else m.fold(folder, ())
                elif op == "fold_back":
                    def bfolder(kv: Any, a: Any) -> Any:
                        cb(back(kv[0]))
                        return (a, back(kv[0]), kv[1])

                    r = mp.fold_back(bfolder, m)(()) if f else m.fold_back(bfolder, ())
                elif op == "exists":
                    r = mp.exists(pred)(m) if f else m.exists(pred)
                elif op == "for_all":
                    r = mp.for_all(pred)(m) if f else m.for_all(pred)
                elif op in ("pick", "try_pick"):
                    picked: dict = {}

                    def chooser(k: Any, v: Any) -> Any:
                        if pred(k, v):
                            picked[back(k)] = None if back(k) % 4 == 1 else Msg(("p", back(k)))
                            return Some(picked[back(k)])
                        return Nothing

                    if op == "pick":
                        try:
                            r = (mp.pick(chooser)(m),)
                        except KeyError as e:
                            if isinstance(e, Injected):
                                raise
                            r = ()
                    else:
                        r = mp.try_pick(chooser)(m) if f else m.try_pick(chooser)
                elif op == "len":
                    r = mp.count(m) if f else len(m)
                elif op == "is_empty":
                    r = (mp.is_empty(m), m.is_empty(), bool(m))
                elif op == "eq":
                    m2, mod2 = pool[o["s2"] % len(pool)]
                    r = (m == m2, m != m2, m == d)
                elif op == "hash":
                    r = hash(m)
                elif op == "iterate":
                    seen: list = []

                    def act(k: Any, v: Any) -> None:
                        cb(back(k))
                        seen.append((back(k), v))

                    mp.iterate(act)(m) if f else m.iterate(act)
                    r = seen
                elif op == "build":
                    how = o["how"]
                    ks = o["ks"]
                    items = [(key(x), val()) for x in ks]
                    bm: dict = {}
                    for x, (_, v) in zip(ks, items):
                        bm[x] = v

                    def src() -> Any:
                        for i, kv in enumerate(items):
                            if "srcfail" in o and i == o["srcfail"][0]:
                                break
                            yield kv
                        if "srcfail" in o:
                            sim.probe("source-fails")
                            sim.fault("source fails")
                            srcx.append((Injected if o["srcfail"][1] == "E" else InjectedBase)(("src", o["s"])))
                            raise srcx[0]

                    base = how.removesuffix("_m")
                    if base == "of":
                        if kk != "str":
                            base, how = "of_list", "of_list"
                    ns = Map if how.endswith("_m") else mp
                    if base == "of":
                        r = ns.of(**dict(items))
                    elif base == "of_list":
                        r = ns.of_list(items)
                    elif base == "of_block":
                        r = ns.of_block(Block(items))
                    else:
                        r = getattr(ns, base)(src() if f else items if "srcfail" not in o else src())
                elif op == "rebuild":
                    its = [(key(x), v) for x, v in model]
                    Random(o["seed"]).shuffle(its)
                    m2 = Map.of_list(its)
                    r = (m == m2, m2 == m, hash(m) == hash(m2), m != m2)
                    if model:
                        sim.probe("eq-prefix")
                        m3 = Map.of_list([(key(x), v) for x, v in (model[:-1] if f else model[1:])])
                        if m == m3 or m3 == m:
                            raise Violation("eq", f"{m!r} equals {m3!r}")
                elif op == "open":
                    opens.setdefault(tid, []).append([iter(m) if f else iter(m.to_seq()), f, model, 0])
                    sim.probe("open-iterator")
                    r = None
                elif op == "step":
                    r = None
                    for rec in opens.get(tid, []):
                        it, keys, mod, pos = rec
                        try:
                            x = next(it)
                        except StopIteration:
                            if pos < len(mod):
                                raise Violation("open-iterator", f"an iterator opened earlier ended after {pos} of {len(mod)}") from None
                            continue
                        x = (back(x), mod[pos][1] if pos < len(mod) else None) if keys else (back(x[0]), x[1])
                        if pos >= len(mod) or x[0] != mod[pos][0] or x[1] is not mod[pos][1]:
                            raise Violation("open-iterator", f"an iterator opened earlier gave {x!r} at {pos}")
                        rec[3] += 1
            finally:
                a = arm.pop(tid, None)
        except (Injected, InjectedBase) as e:
            planned = [a[1]] if a and a[2] else []
            if e not in planned + cbx + srcx:
                raise Violation("exception", f"{op} raised {e!r}, which is not the injected one") from None
            log("raised", op)
            return
        if op == "get" and a and a[2] and isinstance(a[1], KeyError):
            return  # a mapping's get takes any KeyError for a missing key
        if (a and a[2]) or cbx or srcx:
            raise Violation("swallowed", f"{op} returned although a comparison, callback or source raised")
        # judge the result
        if op in ("filter", "map", "exists", "for_all", "pick", "try_pick", "fold", "fold_back", "iterate"):
            order = [x for x, _ in model]
            if op == "fold_back":
                order.reverse()
            if calls != order[: len(calls)]:
                raise Violation("callback-order", f"{op} called its function for {calls!r}, the keys are {order!r}"[:400])
        if op in ("filter", "map", "partition") and sorted(calls) != [x for x, _ in model]:
            raise Violation("callback-count", f"{op} called its function for {sorted(calls)!r}, the keys are {[x for x, _ in model]!r}"[:400])
        if op == "add":
            d[n] = v
            expect_map(op, r, sorted(d.items()))
        elif op == "remove":
            if n in d:
                sim.probe("remove-present")
            d.pop(n, None)
            expect_map(op, r, sorted(d.items()))
        elif op == "change":
            if calls != [n]:
                raise Violation(op, f"change called its function {len(calls)} times")
            if o["how"] == "some":
                sim.probe("change-insert" if n not in d else "replace")
                d[n] = nv
            elif o["how"] == "none":
                sim.probe("change-remove" if n in d else "change-nothing")
                d.pop(n, None)
            expect_map(op, r, sorted(d.items()))
        elif op == "filter":
            expect_map(op, r, [(x, v) for x, v in model if holds(x)])
        elif op == "partition":
            if not (isinstance(r, tuple) and len(r) == 2):
                raise Violation(op, f"partition gave {r!r}")
            expect_map(op, r[0], [(x, v) for x, v in model if holds(x)])
            expect_map(op, r[1], [(x, v) for x, v in model if not holds(x)])
        elif op == "map":
            if sorted(made) != [x for x, _ in model] or not all(x[0] for x in made.values()):
                raise Violation(op, "map called its function with other bindings")
            expect_map(op, r, [(x, made[x][1]) for x, _ in model])
        elif op == "find":
            if len(r) != (n in d) or (r and r[0] is not d[n]):
                raise Violation(op, f"lookup of {n} gave {r!r}")
        elif op == "try_find":
            expect_opt(op, r, (d[n],) if n in d else ())
        elif op == "get":
            if r is not d.get(n, dflt if f else None):
                raise Violation(op, f"get gave {r!r}")
        elif op == "try_get_value":
            new = [*had, d[n]] if n in d else had
            if bool(r) != (n in d) or len(box) != len(new) or any(x is not y for x, y in zip(box, new)):
                raise Violation(op, f"try_get_value gave {r!r}, {box!r}")
        elif op == "contains":
            expect(op, r, n in d)
        elif op == "iter":
            expect(op, [back(x) for x in r], [x for x, _ in model])
        elif op in ("to_list", "to_seq", "items"):
            if not eqp(pairs(r), model):
                raise Violation(op, f"{op} gave {r!r} instead of {model!r}")
        elif op == "keysvalues":
            if f and [back(x) for x in r] != [x for x, _ in model] or not f and (len(r) != len(model) or any(x is not v for x, (_, v) in zip(r, model))):
                raise Violation(op, f"keys/values gave {r!r}")
        elif op in ("fold", "fold_back"):
            for x, v in reversed(model) if op == "fold" else model:
                if r == () or r[1] != x or r[2] is not v:
                    raise Violation(op, f"{op} folded wrongly: {r!r}")
                r = r[0]
            if r != ():
                raise Violation(op, f"{op} folded too much: {r!r}")
        elif op == "exists":
            expect(op, bool(r), any(holds(x) for x, _ in model))
        elif op == "for_all":
            expect(op, bool(r), all(holds(x) for x, _ in model))
        elif op in ("pick", "try_pick"):
            first = [x for x, _ in model if holds(x)][:1]
            if op == "pick":
                if not first:
                    sim.probe("pick-none")
                if len(r) != len(first) or (first and r[0] is not picked.get(first[0])):
                    raise Violation(op, f"pick gave {r!r}")
            else:
                expect_opt(op, r, (picked.get(first[0]),) if first else ())
        elif op == "len":
            expect(op, r, len(model))
        elif op == "is_empty":
            expect(op, r, (not model, not model, bool(model)))
        elif op == "eq":
            w = eqp(model, mod2) or (len(model) == len(mod2) and all(x == y and (v is u or v == u) for (x, v), (y, u) in zip(model, mod2)))
            sim.probe("eq-true" if w else "eq-false")
            if not w and model and mod2 and eqp(model[: len(mod2)], mod2[: len(model)]):
                sim.probe("eq-prefix")
            expect(op, r, (w, not w, False))
        elif op == "rebuild":
            expect(op, r, (True, True, True, False))
        elif op == "iterate":
            if not eqp(r, model):
                raise Violation(op, f"iterate visited {r!r}")
        elif op == "build":
            expect_map("build", r, sorted(bm.items()))

    def thread(ops: list) -> Any:
        def run() -> None:
            tid = sim.cur.tid
            for o in ops:
                log("op", tid, o["op"])
                sw = sim.switches
                do(o, tid)
                if sim.switches != sw:
                    sim.probe("preempted-in-op")

        return run

    def main() -> None:
        model = sorted(init_model.items())
        m = Map.of_list([(key(n), init_model[n]) for n in init_model])
        put(m, model)
        put(Map.empty(), [])
        put(mp.empty, [])
        ts = [sim.spawn(thread(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)
        for m, model in pool:
            got = pairs(m.to_list())
            if not eqp(got, model):
                raise Violation("mutated", f"a Map that read {model!r} now reads {got!r}")
            if len(m) != len(model):
                raise Violation("mutated", f"len gives {len(m)} for {model!r}")
            for x, v in model[:: max(1, len(model) // 20)]:
                if m.try_find(key(x)).to_list() != [v]:
                    raise Violation("mutated", f"key {x} is not found in {model!r}")

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
