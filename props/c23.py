"""C23: TypedArray as a typed mutable list, with failing callbacks, sources and conversions; shared for reading by threads."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, focused, gen_sched, known, same_tree, size
from sim.threads import Sim

from .aio import Falsy, Msg, odd

ID = "C23"
TITLE = "TypedArray as a list"
QUICK = 60000
THOROUGH = 2000000
BATCH = 120
FAULTS = ("lib", "effect", "base")
RULE = ("Threads read shared typed arrays and change their own (results of operations included) at random; callbacks, comparisons and source iterables raise at random points, values do not fit the element type; "
        "open iterators; random preemption at bytecode granularity.")
PROBES = ["callback-fails", "source-fails", "compare-fails", "does-not-fit", "typed", "mutated", "shared-read", "empty-array", "zero-count", "preempted-in-op", "index-error", "falsy", "inferred", "source-changed"]

CODES = ["Any", "Any", "Any", "Byte", "Int8", "Int16", "Int32", "Int64", "Uint8", "Uint16", "Uint32", "Uint64", "Double", "Float"]
RANGE = {"Byte": (0, 255), "Int8": (-128, 127), "Int16": (-2**15, 2**15 - 1), "Int32": (-2**31, 2**31 - 1), "Int64": (-2**63, 2**63 - 1), "Uint8": (0, 255), "Uint16": (0, 2**16 - 1),
         "Uint32": (0, 2**32 - 1), "Uint64": (0, 2**64 - 1), "Double": (-2.0**40, 2.5), "Float": (-2.0, 0.25)}
READ = ["map", "map", "choose", "collect", "filter", "filter", "fold", "forall", "head", "try_head", "tail", "item", "index", "slice", "indexed", "skip", "skip_last", "take", "take_last", "sort", "sort_with",
        "sum", "sum_by", "eq", "len", "iter", "is_empty", "contains", "count", "find", "reversed", "open", "step"]
WRITE = ["insert", "insert", "setitem", "delitem", "append", "extend", "pop", "remove", "reverse", "clear", "setslice", "delslice", "iadd"]
MAKE = ["build", "build", "of", "of_seq", "singleton", "of_option", "empty", "unfold", "infer", "infer"]
CB = {"map", "choose", "collect", "filter", "fold", "forall", "sort_with", "sum_by", "unfold"}


def gen_op(rng: Random) -> dict:
    op = rng.choice(rng.choice([READ, READ, WRITE, MAKE]))
    o: dict = {"op": op, "s": rng.choice([rng.randrange(64), rng.randrange(64), -1]), "s2": rng.choice([rng.randrange(64), -1, -2]), "f": rng.random() < 0.45, "n": rng.choice([0, 0, 1, 1, 2, 3, 5, 12, 20]),
               "x": rng.randrange(8), "code": rng.choice(CODES), "vs": [rng.randrange(8) for _ in range(size(rng, [0, 1, 2, 3, 5, 8]))], "p": [rng.choice([0, 1]) for _ in range(rng.randint(1, 4))]}
    if op in ("item", "index", "insert", "setitem", "delitem", "pop"):
        o["n"] = rng.choice([0, 0, 1, 2, 3, -1, -2, 9, -9, 15, -12])
    if op in ("slice", "setslice", "delslice"):
        o["sl"] = [rng.choice([None, 0, 1, 2, -1, -3, 7]), rng.choice([None, 0, 1, 3, -1, 9]), rng.choice([None, 1, 2, -1]) if op == "slice" else None]
    if op in ("sort", "sort_with"):
        o["rev"] = rng.random() < 0.4
    if op == "build":
        o["src"] = rng.choice(["list", "gen", "tuple", "array", "cls"])
        o["explicit"] = rng.random() < 0.7
    if op in ("insert", "setitem", "append"):
        o["bad"] = rng.choice([None, None, None, "big", "type"])
    if op == "infer":
        o["code"] = rng.choice(CODES[3:])
        o["src"] = rng.choice(["list", "first", "map", "bytes", "bytearray", "gen"])
        o["bad"] = rng.random() < 0.1
    if op in CB and rng.random() < 0.2:
        o["cbfail"] = [rng.choice([0, 1, 2, 4]), rng.choice(["E", "E", "B"])]
    if op in ("build", "of_seq", "setslice") and rng.random() < 0.25:
        o["srcfail"] = [rng.randrange(0, len(o["vs"]) + 1), rng.choice(["E", "B"])]
    if op in ("sort", "eq", "contains", "count", "find", "remove") and rng.random() < 0.2:
        o["cmpfail"] = [rng.choice([0, 1, 2]), rng.choice(["E", "E", "B"])]
    return o


def generate(rng: Random, tier: str) -> dict:
    nt = rng.choice([1, 1, 2, 3])
    init = [dict(gen_op(rng), op="build", src="list", explicit=True, code=rng.choice(CODES)) for _ in range(3)]
    for o in init:
        for x in ("srcfail", "cbfail", "cmpfail"):
            o.pop(x, None)
    op = focused(rng, lambda: gen_op(rng))
    return {"init": init, "threads": [[op() for _ in range(rng.choice([3, 6, 10]))] for _ in range(nt)], "sched": gen_sched(rng, nt + 1, 300)}


def SHRINK(path: tuple) -> bool:
    return path[0] in ("threads", "init") and path[-1] not in ("cbfail", "srcfail", "cmpfail", "sl")


def execute(case: dict) -> None:
    from expression import Nothing, Some
    from expression.collections import TypedArray, array as am
    from expression.collections.array import TypeCode

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=5_000_000)
    log = sim.log
    arm: dict[int, Any] = {}
    counter = [0]

    class Item:
        __slots__ = ("n",)

        def __init__(self, n: int) -> None:
            self.n = n

        def hit(self) -> None:
            a = arm.get(sim.cur.tid)
            if a is not None and not a[2]:
                if a[0] == 0:
                    a[2] = True
                    sim.probe("compare-fails")
                    sim.fault("comparison fails")
                    raise a[1]
                a[0] -= 1

        def __lt__(self, o: Any) -> bool:
            self.hit()
            return self.n < o.n

        def __eq__(self, o: Any) -> bool:
            self.hit()
            return isinstance(o, Item) and self.n == o.n

        def __hash__(self) -> int:
            return 1

        def __repr__(self) -> str:
            return f"I{self.n}"

    def mk(n: int, code: str) -> Any:
        if code == "Any":
            return Item(n)
        lo, hi = RANGE[code]
        return [lo, hi, *([0.0, 1.5, 0.25, 2.0, -1.0, 0.5] if code in ("Double", "Float") else [0, 1, 2, 3, 5, 100])][n % 8]

    def num(x: Any) -> Any:
        return x.n if isinstance(x, Item) else x if type(x) in (int, float) else 0

    # entry: {"a": the array, "m": the list it should equal, "code": element type or None, "own": thread that may change it or None}
    pool: list[dict] = []

    def same(a: Any, b: Any) -> bool:
        return same_tree(a, b, lambda a, b: type(a) is type(b) and type(a) in (int, float, bool) and a == b)

    def sames(a: Any, b: Any) -> bool:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))

    def reads(e: dict, what: str) -> None:
        got = list(e["a"])
        if not sames(got, e["m"]) or len(e["a"]) != len(e["m"]):
            raise Violation(what, f"{what}: the array reads {got!r} instead of {e['m']!r}"[:400])

    def add(a: Any, m: list, code: Any, own: Any, what: str, loose: bool = False) -> None:
        if not isinstance(a, TypedArray):
            raise Violation(what, f"{what} gave {a!r}, not a TypedArray")
        e = {"a": a, "m": list(m), "code": code, "own": own, "loose": loose}
        reads(e, what)
        if not m:
            sim.probe("empty-array")
        if code not in (None, "Any"):
            sim.probe("typed")
        if len(pool) < 30:
            pool.append(e)

    def known_zero(op: str, o: dict, got: Any, wrong: list) -> bool:
        return o["n"] == 0 and known(ID, f"TypedArray.{op}(0)") and sames(list(got), wrong)

    opens: dict[int, list] = {}

    def do(o: dict, tid: int) -> None:
        op, f = o["op"], o["f"]
        e = pool[o["s"] % len(pool)] if pool else {"a": None, "m": [], "code": "Any", "own": None, "loose": False}
        if op in WRITE:
            mine = [z for z in pool if z["own"] == tid and z["code"] is not None]
            if not mine:
                return
            e = mine[o["s"] % len(mine)]
            opens.pop(tid, None)
        e2 = pool[o["s2"] % len(pool)] if pool else e
        if op not in WRITE and ((e["own"] is not None and e["own"] != tid) or (e2["own"] is not None and e2["own"] != tid)):
            # another thread may be changing it
            shared = [z for z in pool if z["own"] is None or z["own"] == tid]
            if not shared:
                return
            e, e2 = shared[o["s"] % len(shared)], shared[o["s2"] % len(shared)]
        if e["own"] is None and op in READ:
            sim.probe("shared-read")
        a, m, code = e["a"], e["m"], e["code"]
        b, m2 = e2["a"], e2["m"]
        sw = sim.switches
        cbx: list = []
        srcx: list = []
        seen: list = []
        calls = [0]
        made: list = []

        def cb(*args: Any) -> int:
            i = calls[0]
            calls[0] += 1
            if cbx:
                raise Violation("called-again", f"{op} called its function again after it had failed")
            if "cbfail" in o and i == o["cbfail"][0]:
                sim.probe("callback-fails")
                sim.fault("callback fails")
                cbx.append((Injected if o["cbfail"][1] == "E" else InjectedBase)((op, i, o["x"])))
                raise cbx[0]
            seen.append(args)
            return i

        def bit(i: int) -> int:
            return o["p"][i % len(o["p"])]

        def fresh(*args: Any) -> Any:
            i = cb(*args)
            if i % 4 == 2:
                sim.probe("falsy")
            made.append([Msg(i), None, Falsy(i), args[-1]][i % 4])
            return made[-1]

        def pred(x: Any) -> Any:
            return bit(cb(x))

        fresh, pred = odd(fresh, o["x"]), odd(pred, o["x"])

        def source(vs: list) -> Any:
            k = o.get("src", "gen")
            if "srcfail" not in o:
                if k == "list":
                    return list(vs)
                if k == "tuple":
                    return tuple(vs)
                if k == "array":
                    return TypedArray(vs)

            def gen() -> Any:
                for i, x in enumerate([*vs, None]):
                    if "srcfail" in o and o["srcfail"][0] == i:
                        sim.probe("source-fails")
                        sim.fault("source fails")
                        srcx.append((Injected if o["srcfail"][1] == "E" else InjectedBase)((op, "src", i)))
                        raise srcx[0]
                    if i < len(vs):
                        yield x

            if k == "cls":
                class It:
                    def __iter__(self) -> Any:
                        return gen()

                return It()
            return gen()

        if "cmpfail" in o:
            arm[tid] = [o["cmpfail"][0], (Injected if o["cmpfail"][1] == "E" else InjectedBase)((op, "cmp", o["x"])), False]
        armed: Any = None
        err: Any = None
        r: Any = None
        x: Any = None
        how = None
        try:
            try:
                if op == "build":
                    vs = [mk(n, o["code"]) for n in o["vs"]]
                    how = o["code"] if o["explicit"] else None
                    r = TypedArray(source(vs), TypeCode[how]) if how else TypedArray(source(vs))
                elif op == "infer":
                    how = o["code"]
                    src = o["src"]
                    vs = [mk(n, how) for n in o["vs"]]
                    if how == "Byte" or src in ("bytes", "bytearray"):
                        how = "Byte"
                        vs = [mk(n, how) for n in o["vs"]]
                        raw = bytearray(vs) if src == "bytearray" or o["x"] % 2 else bytes(vs)
                        r = TypedArray(raw)
                        if isinstance(raw, bytearray):
                            sim.probe("source-changed")
                            raw.append(7)
                            raw[0] ^= 1
                    else:
                        cl = {"Float": am.float32, "Double": [am.float64, am.double][o["x"] % 2]}.get(how) or getattr(am, how.lower())
                        ws: list = [cl(x) if i == 0 or src != "first" else x for i, x in enumerate(vs)]
                        if o["bad"] and vs:
                            sim.probe("does-not-fit")
                            sim.fault("value does not fit")
                            ws.append("no number" if o["x"] % 2 or how not in RANGE or how in ("Double", "Float") else 2**64 if how.endswith("32") else RANGE[how][1] + 1)
                        if src == "map":
                            r = TypedArray(range(len(ws))).map(lambda i: ws[i])
                        elif src == "gen":
                            r = am.of_seq(x for x in ws)
                        else:
                            r = am.of_seq(ws) if f else TypedArray(ws)
                elif op == "of":
                    vs = [mk(n, "Any") for n in o["vs"]]
                    r = am.of(*vs) if f else TypedArray.of(*vs)
                elif op == "of_seq":
                    vs = [mk(n, "Any") for n in o["vs"]]
                    r = am.of_seq(source(vs)) if f else TypedArray.of_seq(source(vs))
                elif op == "singleton":
                    vs = [mk(o["x"], "Any")]
                    r = am.singleton(vs[0])
                elif op == "of_option":
                    vs = [None if f else mk(o["x"], "Any")] if o["x"] % 3 else []
                    r = am.of_option(Some(vs[0]) if vs else Nothing)
                elif op == "empty":
                    vs = []
                    r = am.empty() if f else TypedArray.empty()
                elif op == "unfold":
                    def ug(s: int) -> Any:
                        i = cb(s)
                        if s >= o["n"] or s >= 7:
                            return Nothing
                        made.append(Item(s) if i % 3 else None)
                        return Some((made[-1], s + 1))

                    r = am.unfold(ug)(0) if f else TypedArray.unfold(ug, 0)
                elif op == "map":
                    r = am.map(fresh)(a) if f else a.map(fresh)
                elif op == "choose":
                    def ch(x: Any) -> Any:
                        i = cb(x)
                        return Some(x if i % 2 else None) if bit(i) else Nothing

                    r = a.choose(ch)
                elif op == "collect":
                    def co(x: Any) -> Any:
                        i = cb(x)
                        return TypedArray([x] * (bit(i) * 2 + i % 2))

                    r = a.collect(co)
                elif op == "filter":
                    r = am.filter(pred)(a) if f else a.filter(pred)
                elif op == "fold":
                    s0 = [Msg("s0"), Msg("s0"), None, 0, ()][o["s"] % 5]
                    r = am.fold(fresh, s0)(a) if f else a.fold(fresh, s0)
                elif op == "forall":
                    r = a.forall(pred)
                elif op in ("head", "tail"):
                    r = getattr(a, op)()
                elif op == "try_head":
                    r = am.try_head(a) if f else a.try_head()
                elif op == "item":
                    r = am.item(o["n"])(a) if f else a.item(o["n"])
                elif op == "index":
                    r = a[o["n"]]
                elif op == "slice":
                    r = a[slice(*o["sl"])]
                elif op == "indexed":
                    r = a.indexed() if o["n"] == 0 and not f else am.indexed(o["n"])(a) if f else a.indexed(o["n"])
                elif op in ("skip", "skip_last", "take", "take_last"):
                    if not o["n"]:
                        sim.probe("zero-count")
                    r = getattr(am, op)(o["n"])(a) if f and op.startswith("take") else getattr(a, op)(o["n"])
                elif op == "sort":
                    if not all(isinstance(z, (Item, int, float)) for z in m):
                        return
                    if not (all(isinstance(z, Item) for z in m) or not any(isinstance(z, Item) for z in m)):
                        return
                    r = a.sort(o["rev"]) if f else a.sort(reverse=o["rev"])
                elif op == "sort_with":
                    def kf(x: Any) -> Any:
                        cb(x)
                        return num(x)

                    r = a.sort_with(kf, o["rev"])
                elif op == "sum":
                    if not all(type(z) in (int, float) for z in m):
                        return
                    r = am.sum(a) if f else a.sum()
                elif op == "sum_by":
                    def proj(x: Any) -> Any:
                        cb(x)
                        return num(x)

                    r = am.sum_by(proj)(a) if f else a.sum_by(proj)
                elif op == "eq":
                    r = (a == b, a != b, a == m2)
                elif op == "len":
                    r = len(a)
                elif op == "is_empty":
                    r = am.is_empty(a) if f else a.is_empty()
                elif op == "iter":
                    r = list(a)
                elif op == "reversed":
                    r = list(reversed(a))
                elif op in ("contains", "count", "find", "remove"):
                    x = m[o["x"] % len(m)] if m and f else mk(o["x"], code if code not in (None,) else "Any")
                    if op == "contains":
                        r = x in a
                    elif op == "count":
                        r = a.count(x)
                    elif op == "find":
                        r = a.index(x)
                    else:
                        a.remove(x)
                elif op == "open":
                    opens[tid] = [e, iter(a), 0]
                    return
                elif op == "step":
                    rec = opens.get(tid)
                    if rec is not None:
                        e0, it, posn = rec
                        y = next(it, opens)
                        if posn >= len(e0["m"]):
                            if y is not opens:
                                raise Violation("open-iterator", f"an iterator gave {y!r} past the end")
                            opens.pop(tid)
                        elif not same(y, e0["m"][posn]):
                            raise Violation("open-iterator", f"an iterator gave {y!r} at {posn}")
                        else:
                            rec[2] += 1
                    return
                elif op in ("insert", "setitem", "append"):
                    x = mk(o["x"], code)
                    if code != "Any" and o["bad"] and not e["loose"]:
                        sim.probe("does-not-fit")
                        sim.fault("value does not fit")
                        x = "no number" if o["bad"] == "type" or code in ("Double", "Float") else 2**64 if code.endswith("32") else RANGE[code][1] + 1
                    if op == "insert":
                        a.insert(o["n"], x)
                    elif op == "setitem":
                        a[o["n"]] = x
                    else:
                        a.append(x)
                elif op == "delitem":
                    del a[o["n"]]
                elif op == "pop":
                    r = a.pop(o["n"]) if f else a.pop()
                elif op in ("extend", "iadd"):
                    vs = [mk(n, code) for n in o["vs"]]
                    if op == "extend":
                        a.extend(iter(vs))
                    else:
                        a += vs
                elif op == "reverse":
                    a.reverse()
                elif op == "clear":
                    a.clear()
                elif op == "setslice":
                    if code != "Any":
                        return
                    vs = [mk(n, code) for n in o["vs"]]
                    a[slice(*o["sl"])] = source(vs)
                elif op == "delslice":
                    del a[slice(*o["sl"])]
                else:
                    raise AssertionError(op)
            finally:
                armed = arm.pop(tid, None)
        except (Injected, InjectedBase) as ex:
            if not any(ex is p for p in ([armed[1]] if armed and armed[2] else []) + cbx + srcx):
                raise Violation("exception", f"{op} raised {ex!r}, which is not the injected one") from None
            log("raised", op)
            if e["a"] is not None:
                reads(e, f"after a failed {op}")
            return
        except (ValueError, IndexError, TypeError, OverflowError) as ex:
            err = ex
        if (armed and armed[2]) or cbx or srcx:
            raise Violation("swallowed", f"{op} returned although a comparison, callback or source raised")
        if sim.switches != sw:
            sim.probe("preempted-in-op")
        log(op, type(err).__name__ if err else "")

        def fails(cond: bool, *kinds: type) -> bool:
            """Should it have failed? True if it did, as it should."""
            if cond:
                sim.probe("index-error")
                if not isinstance(err, kinds):
                    raise Violation(op, f"{op}({o['n']}, {x!r}) on {m!r} gave {err or r!r}"[:300])
                reads(e, f"after a failed {op}")
                return True
            if err is not None:
                raise Violation(op, f"{op}({o['n']}, {x!r}) on {m!r} raised {err!r}"[:300])
            return False

        def expect(want: Any) -> None:
            if type(want) is list:
                if not sames(list(r), want):
                    raise Violation(op, f"{op} on {m!r} gave {r!r} instead of {want!r}"[:400])
            elif not same(r, want):
                raise Violation(op, f"{op} on {m!r} gave {r!r} instead of {want!r}"[:400])

        def each(n: int, *extra: Any) -> None:
            """The callback saw the first n elements, in order."""
            if len(seen) != n or any(not same(s[-1], y) for s, y in zip(seen, m)):
                raise Violation(op, f"{op} on {m!r} called its function with {seen!r}"[:400])

        n = o["n"]
        L = len(m)
        if op in MAKE:
            if op == "infer":
                sim.probe("inferred")
                if fails(bool(o["bad"] and vs and how != "Byte"), TypeError, OverflowError, ValueError):
                    return
                if not vs and how != "Byte":
                    how = None
            fails(False)
            want = made if op == "unfold" else vs
            add(r, want, "Any" if how is None else how, tid, op)
            if op == "unfold" and [s[0] for s in seen] != list(range(min(o["n"], 7) + 1)):
                raise Violation(op, f"unfold called its function with {seen!r}")
            if how and r.typecode is not TypeCode[how]:
                raise Violation(op, f"an array built as {how} is {r.typecode}")
            if how is None and o.get("code") != "Any" and op == "build":
                pool[-1]["code"] = None  # element type chosen by the constructor: not changed by the test
            return
        if op == "map":
            fails(False)
            each(L)
            add(r, made, "Any", tid, op)
        elif op == "choose":
            fails(False)
            each(L)
            add(r, [y if i % 2 else None for i, y in enumerate(m) if bit(i)], "Any" if None in m or code == "Any" or any(bit(i) and not i % 2 for i in range(L)) else None, tid, op)
        elif op == "collect":
            fails(False)
            each(L)
            add(r, [y for i, y in enumerate(m) for _ in range(bit(i) * 2 + i % 2)], code, tid, op, True)
        elif op == "filter":
            fails(False)
            each(L)
            add(r, [y for i, y in enumerate(m) if bit(i)], code, tid, op, e["loose"])
            if r.typecode is not a.typecode:
                raise Violation(op, f"filter of {a.typecode} gave {r.typecode}")
        elif op == "fold":
            fails(False)
            each(L)
            if any(s[0] is not p for s, p in zip(seen, [s0, *made])):
                raise Violation(op, "fold passed another state")
            expect(made[-1] if made else s0)
        elif op == "forall":
            fails(False)
            k = next((i for i in range(L) if not bit(i)), L)
            each(min(k + 1, L))
            expect(k == L)
        elif op == "head":
            if not fails(not m, ValueError):
                expect(m[0])
        elif op == "tail":
            if not fails(not m, ValueError):
                add(r, m[1:], code, tid, op, True)
        elif op == "try_head":
            fails(False)
            if m and not (r.is_some() and same(r.value, m[0])) or not m and not r.is_none():
                raise Violation(op, f"try_head on {m!r} gave {r!r}")
        elif op in ("item", "index"):
            if not fails(not -L <= n < L, IndexError):
                expect(m[n])
        elif op == "slice":
            fails(False)
            expect(m[slice(*o["sl"])])
        elif op == "indexed":
            fails(False)
            add(r, [(i + n, y) for i, y in enumerate(m)], "Any", tid, op)
        elif op in ("skip", "skip_last", "take", "take_last"):
            fails(False)
            want = {"skip": m[n:], "take": m[:n], "skip_last": m[: max(L - n, 0)], "take_last": m[max(L - n, 0):]}[op]
            if not (op.endswith("_last") and L and known_zero(op, o, r, [] if op == "skip_last" else m)):
                add(r, want, code, tid, op, True)
        elif op in ("sort", "sort_with"):
            fails(False)
            if op == "sort_with" and (len(seen) != L or any(not any(same(s[0], y) for y in m) for s in seen)):
                raise Violation(op, "sort_with called its function with other values")
            add(r, sorted(m, key=num, reverse=o["rev"]), code, tid, op, True)
        elif op in ("sum", "sum_by"):
            fails(False)
            if op == "sum_by":
                each(L)
            expect(sum(num(y) for y in m))
        elif op == "eq":
            fails(False)
            want = len(m) == len(m2) and all(same(p, q) or (isinstance(p, Item) and isinstance(q, Item) and p.n == q.n) or (type(p) in (int, float) and type(q) in (int, float) and p == q)
                                             or (type(p) is tuple and type(q) is tuple and p == q) for p, q in zip(m, m2))
            expect((want, not want, want))
        elif op == "len":
            fails(False)
            expect(L)
        elif op == "is_empty":
            fails(False)
            expect(not m)
        elif op == "iter":
            fails(False)
            expect(list(m))
        elif op == "reversed":
            fails(False)
            expect(m[::-1])
        elif op in ("contains", "count", "find", "remove"):
            hits = [i for i, y in enumerate(m) if same(y, x) or (isinstance(x, Item) and isinstance(y, Item) and x.n == y.n) or (type(x) in (int, float) and type(y) in (int, float) and x == y)
                    or (type(x) is tuple and type(y) is tuple and x == y)]
            if op == "contains":
                fails(False)
                expect(bool(hits))
            elif op == "count":
                fails(False)
                expect(len(hits))
            elif not fails(not hits, ValueError):
                if op == "find":
                    expect(hits[0])
                else:
                    sim.probe("mutated")
                    del m[hits[0]]
        # changes
        elif op in ("insert", "append"):
            if not fails(code != "Any" and bool(o["bad"]) and not e["loose"], TypeError, OverflowError, ValueError):
                sim.probe("mutated")
                m.insert(n, x) if op == "insert" else m.append(x)
        elif op == "setitem":
            if not fails((code != "Any" and bool(o["bad"]) and not e["loose"]) or not -L <= n < L, TypeError, OverflowError, ValueError, IndexError):
                sim.probe("mutated")
                m[n] = x
        elif op == "delitem":
            if not fails(not -L <= n < L, IndexError):
                sim.probe("mutated")
                del m[n]
        elif op == "pop":
            n = n if f else -1
            if not fails(not -L <= n < L, IndexError):
                sim.probe("mutated")
                expect(m.pop(n))
        else:
            fails(False)
            sim.probe("mutated")
            if op in ("extend", "iadd"):
                m.extend(vs)
            elif op == "reverse":
                m.reverse()
            elif op == "clear":
                m.clear()
            elif op == "setslice":
                m[slice(*o["sl"])] = vs
            elif op == "delslice":
                del m[slice(*o["sl"])]
        reads(e, f"after {op}")

    def thread(ops: list) -> Any:
        def run() -> None:
            tid = sim.cur.tid
            for o in ops:
                do(o, tid)

        return run

    def main() -> None:
        for o in case["init"]:
            do(o, sim.cur.tid)
            pool[-1]["own"] = None
        ts = [sim.spawn(thread(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)
        for e in pool:
            reads(e, "at the end")

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
