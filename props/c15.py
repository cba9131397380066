"""C15: Block against a tuple, from several threads, with failing callbacks, comparisons and sources."""

from __future__ import annotations

from functools import reduce
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, focused, gen_sched, known, same_tree, size
from sim.threads import Sim

from .aio import Falsy, Msg, odd

ID = "C15"
TITLE = "immutable Block"
QUICK = 60000
THOROUGH = 2000000
BATCH = 80
FAULTS = ("lib", "effect", "base")
RULE = ("Threads apply random operations (method and function forms) to a shared pool of Block values and add their results to it, with open iterators in between; "
        "callbacks, comparisons and source iterables raise at random points; random preemption schedule at bytecode granularity; some blocks have thousands of elements.")
PROBES = ["compare-fails", "callback-fails", "source-fails", "preempted-in-op", "big", "empty-block", "zero-count", "ties", "open-iterator", "reentrant", "empty-error", "index-error", "source-mutated", "unequal-zip"]

OPS = (["cons", "cons", "append", "append", "plus", "map", "map", "starmap", "mapi", "choose", "collect", "filter", "partition", "fold", "reduce", "forall", "head", "try_head", "tail",
        "item", "index", "slice", "indexed", "skip", "skip_last", "take", "take_last", "sort", "sort_with", "sum", "sum_by", "unfold", "zip", "concat", "range", "of_option", "contains",
        "len", "eq", "iter", "build", "build", "open", "step", "step", "match", "is_empty"])
CB = {"map", "starmap", "mapi", "choose", "collect", "filter", "partition", "fold", "reduce", "forall", "sort_with", "sum_by", "unfold"}


def gen_op(rng: Random) -> dict:
    op = rng.choice(OPS)
    o: dict = {"op": op, "s": rng.choice([rng.randrange(64), rng.randrange(64), -1]), "f": rng.random() < 0.45}
    if op in ("append", "plus", "zip", "eq"):
        o["s2"] = rng.choice([rng.randrange(64), -1, -2])
    if op in CB:
        o["p"] = [rng.choice([0, 1]) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.15:
            o["cbfail"] = [rng.choice([0, 1, 2, 4]), rng.choice(["E", "E", "B"])]
        if rng.random() < 0.12:
            o["cbread"] = rng.randrange(64)
    if op in ("skip", "skip_last", "take", "take_last"):
        o["n"] = rng.choice([0, 0, 1, 1, 2, 3, 5, 12, 20])
    if op in ("item", "index"):
        o["n"] = rng.choice([0, 0, 1, 2, 3, -1, -2, 9, 15, -12])
    if op == "slice":
        o["sl"] = [rng.choice([None, 0, 1, 2, -1, -3, 7]), rng.choice([None, 0, 1, 3, -1, 9]), rng.choice([None, 1, 2, -1])]
    if op == "indexed":
        o["n"] = rng.choice([None, 0, 1, 5, -2])
    if op in ("sort", "sort_with"):
        o["rev"] = rng.random() < 0.4
    if op == "concat":
        o["ss"] = [rng.randrange(64) for _ in range(rng.choice([0, 1, 2, 3]))]
        o["how"] = rng.choice(["list", "gen"])
    if op == "range":
        o["args"] = [rng.randint(-3, 6), rng.randint(-3, 9), rng.choice([1, 2, -1])][: rng.choice([1, 2, 3])]
    if op == "unfold":
        o["n"] = size(rng, [0, 1, 3, 6])
    if op == "build":
        o["how"] = rng.choice(["init", "init", "of", "of_seq", "of_m", "of_seq_m", "singleton", "empty"])
        o["src"] = rng.choice(["list", "list", "gen", "tuple", "block", "cls"])
        o["vs"] = [rng.randrange(6) for _ in range(size(rng, [0, 1, 2, 3, 5, 8]))]
        if o["src"] in ("gen", "cls") and o["how"] in ("init", "of_seq", "of_seq_m") and rng.random() < 0.3:
            o["srcfail"] = [rng.randrange(0, len(o["vs"]) + 1), rng.choice(["E", "B"])]
    if op in ("sort", "contains", "eq") and rng.random() < 0.2:
        o["cmpfail"] = [rng.choice([0, 1, 2, 4]), rng.choice(["E", "E", "B"])]
    return o


def generate(rng: Random, tier: str) -> dict:
    nt = rng.choice([1, 2, 2, 3])
    big = rng.random() < 0.004
    if big:
        nt = 1
    op = focused(rng, lambda: gen_op(rng))
    threads = [[op() for _ in range(rng.choice([2, 4, 6, 10]))] for _ in range(nt)]
    init = [rng.randrange(6) for _ in range(rng.choice([1500, 4000]) if big else size(rng, [0, 1, 3, 6, 10]))]
    return {"init": init, "threads": threads, "big": big, "sched": gen_sched(rng, nt + 1, 400)}


def SHRINK(path: tuple) -> bool:
    return path[0] in ("threads", "init") and path[-1] not in ("cbfail", "cmpfail", "srcfail", "sl", "args")


def execute(case: dict) -> None:
    from expression import Nothing, Option, Some
    from expression.collections import Block, block as bl

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=20_000_000)
    log = sim.log
    if case.get("big"):
        sim.probe("big")
    arm: dict[int, list] = {}

    class Item:
        """Compares by n; may fail to compare."""

        __slots__ = ("n",)

        def __init__(self, n: int) -> None:
            self.n = n

        def hit(self) -> None:
            a = arm.get(sim.cur.tid)
            if a is not None and not a[2]:
                if a[0] == 0:
                    a[2] = True
                    sim.probe("compare-fails")
                    sim.fault("comparison fails")
                    raise a[1]
                a[0] -= 1

        def __lt__(self, o: Any) -> bool:
            self.hit()
            return num(self) < num(o)

        def __gt__(self, o: Any) -> bool:
            self.hit()
            return num(self) > num(o)

        def __eq__(self, o: Any) -> bool:
            self.hit()
            return isinstance(o, Item) and self.n == o.n and not isinstance(o, Never)

        def __hash__(self) -> int:
            return 1

        def __repr__(self) -> str:
            return f"I{self.n}"

    def num(x: Any) -> int:
        return x.n if isinstance(x, Item) else x if type(x) is int else 0

    class Never(Item):
        """Not even equal to itself."""

        __slots__ = ()

        def __eq__(self, o: Any) -> bool:
            self.hit()
            return False

        def __hash__(self) -> int:
            return 2

    class Doc(Item):
        __slots__ = ()
        __hash__ = Item.__hash__

        def dict(self) -> Any:
            return ("dict", self.n)

    class Model(Doc):
        __slots__ = ()
        __hash__ = Item.__hash__

        def model_dump(self) -> Any:
            return ("model", self.n)

    nmk = [0]

    def mk(n: int) -> Any:
        nmk[0] += 1
        i = nmk[0] % 23
        return (Never if i == 3 else Doc if i == 9 else Model if i == 15 else Item)(n)

    def dumped(x: Any) -> Any:
        if type(x) in (list, tuple):
            return type(x)(dumped(y) for y in x)
        return x.model_dump() if isinstance(x, Model) else x.dict() if isinstance(x, Doc) else x

    pool: list[tuple[Any, tuple]] = []

    def same(a: Any, b: Any) -> bool:
        return same_tree(a, b, lambda a, b: type(a) is type(b) is int and a == b)

    def expect(op: str, got: Any, want: Any) -> None:
        if not same(got, want) and not (isinstance(want, (bool, int)) and type(got) is type(want) and got == want):
            raise Violation(op, f"{op} gave {got!r} instead of {want!r}"[:400])

    def expect_block(op: str, b: Any, want: tuple) -> None:
        if not isinstance(b, Block):
            raise Violation(op, f"{op} gave {b!r}, not a Block")
        got = tuple(b)
        if not same(got, want):
            raise Violation(op, f"{op} gave {got!r} instead of {want!r}"[:400])
        if not want:
            sim.probe("empty-block")
        if (want or len(pool) < 4) and (len(want) <= 24 or case.get("big")):
            pool.append((b, got))

    def known_zero(o: dict, b: Any, wrong: tuple) -> bool:
        """The listed finding: a count of 0 is taken as the slice [:-0] or [-0:]."""
        return o["n"] == 0 and known(ID, f"Block.{o['op']}(0)") and isinstance(b, Block) and same(tuple(b), wrong)

    opens: dict[int, list] = {}

    def do(o: dict, tid: int) -> None:
        b, xs = pool[o["s"] % len(pool)]
        op, f = o["op"], o["f"]
        calls = [0]
        cbx: list = []
        made: list = []

        def cb() -> int:
            i = calls[0]
            calls[0] += 1
            if cbx:
                raise Violation("called-again", f"{op} called its function again after it had failed")
            if "cbread" in o:
                sim.probe("reentrant")
                b2, x2 = pool[o["cbread"] % len(pool)]
                if len(b2) != len(x2):
                    raise Violation("reentrant", "a Block read from a callback has the wrong length")
            if "cbfail" in o and i == o["cbfail"][0]:
                sim.probe("callback-fails")
                sim.fault("callback fails")
                cbx.append((Injected if o["cbfail"][1] == "E" else InjectedBase)(("cb", i)))
                raise cbx[0]
            return i

        def bit(i: int) -> int:
            return o["p"][i % len(o["p"])]

        seen: list = []

        def fresh(*a: Any) -> Any:
            cb()
            seen.append(a)
            made.append(None if len(made) % 5 == 3 else Falsy(len(made)) if len(made) % 5 == 2 else Msg(len(made)))
            return made[-1]

        def pred(x: Any) -> Any:
            i = cb()
            seen.append((x,))
            return bit(i)

        fresh, pred = odd(fresh, o["s"]), odd(pred, o["s"])
        if "s2" in o:
            b2, x2 = pool[o["s2"] % len(pool)]
        if "cmpfail" in o:
            arm[tid] = [o["cmpfail"][0], (Injected if o["cmpfail"][1] == "E" else InjectedBase)(("cmp", o["s"])), False]
        srcx: list = []
        r: Any = None
        err: Any = None
        try:
            try:
                if op == "cons":
                    x = mk(len(xs) % 6)
                    r = bl.cons(x, b) if f else b.cons(x)
                elif op == "append":
                    r = bl.append(b2)(b) if f else b.append(b2)
                elif op == "plus":
                    r = b + b2
                elif op == "map":
                    r = bl.map(fresh)(b) if f else b.map(fresh)
                elif op == "mapi":
                    r = bl.mapi(fresh)(b) if f else b.mapi(fresh)
                elif op == "starmap":
                    pairs = Block([(i, x) for i, x in enumerate(xs)])
                    r = (bl.starmap, bl.map2, bl.map3)[len(xs) % 3](fresh)(pairs) if f else pairs.starmap(fresh)
                elif op == "choose":
                    def ch(x: Any) -> Any:
                        i = cb()
                        return Some(x if i % 2 else None) if bit(i) else Nothing

                    r = bl.choose(ch)(b) if f else b.choose(ch)
                elif op == "collect":
                    def co(x: Any) -> Any:
                        i = cb()
                        return Block([x] * (bit(i) * 2 + i % 2))

                    r = bl.collect(co)(b) if f else b.collect(co)
                elif op == "filter":
                    r = bl.filter(pred)(b) if f else b.filter(pred)
                elif op == "partition":
                    r = bl.partition(pred)(b) if f else b.partition(pred)
                elif op == "forall":
                    r = bl.forall(pred)(b) if f else b.forall(pred)
                elif op == "fold":
                    s0 = [Msg("s0"), Msg("s0"), None, 0, ()][o["s"] % 5]
                    r = bl.fold(fresh, s0)(b) if f else b.fold(fresh, s0)
                elif op == "reduce":
                    r = bl.reduce(fresh)(b) if f else b.reduce(fresh)
                elif op == "head":
                    r = bl.head(b) if f else b.head()
                elif op == "try_head":
                    r = bl.try_head(b) if f else b.try_head()
                elif op == "tail":
                    r = bl.tail(b) if f else b.tail()
                elif op == "item":
                    r = bl.item(o["n"])(b) if f else b.item(o["n"])
                elif op == "index":
                    r = b[o["n"]]
                elif op == "slice":
                    r = b[slice(*o["sl"])]
                elif op == "indexed":
                    r = b.indexed(o["n"]) if o["n"] is not None else bl.indexed(b) if f else b.indexed()
                elif op in ("skip", "skip_last", "take", "take_last"):
                    if not o["n"]:
                        sim.probe("zero-count")
                    r = getattr(bl, op)(o["n"])(b) if f else getattr(b, op)(o["n"])
                elif op == "sort":
                    if not all(isinstance(x, Item) for x in xs):
                        return
                    r = bl.sort(o["rev"])(b) if f else b.sort(o["rev"])
                elif op == "sort_with":
                    keys: list = []

                    def kf(x: Any) -> int:
                        cb()
                        seen.append((x,))
                        return num(x)

                    r = bl.sort_with(kf, o["rev"])(b) if f else b.sort_with(kf, o["rev"])
                elif op == "sum":
                    nb = Block([num(x) > 1 if o["s"] % 4 == 1 else num(x) for x in xs])
                    r = bl.sum(nb) if f else nb.sum()
                elif op == "sum_by":
                    def proj(x: Any) -> int:
                        cb()
                        return num(x)

                    r = bl.sum_by(proj)(b) if f else b.sum_by(proj)
                elif op == "unfold":
                    def ug(s: int) -> Any:
                        cb()
                        if s >= o["n"]:
                            return Nothing
                        made.append(Msg(s))
                        return Some((made[-1], s + 1))

                    r = bl.unfold(ug)(0) if f else Block.unfold(ug, 0)
                elif op == "zip":
                    r = bl.zip(b2)(b) if f else b.zip(b2)
                elif op == "concat":
                    bs = [pool[i % len(pool)] for i in o["ss"]]
                    src = [x[0] for x in bs]
                    r = bl.concat(src if o["how"] == "list" else (x for x in src))
                elif op == "range":
                    r = bl.range(*o["args"]) if f else Block.range(*o["args"])
                elif op == "of_option":
                    x = Msg("o")
                    opt = Some(x if f else None) if len(xs) % 3 else Nothing
                    r = bl.of_option(opt) if f else Block.of_option(opt)
                elif op == "contains":
                    x = xs[len(xs) // 2] if xs and f else mk(len(xs) % 6)
                    r = x in b
                elif op == "len":
                    r = len(b)
                elif op == "is_empty":
                    r = (bl.is_empty(b), b.is_empty(), bool(b))
                elif op == "eq":
                    r = (b == b2, b != b2, b == x2)
                elif op == "iter":
                    if f:
                        r = b.dict() if len(xs) % 2 else bl.dict(b)
                        r = tuple(r) if type(r) is list else r
                    else:
                        r = tuple(b)
                elif op == "match":
                    match b:
                        case Block((h, *t)):
                            r = (h, *t)
                        case Block(()):
                            r = ()
                elif op == "build":
                    vs = [mk(n) for n in o["vs"]]
                    how, kind = o["how"], o["src"]

                    def gen() -> Any:
                        for i, v in enumerate(vs):
                            if "srcfail" in o and i == o["srcfail"][0]:
                                break
                            yield v
                        if "srcfail" in o:
                            sim.probe("source-fails")
                            sim.fault("source fails")
                            srcx.append((Injected if o["srcfail"][1] == "E" else InjectedBase)(("src", o["s"])))
                            raise srcx[0]

                    class Src:
                        def __iter__(self) -> Any:
                            return gen()

                    lst = list(vs)
                    sv: Any = {"list": lst, "gen": gen(), "tuple": tuple(vs), "block": Block(vs), "cls": Src()}[kind]
                    want = tuple(vs)
                    if how == "init":
                        r = Block(sv)
                    elif how in ("of", "of_m"):
                        r = (bl.of if how == "of" else Block.of)(*vs)
                    elif how in ("of_seq", "of_seq_m"):
                        r = (bl.of_seq if how == "of_seq" else Block.of_seq)(sv)
                    elif how == "singleton":
                        x = mk(0)
                        want = (x,)
                        r = bl.singleton(x) if f else Block.singleton(x)
                    else:
                        want = ()
                        r = bl.empty if f else Block.empty()
                    if kind == "list":
                        if not same(tuple(lst), tuple(vs)):
                            raise Violation("source-changed", f"{how} changed its source list")
                        sim.probe("source-mutated")
                        lst.append(1)
                        lst[:1] = [2, 3]
                elif op == "open":
                    opens.setdefault(tid, []).append([iter(b), xs, 0])
                    sim.probe("open-iterator")
                elif op == "step":
                    for rec in opens.get(tid, []):
                        it, mod, pos = rec
                        y = next(it, it)
                        if y is it:
                            if pos < len(mod):
                                raise Violation("open-iterator", f"an iterator opened earlier ended after {pos} of {len(mod)}")
                        elif pos >= len(mod) or y is not mod[pos]:
                            raise Violation("open-iterator", f"an iterator opened earlier gave {y!r} at {pos}")
                        else:
                            rec[2] += 1
            finally:
                a = arm.pop(tid, None)
        except (Injected, InjectedBase) as e:
            if not any(e is p for p in ([a[1]] if a and a[2] else []) + cbx + srcx):
                raise Violation("exception", f"{op} raised {e!r}, which is not the injected one") from None
            log("raised", op)
            return
        except (ValueError, IndexError, TypeError) as e:
            err = e
        if (a and a[2]) or cbx or srcx:
            raise Violation("swallowed", f"{op} returned although a comparison, callback or source raised")
        if err is not None:
            if op in ("head", "tail", "reduce") and not xs and isinstance(err, ValueError):
                sim.probe("empty-error")
                return
            if op in ("item", "index") and isinstance(err, IndexError) and not -len(xs) <= o["n"] < len(xs):
                sim.probe("index-error")
                return
            raise Violation("error", f"{op} on {len(xs)} elements raised {err!r}")
        n = len(xs)
        if op == "cons":
            expect_block(op, r, (x, *xs))
        elif op in ("append", "plus"):
            expect_block(op, r, xs + x2)
        elif op == "map":
            expect(op, tuple(seen), tuple((x,) for x in xs))
            expect_block(op, r, tuple(made))
        elif op in ("mapi", "starmap"):
            expect(op, tuple(seen), tuple(enumerate(xs)))
            expect_block(op, r, tuple(made))
        elif op == "choose":
            expect_block(op, r, tuple(x if i % 2 else None for i, x in enumerate(xs) if bit(i)))
        elif op == "collect":
            expect_block(op, r, tuple(x for i, x in enumerate(xs) for _ in range(bit(i) * 2 + i % 2)))
        elif op == "filter":
            expect_block(op, r, tuple(x for i, x in enumerate(xs) if bit(i)))
        elif op == "partition":
            expect_block(op, r[0], tuple(x for i, x in enumerate(xs) if bit(i)))
            expect_block(op, r[1], tuple(x for i, x in enumerate(xs) if not bit(i)))
        elif op == "forall":
            k = next((i for i in range(n) if not bit(i)), n)
            if calls[0] != min(k + 1, n) or not same(tuple(x for (x,) in seen), xs[: k + 1]):
                raise Violation(op, f"forall called its function with {seen!r}")
            expect(op, bool(r), k == n)
        elif op == "fold":
            acc: Any = s0
            for x, a_, m_ in zip(xs, seen, made):
                if not same(a_, (acc, x)):
                    raise Violation(op, f"fold called its function with {a_!r} instead of {(acc, x)!r}")
                acc = m_
            if len(seen) != n or r is not acc:
                raise Violation(op, f"fold gave {r!r}")
        elif op == "reduce":
            if not xs:
                raise Violation(op, f"reduce of an empty Block gave {r!r}")
            acc = xs[0]
            for x, a_, m_ in zip(xs[1:], seen, made):
                if not same(a_, (acc, x)):
                    raise Violation(op, f"reduce called its function with {a_!r} instead of {(acc, x)!r}")
                acc = m_
            if len(seen) != n - 1 or r is not acc:
                raise Violation(op, f"reduce gave {r!r}")
        elif op == "head":
            if not xs or r is not xs[0]:
                raise Violation(op, f"head of {xs!r} gave {r!r}")
        elif op == "try_head":
            if not isinstance(r, Option) or r.is_some() != bool(xs) or xs and r.some is not xs[0]:
                raise Violation(op, f"try_head of {xs!r} gave {r!r}")
        elif op == "tail":
            if not xs:
                raise Violation(op, "tail of an empty Block returned")
            expect_block(op, r, xs[1:])
        elif op in ("item", "index"):
            if not -n <= o["n"] < n or r is not xs[o["n"]]:
                raise Violation(op, f"element {o['n']} of {xs!r} is {r!r}")
        elif op == "slice":
            expect_block(op, r, xs[slice(*o["sl"])])
        elif op == "indexed":
            expect_block(op, r, tuple(enumerate(xs, o["n"] or 0)))
        elif op == "skip":
            expect_block(op, r, xs[o["n"]:])
        elif op == "skip_last":
            known_zero(o, r, ()) or expect_block(op, r, xs[: max(0, n - o["n"])])
        elif op == "take":
            expect_block(op, r, xs[: o["n"]])
        elif op == "take_last":
            known_zero(o, r, xs) or expect_block(op, r, xs[max(0, n - o["n"]):])
        elif op in ("sort", "sort_with"):
            if len({num(x) for x in xs}) < n:
                sim.probe("ties")
            expect_block(op, r, tuple(sorted(xs, key=num, reverse=o["rev"])))
        elif op in ("sum", "sum_by"):
            expect(op, r, sum(nb) if op == "sum" else sum(num(x) for x in xs))
        elif op == "unfold":
            if len(made) != o["n"] or calls[0] != o["n"] + 1:
                raise Violation(op, f"unfold called its generator {calls[0]} times")
            expect_block(op, r, tuple(made))
        elif op == "zip":
            if n != len(x2):
                sim.probe("unequal-zip")
            expect_block(op, r, tuple(zip(xs, x2)))
        elif op == "concat":
            expect_block(op, r, tuple(x for _, ys in bs for x in ys))
        elif op == "range":
            expect_block(op, r, tuple(range(*o["args"])))
        elif op == "of_option":
            expect_block(op, r, ((x if f else None),) if n % 3 else ())
        elif op == "contains":
            expect(op, r, any(x is y or isinstance(y, Item) and y.n == x.n and not isinstance(x, Never) and not isinstance(y, Never) for y in xs) if isinstance(x, Item) else any(x is y or x == y for y in xs))
        elif op == "len":
            expect(op, r, n)
        elif op == "is_empty":
            expect(op, r, (not xs, not xs, bool(xs)))
        elif op == "eq":
            w = xs == x2
            expect(op, r, (w, not w, w))
        elif op in ("iter", "match"):
            expect(op, r, tuple(dumped(x) for x in xs) if op == "iter" and f else xs)
        elif op == "build":
            expect_block("build-" + how, r, want)

    def thread(ops: list) -> Any:
        def run() -> None:
            tid = sim.cur.tid
            for o in ops:
                log("op", tid, o["op"])
                sw = sim.switches
                do(o, tid)
                if sim.switches != sw:
                    sim.probe("preempted-in-op")

        return run

    def main() -> None:
        vs = tuple(mk(n) for n in case["init"])
        pool.append((Block(vs), vs))
        pool.append((bl.empty, ()))
        ts = [sim.spawn(thread(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)
        for b, xs in pool:
            if not same(tuple(b), xs) or len(b) != len(xs):
                raise Violation("mutated", f"a Block that read {xs!r} now reads {tuple(b)!r}"[:400])

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
