"""C10: AsyncSeq operator pipelines against lazy list semantics, with latencies, faults and cancellation."""

from __future__ import annotations

import asyncio
import functools
from random import Random
from typing import Any

from sim import core
from sim.core import Injected, InjectedBase, Violation, same_tree, short, size
from sim.loop import run_loop
from sim.threads import Sim

from .aio import SPECIAL, Msg, Odd, after, odd, wait_for_spec, wait_spec

ID = "C10"
TITLE = "AsyncSeq operators"
QUICK = 200000
THOROUGH = 2500000
BATCH = 80
FAULTS = ("lib", "effect")
RULE = ("Several consumers iterate or fold random operator pipelines (method and function forms, shared operator values) over sources with random "
        "latencies, sources that fail or stall forever at some element, failing callbacks, cancellation of the consumer at random instants and early stop.")
PROBES = ["source-fails", "callback-fails", "cancelled-in-source", "cancelled-outside", "hang-avoided", "hang-reached", "stopped-early", "empty-source",
          "inner-source", "terminal", "empty-terminal", "shared-op", "suspended", "used-again"]

OPS = ["map", "filter", "choose", "collect", "concat", "append", "scan", "take", "skip", "tail"]
FUNCS = {"map", "filter", "choose", "collect", "append"}
TERMS = ["fold", "fold_back", "head", "length", "sum", "max", "min"]
PAT = ["t", "t", "f", "f", "one", "zero", "str", "emptystr", "none"]
TRUTH = {"t": True, "f": False, "one": 1, "zero": 0, "str": "x", "emptystr": "", "none": None}


def gen_src(rng: Random, inner: bool = False) -> dict:
    n = size(rng, [0, 1, 2, 2, 3], 0.01) if inner else size(rng, [0, 1, 2, 3, 4, 5, 8])
    r = rng.random()
    if not inner and r < 0.12:
        kind = rng.choice(["range", "range-m", "empty", "empty-m", "repeat"])
        args = {"range": [rng.randint(-2, 4), rng.choice([rng.randint(-2, 9), rng.randint(-2, 9), rng.choice([40] * 9 + [1200])]), rng.choice([1, 1, 2, -1])][: rng.choice([1, 2, 3])], "repeat": size(rng, [0, 1, 2, 3, 4, 5], 0.03, (12, 20, 40, 130, 1200))}
        return {"kind": kind, "args": args[kind[:5]] if kind.startswith("range") else args["repeat"]}
    items = [[rng.choice(["msg", "msg", "odd", *SPECIAL]), wait_spec(rng) if rng.random() < 0.5 else None] for _ in range(n)]
    end = rng.choice(["end"] * 7 + ["E", "B", "hang"]) if not inner else rng.choice(["end"] * 12 + ["E", "hang"])
    return {"kind": rng.choice(["cls", "cls", "gen"]), "items": items, "end": [end, wait_spec(rng) if rng.random() < 0.5 else None]}


def gen_op(rng: Random) -> dict:
    op = rng.choice(OPS)
    o: dict = {"op": op, "form": "f" if op in FUNCS and rng.random() < 0.5 else "m"}
    if op == "append":
        o["form"] = "f"
    if op in ("filter", "choose"):
        o["pat"] = [rng.choice(PAT) for _ in range(rng.randint(1, 4))]
    if op in ("map", "choose", "scan"):
        o["ret"] = rng.choice(["wrap", "wrap", "same", "none"])
    if op in ("take", "skip"):
        o["n"] = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 33, 100, -1])
    if op in ("collect", "concat"):
        o["inner"] = [gen_src(rng, True) for _ in range(rng.randint(1, 3))]
    if op == "append":
        o["other"] = gen_src(rng, True)
    if op in ("map", "filter", "choose", "collect", "scan") and rng.random() < 0.12:
        o["fail"] = [size(rng, [0, 1, 2, 3, 4], 0.1, (8, 15, 30)), rng.choice(["E", "E", "B"])]
    return o


def most(sp: dict) -> int:
    """How many elements a source has at most."""
    if sp["kind"].startswith("range"):
        return len(range(*sp["args"]))
    return sp["args"] if sp["kind"] == "repeat" else len(sp.get("items", ()))


def bound(c: dict) -> None:
    """Leave out what would make the run longer than some ten thousand elements."""
    n = most(c["src"])
    ops = []
    for o in c["ops"]:
        m = n
        if o["op"] in ("collect", "concat"):
            m = n * max(1, *(most(s) for s in o["inner"]))
        elif o["op"] == "append":
            m = n + most(o["other"])
        if m > max(n, 3000):
            continue
        n = m
        ops.append(o)
    c["ops"] = ops


def generate(rng: Random, tier: str) -> dict:
    cons = []
    shared = rng.random() < 0.2
    ops = [gen_op(rng) for _ in range(size(rng, [0, 1, 1, 2, 2, 3, 4], 0.01, (7, 12)))]
    for _ in range(rng.choice([1, 1, 2, 3])):
        if not shared:
            ops = [gen_op(rng) for _ in range(size(rng, [0, 1, 1, 2, 2, 3, 4], 0.01, (7, 12)))]
        c: dict = {"src": gen_src(rng), "ops": ops, "start": wait_spec(rng), "term": rng.choice(TERMS) if rng.random() < 0.35 else None}
        c["cancel"] = wait_spec(rng) if rng.random() < 0.25 else None
        c["stop"] = size(rng, [0, 1, 2, 3], 0.1, (8, 15, 30)) if rng.random() < 0.2 else None
        c["pause"] = [wait_spec(rng) if rng.random() < 0.3 else None for _ in range(3)]
        c["tfail"] = [size(rng, [0, 1, 2, 3, 4], 0.1, (8, 15, 30)), rng.choice(["E", "B"])] if rng.random() < 0.12 else None
        cons.append(c)
    if not shared:
        for c in cons:
            bound(c)
    else:
        for c in cons:
            c["ops"] = ops[:]
            bound(c)
        keep = min((c["ops"] for c in cons), key=len)
        for c in cons:
            c["ops"] = keep
    case = {"cons": cons, "shared": shared}
    if rng.random() < 0.1:
        # one AsyncSeq value over a source that can be iterated again, used several times
        case["twice"] = {"items": [wait_spec(rng) if rng.random() < 0.5 else None for _ in range(size(rng, [0, 1, 2, 3], 0.05, (8, 15)))],
                         "uses": [[rng.choice(["iter", "iter", "head", "length", "fold", "map", "take", "part"]), wait_spec(rng)] for _ in range(rng.choice([2, 2, 3, 4]))]}
    return case


def SHRINK(path: tuple) -> bool:
    return path == ("cons",) or path[-1] in ("ops", "items", "pat", "inner", "pause", "uses")


class Num:
    """A number that compares by key, so that ties are visible."""

    def __init__(self, k: int, n: int) -> None:
        self.k, self.n = k, n

    def __lt__(self, o: Any) -> bool:
        return self.k < o.k

    def __gt__(self, o: Any) -> bool:
        return self.k > o.k

    def __repr__(self) -> str:
        return f"N{self.k}.{self.n}"


class Hang(BaseException):
    pass


class Stop(Exception):
    pass


def start(s: Any) -> Any:
    """The first state of a scan or fold."""
    return [("s0", s), ("s0", s), None, 0, ()][core.SALT % 5]


def ret(o: dict, x: Any, wrapped: Any) -> Any:
    """What a callback returns: a new value, its argument (of any value) or None."""
    k = o.get("ret", "wrap")
    return wrapped if k == "wrap" else x if k == "same" else None


class World:
    """Values and faults shared by the real and the reference run of one consumer."""

    def __init__(self) -> None:
        self.memo: dict = {}

    def get(self, key: Any, make: Any) -> Any:
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]

    def value(self, key: Any, kind: str) -> Any:
        if kind == "msg":
            return self.get(("v", key), lambda: Msg(key))
        if kind == "odd":
            return self.get(("v", key), lambda: Odd(key))
        return SPECIAL[kind]

    def exc(self, key: Any, kind: str) -> BaseException:
        return self.get(("x", key), lambda: Injected(key) if kind == "E" else InjectedBase(key))


def same(a: Any, b: Any, seen: Any = None) -> bool:
    return same_tree(a, b, lambda a, b: type(a) is type(b) and type(a) in (int, str, float, Num) and repr(a) == repr(b), seen)


class Side:
    """Callbacks of one run (real or reference), with their own call counters."""

    def __init__(self, w: World, shared: bool, on_fail: Any) -> None:
        self.w, self.shared, self.on_fail = w, shared, on_fail
        self.calls: dict = {}
        self.pulls: dict = {}

    def tick(self, s: Any, o: dict) -> int:
        n = self.calls.get(s, 0)
        self.calls[s] = n + 1
        if o.get("fail") and not self.shared and o["fail"][0] == n:
            self.on_fail()
            raise self.w.exc(("cb", s), o["fail"][1])
        return n

    def pull(self, sid: Any) -> None:
        self.pulls[sid] = self.pulls.get(sid, 0) + 1

    def mapper(self, s: Any, o: dict) -> Any:
        def f(x: Any) -> Any:
            n = self.tick(s, o)
            return ret(o, x, ("m", s, x) if self.shared else ("m", s, n, x))
        return odd(f, s)

    def scanner(self, s: Any, o: dict) -> Any:
        def f(a: Any, x: Any) -> Any:
            self.tick(s, o)
            return ret(o, x, ("s", a, x))
        return odd(f, s)

    def pick(self, s: Any, o: dict) -> Any:
        def f(x: Any) -> Any:
            n = self.tick(s, o)
            if self.shared:
                n = len(short(x))
            return TRUTH[o["pat"][n % len(o["pat"])]]
        return odd(f, s)


def execute(case: dict) -> None:
    from expression import Nothing, Some
    from expression.collections import asyncseq
    from expression.collections.asyncseq import AsyncSeq

    sim = Sim(None, nthreads=1)
    log = sim.log
    shared = case["shared"]
    worlds = [World() for _ in case["cons"]]
    recs: list[dict] = []

    # ---- real side
    def real_src(ci: int, sid: Any, sp: dict, side: Side, rec: dict) -> Any:
        w = worlds[ci]
        k = sp["kind"]
        if k == "range":
            return asyncseq.range(*sp["args"])
        if k == "range-m":
            return AsyncSeq.range(*sp["args"])
        if k == "empty":
            return asyncseq.empty()
        if k == "empty-m":
            return AsyncSeq.empty()
        if k == "repeat":
            return asyncseq.repeat(w.value((sid, 0), "odd"), sp["args"])
        items = sp["items"]
        if not items:
            sim.probe("empty-source")

        async def step(i: int) -> Any:
            side.pull(sid)
            log("pull", ci, sid, i)
            kind, wt = items[i] if i < len(items) else sp["end"]
            try:
                if wt is not None:
                    sim.probe("suspended")
                    await wait_for_spec(wt)
                if i >= len(items) and kind == "hang":
                    sim.probe("hang-reached")
                    sim.fault("source stalls forever")
                    await asyncio.get_running_loop().create_future()
            except asyncio.CancelledError as e:
                rec["hit"] = (sid, i)
                rec["hit_exc"] = e
                raise
            if i < len(items):
                return w.value((sid, i), kind)
            if kind in ("E", "B"):
                sim.probe("source-fails")
                sim.fault("source fails")
                raise w.exc(("src", sid), kind)
            raise Stop

        class It:
            def __init__(self) -> None:
                self.i = 0
                self.dead = False

            def __aiter__(self) -> Any:
                return self

            async def __anext__(self) -> Any:
                if self.dead:
                    raise StopAsyncIteration
                i, self.i = self.i, self.i + 1
                try:
                    return await step(i)
                except Stop:
                    self.dead = True
                    raise StopAsyncIteration from None

        class Src:
            def __aiter__(self) -> Any:
                return It()

        async def gen() -> Any:
            i = 0
            while True:
                try:
                    v = await step(i)
                except Stop:
                    return
                yield v
                i += 1

        return Src() if k == "cls" else gen()

    async def build(ci: int, c: dict, side: Side, rec: dict, opcache: dict) -> Any:
        cur = real_src(ci, "src", c["src"], side, rec)
        for s, o in enumerate(c["ops"]):
            op = o["op"]
            ms = AsyncSeq(cur)
            m = o["form"] == "m"

            def inner(s: int = s, o: dict = o, n: list = [0]) -> Any:
                n = [0]

                def f(x: Any) -> Any:
                    k = side.tick(s, o)
                    sim.probe("inner-source")
                    j = (len(short(x)) if shared else k) % len(o["inner"])
                    return real_src(ci, (s, k), o["inner"][j], side, rec)
                return f

            if op == "append":
                cur = asyncseq.append(real_src(ci, (s, "other"), o["other"], side, rec))(cur)
                continue
            if op == "map":
                arg = side.mapper(s, o)
            elif op == "filter":
                arg = side.pick(s, o)
            elif op == "choose":
                p = side.pick(s, o)
                arg = lambda x, p=p, s=s, o=o: Some(ret(o, x, ("c", s, x))) if p(x) else Nothing  # noqa: E731
            elif op in ("collect", "concat"):
                arg = inner()
            elif op == "scan":
                cur = ms.scan(side.scanner(s, o), start(s))
                continue
            elif op in ("take", "skip"):
                cur = await getattr(ms, op)(o["n"])
                continue
            else:
                cur = await ms.tail()
                continue
            if op == "concat":
                cur = await AsyncSeq(asyncseq.map(arg)(cur)).concat()
            elif m:
                cur = await getattr(ms, op)(arg)
            else:
                f = opcache.get(s) if shared and op in ("map", "filter", "choose") else None
                if f is None:
                    f = getattr(asyncseq, op)(arg)
                    opcache[s] = f
                elif len(case["cons"]) > 1:
                    sim.probe("shared-op")
                cur = f(cur)
        return cur

    opcache: dict = {}

    async def consumer(ci: int, c: dict) -> None:
        rec = recs[ci]
        side = Side(worlds[ci], shared, lambda: (sim.probe("callback-fails"), sim.fault("callback fails")))
        rec["side"] = side
        out = rec["out"]
        try:
            await wait_for_spec(c["start"])
            cur = await build(ci, c, side, rec, opcache)
            if side.pulls:
                rec["early"] = dict(side.pulls)
            rec["built"] = True
            if c["term"]:
                sim.probe("terminal")
                seq = AsyncSeq(cur)
                t = c["term"]
                if t in ("sum", "max", "min"):
                    if t == "sum":
                        seq = AsyncSeq(asyncseq.map(lambda x: len(short(x)))(cur))
                    else:
                        cnt = [0]

                        def num(x: Any) -> Num:
                            cnt[0] += 1
                            return worlds[ci].get(("num", cnt[0]), lambda: Num(len(short(x)) % 4, cnt[0]))

                        seq = AsyncSeq(asyncseq.map(num)(cur))
                    r = await getattr(seq, t)()
                elif t in ("head", "length"):
                    r = await getattr(seq, t)()
                else:
                    o = {"fail": c["tfail"]}

                    def folder(a: Any, b: Any) -> Any:
                        side.tick("t", o)
                        return ("f", a, b)

                    r = await getattr(seq, t)(folder, start("t"))
                rec["result"] = r
                rec["end"] = ("result", None)
            elif c["stop"] is not None:
                n = c["stop"]
                it = cur.__aiter__()
                for _ in range(n):
                    try:
                        v = await it.__anext__()
                    except StopAsyncIteration:
                        rec["end"] = ("end", None)
                        break
                    out.append((v, dict(side.pulls)))
                    log("got", ci)
                else:
                    rec["end"] = ("stop", None)
                    sim.probe("stopped-early")
            else:
                async for v in cur:
                    out.append((v, dict(side.pulls)))
                    log("got", ci)
                    p = c["pause"][len(out) % len(c["pause"])] if c["pause"] else None
                    if p is not None:
                        rec["outside"] = True
                        await wait_for_spec(p)
                        rec["outside"] = False
                rec["end"] = ("end", None)
        except BaseException as e:
            if type(e).__name__ == "SimAbort":
                raise
            rec["end"] = ("exc", e)
        rec["pulls"] = dict(side.pulls)
        log("done", ci, rec["end"][0])

    bad: list[Violation] = []

    async def twice(seq: Any, n: int, use: str, wait: Any) -> None:
        await wait_for_spec(wait)
        want: Any = list(range(n))
        if use == "iter":
            got: Any = [x async for x in seq]
        elif use == "part":
            got, want = [], want[:2]
            if want:
                async for x in seq:
                    got.append(x)
                    if len(got) == len(want):
                        break
        elif use == "head":
            if not n:
                return
            got, want = await seq.head(), 0
        elif use == "length":
            got, want = await seq.length(), n
        elif use == "fold":
            got, want = await seq.fold(lambda a, x: (a, x), None), functools.reduce(lambda a, x: (a, x), want, None)
        elif use == "map":
            got, want = [x async for x in asyncseq.map(lambda x: x + 1)(seq)], [x + 1 for x in want]
        else:
            got, want = [x async for x in await seq.take(2)], want[:2]
        log("again", use)
        if got != want:
            bad.append(Violation("again", f"{use} over an AsyncSeq that is used several times gave {got!r} instead of {want!r}"))

    def twice_tasks(sp: dict) -> list:
        class It2:
            def __init__(self) -> None:
                self.i = 0

            def __aiter__(self) -> Any:
                return self

            async def __anext__(self) -> Any:
                if self.i >= len(sp["items"]):
                    raise StopAsyncIteration
                i, self.i = self.i, self.i + 1
                if sp["items"][i] is not None:
                    await wait_for_spec(sp["items"][i])
                return i

        class Src2:
            def __aiter__(self) -> Any:
                return It2()

        sim.probe("used-again")
        seq = AsyncSeq(Src2())
        return [asyncio.ensure_future(twice(seq, len(sp["items"]), u, w)) for u, w in sp["uses"]]

    async def main(loop: Any) -> None:
        ts = []
        again = twice_tasks(case["twice"]) if case.get("twice") else []
        for ci, c in enumerate(case["cons"]):
            recs.append({"out": [], "end": None, "outside": True})
            t = asyncio.ensure_future(consumer(ci, c))
            ts.append(t)
            if c["cancel"] is not None:
                def do_cancel(t: Any = t, ci: int = ci) -> None:
                    if not t.done():
                        sim.fault("consumer cancelled")
                        recs[ci]["cancelled"] = True
                        t.cancel()

                after(loop, c["cancel"], do_cancel)
        await loop.quiesce()
        for ci, t in enumerate(ts):
            r = recs[ci]
            r["hung"] = not t.done()
            r["pulls"] = dict(r["side"].pulls) if "side" in r else {}
        for t in again:
            if not t.done():
                bad.append(Violation("again", "a use of an AsyncSeq that is used several times never ended"))
            else:
                t.result()
        for t in ts:
            t.cancel()
        await loop.quiesce()

    # ---- reference side
    def ref_src(w: World, sid: Any, sp: dict, side: Side, hit: Any) -> Any:
        k = sp["kind"]
        if k.startswith("range"):
            yield from range(*sp["args"])
            return
        if k.startswith("empty"):
            return
        if k == "repeat":
            for _ in range(sp["args"]):
                yield w.value((sid, 0), "odd")
            return
        for i, (kind, _) in enumerate([*sp["items"], sp["end"]]):
            side.pull(sid)
            if hit is not None and hit[0] == (sid, i):
                raise hit[1]
            if i < len(sp["items"]):
                yield w.value((sid, i), kind)
            elif kind == "hang":
                raise Hang
            elif kind in ("E", "B"):
                raise w.exc(("src", sid), kind)

    def ref_build(w: World, c: dict, side: Side, hit: Any) -> Any:
        cur = ref_src(w, "src", c["src"], side, hit)

        def st(s: int, o: dict, src: Any) -> Any:
            op = o["op"]
            if op == "map":
                f = side.mapper(s, o)
                for x in src:
                    yield f(x)
            elif op == "filter":
                f = side.pick(s, o)
                for x in src:
                    if f(x):
                        yield x
            elif op == "choose":
                f = side.pick(s, o)
                for x in src:
                    if f(x):
                        yield ret(o, x, ("c", s, x))
            elif op in ("collect", "concat"):
                for x in src:
                    k = side.tick(s, o)
                    j = (len(short(x)) if shared else k) % len(o["inner"])
                    yield from ref_src(w, (s, k), o["inner"][j], side, hit)
            elif op == "append":
                yield from src
                yield from ref_src(w, (s, "other"), o["other"], side, hit)
            elif op == "scan":
                f = side.scanner(s, o)
                a: Any = start(s)
                yield a
                for x in src:
                    a = f(a, x)
                    yield a
            elif op == "take":
                n = o["n"]
                if n <= 0:
                    return
                for x in src:
                    yield x
                    n -= 1
                    if n == 0:
                        return
            elif op == "skip":
                n = o["n"]
                for x in src:
                    if n > 0:
                        n -= 1
                    else:
                        yield x
            else:
                first = True
                for x in src:
                    if not first:
                        yield x
                    first = False

        for s, o in enumerate(c["ops"]):
            cur = st(s, o, cur)
        return cur

    def reference(ci: int, c: dict, hit: Any) -> dict:
        w = worlds[ci]
        side = Side(w, shared, lambda: None)
        out: list = []
        rec: dict = {"out": out}
        cur = ref_build(w, c, side, hit)
        try:
            t = c["term"]
            if t:
                if t == "head":
                    for v in cur:
                        rec["result"] = v
                        rec["end"] = ("result", None)
                        break
                    else:
                        raise ValueError
                elif t in ("fold", "fold_back"):
                    o = {"fail": c["tfail"]}
                    if t == "fold":
                        a: Any = start("t")
                        for v in cur:
                            side.tick("t", o)
                            a = ("f", a, v)
                    else:
                        vs = list(cur)
                        a = start("t")
                        for v in reversed(vs):
                            side.tick("t", o)
                            a = ("f", v, a)
                    rec["result"] = a
                elif t == "length":
                    rec["result"] = sum(1 for _ in cur)
                elif t == "sum":
                    rec["result"] = sum(len(short(x)) for x in cur)
                else:
                    vs = [w.get(("num", i), lambda x=x, i=i: Num(len(short(x)) % 4, i)) for i, x in enumerate(cur, 1)]
                    rec["result"] = max(vs) if t == "max" else min(vs)
                rec["end"] = ("result", None)
            else:
                if c["stop"] == 0:
                    raise Stop
                for v in cur:
                    out.append((v, dict(side.pulls)))
                    if c["stop"] is not None and len(out) == c["stop"]:
                        raise Stop
                rec["end"] = ("end", None)
        except Stop:
            rec["end"] = ("stop", None)
        except Hang:
            rec["end"] = ("hang", None)
        except BaseException as e:
            rec["end"] = ("exc", e)
        rec["pulls"] = dict(side.pulls)
        return rec

    sim.run(lambda: run_loop(sim, main))
    sim.nontrivial = True
    if bad:
        raise bad[0]

    def over(real: dict, ref: dict) -> Any:
        for sid, n in real.items():
            if n > ref.get(sid, 0):
                return sid, n, ref.get(sid, 0)
        return None

    for ci, c in enumerate(case["cons"]):
        r = recs[ci]
        if "early" in r:
            raise Violation("eager", f"consumer {ci}: building the pipeline already pulled {r['early']}")
        if not r.get("built"):
            if r["end"] is not None and r["end"][0] == "exc" and isinstance(r["end"][1], asyncio.CancelledError) and r.get("cancelled"):
                continue
            if r["end"] is None and not r.get("side"):
                continue
            raise Violation("build", f"consumer {ci}: building the pipeline ended with {r['end']!r}")
        end = r["end"]
        hit = None
        got = r["out"]
        if not r["hung"] and "hit" in r:
            hit = (r["hit"], r["hit_exc"])
            sim.probe("cancelled-in-source")
        ref = reference(ci, c, hit)
        want = ref["out"]
        seen: set = set()
        for k, (v, p) in enumerate(got):
            if k >= len(want):
                raise Violation("extra", f"consumer {ci}: result {k} is {short(v)}, but the sequence has only {len(want)} results")
            if not same(v, want[k][0], seen):
                raise Violation("element", f"consumer {ci}: result {k} is {short(v)} instead of {short(want[k][0])}")
            o = over(p, want[k][1])
            if o:
                raise Violation("overpull", f"consumer {ci}: {o[1]} elements of source {o[0]} were requested for {k + 1} results, {o[2]} are needed")
        if r.get("cancelled") and hit is None and not r["hung"] and end[0] == "exc" and isinstance(end[1], asyncio.CancelledError):
            sim.probe("cancelled-outside")
            if not r["outside"] and not c["term"]:
                pass
            continue
        if r["hung"]:
            if ref["end"][0] != "hang":
                raise Violation("stuck", f"consumer {ci}: still waiting after {len(got)} results; expected {ref['end'][0]} after {len(want)}")
        elif end[0] != ref["end"][0]:
            raise Violation("end", f"consumer {ci}: ended with {end!r} after {len(got)} results, expected {ref['end']!r} after {len(want)}")
        if len(got) != len(want):
            raise Violation("missing", f"consumer {ci}: got {len(got)} results, expected {len(want)}")
        if not r["hung"] and end[0] == "exc" and end[1] is not ref["end"][1]:
            if not (c["term"] and type(end[1]) is ValueError and type(ref["end"][1]) is ValueError):
                raise Violation("exception", f"consumer {ci}: raised {end[1]!r} instead of {ref['end'][1]!r}")
            sim.probe("empty-terminal")
        if not r["hung"] and end[0] == "result" and not same(r["result"], ref["result"], seen):
            raise Violation("result", f"consumer {ci}: {c['term']} gave {short(r['result'])} instead of {short(ref['result'])}")
        o = over(r["pulls"], ref["pulls"])
        if o:
            raise Violation("overpull", f"consumer {ci}: {o[1]} elements of source {o[0]} were requested, {o[2]} are needed ({end[0] if end else 'waiting'} after {len(got)} results)")
        if c["src"].get("end", [""])[0] == "hang" and not r["hung"] and end[0] in ("end", "result", "stop"):
            sim.probe("hang-avoided")
