"""C16: Seq pipelines: lazy, repeatable, independent per iteration, fault-exact."""

from __future__ import annotations

import itertools
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, SimAbort, Violation, gen_sched, same_tree, short, size
from sim.threads import Sim

from .aio import SPECIAL, Msg, Odd, odd
from .c10 import PAT, TRUTH, Num

ID = "C16"
TITLE = "Seq pipelines"
QUICK = 60000
THOROUGH = 1500000
BATCH = 60
FAULTS = ("lib", "effect")
RULE = ("One random operator pipeline (method and function forms) over re-iterable or infinite sources; several threads each run several interleaved iterations, terminal "
        "operations and re-entrant iterations of it, some stopped early, with the source or a callback of single iterations failing at a random element; random preemption schedule at bytecode granularity.")
PROBES = ["source-fails", "callback-fails", "second-iteration", "interleaved", "two-threads", "stopped-early", "terminal", "empty-terminal", "infinite", "reentrant", "after-failure", "inner-source", "one-shot"]

OPS = ["map", "map", "starmap", "mapi", "mapi", "filter", "filter", "choose", "collect", "collect", "concat", "append", "take", "take", "skip", "tail", "scan", "scan", "pairwise", "zip", "zip2"]
FONLY = {"zip2"}
TERMS = ["fold", "fold_back", "head", "length", "sum", "sum_by", "max", "min", "max_by", "min_by", "iter", "to_list", "try_find_index", "try_pick"]
MTERM = {"fold", "head", "length", "sum", "sum_by", "to_list", "try_find_index", "try_pick"}
CBOPS = {"map", "starmap", "mapi", "filter", "choose", "collect", "concat", "scan"}


def gen_src(rng: Random, inner: bool = False) -> dict:
    n = size(rng, [0, 1, 2, 2, 3], 0.01) if inner else size(rng, [0, 1, 2, 3, 4, 5, 8])
    vs = [rng.choice(["msg", "msg", "odd", *SPECIAL]) for _ in range(n)]
    if inner:
        return {"kind": "src", "vs": vs}
    k = rng.choice(["src"] * 6 + ["seq", "list", "range", "inf", "infinite", "unfold", "unfold", "delay", "block", "of"])
    return {"kind": k, "vs": vs, "args": [rng.randint(-2, 4), rng.choice([rng.randint(-2, 9), rng.randint(-2, 9), 40]), rng.choice([1, 2, -1])][: rng.choice([1, 2, 3])], "m": rng.random() < 0.5}


def gen_op(rng: Random) -> dict:
    op = rng.choice(OPS)
    o: dict = {"op": op, "form": "m" if op not in FONLY and rng.random() < 0.5 else "f"}
    if op in ("filter", "choose"):
        o["pat"] = ["t", *[rng.choice(PAT) for _ in range(rng.randint(0, 3))]]
        rng.shuffle(o["pat"])
    if op in ("take", "skip"):
        o["n"] = rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 33, 100])
    if op in ("collect", "concat"):
        o["inner"] = [gen_src(rng, True) for _ in range(rng.randint(1, 3))] + [{"kind": "src", "vs": ["msg"]}]
    if op in ("append", "zip", "zip2"):
        o["other"] = [gen_src(rng, True) for _ in range(rng.choice([1, 1, 2]) if op == "append" else 1)]
    return o


def generate(rng: Random, tier: str) -> dict:
    src = gen_src(rng)
    ops = [gen_op(rng) for _ in range(size(rng, [0, 1, 1, 2, 2, 3, 4], 0.01, (7, 12)))]
    inf = src["kind"] in ("inf", "infinite")
    nt = rng.choice([1, 1, 2, 3])
    threads = []
    sites: list = [["src", None]] if src["kind"] in ("src", "seq", "delay") else [["src", "cb"]] if src["kind"] in ("inf", "unfold") else []
    for s, o in enumerate(ops):
        if o["op"] in CBOPS:
            sites.append([s, "cb"])
        if o["op"] in ("append", "zip", "zip2"):
            sites.append([s, "other"])
    for _ in range(nt):
        its = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            it: dict = {"term": None, "stop": None, "fail": None, "re": None}
            if rng.random() < 0.35:
                it["term"] = rng.choice(TERMS if not inf else ["head", "try_find_index", "try_pick"])
                it["tf"] = rng.random() < 0.5
                it["pat"] = [rng.choice(PAT) for _ in range(rng.randint(0, 3))] + ["t"]
            if rng.random() < 0.25 or inf:
                it["stop"] = size(rng, [0, 1, 2, 3, 4, 5], 0.08, (8, 15, 30))
            if sites and rng.random() < 0.25:
                it["fail"] = [rng.choice(sites + ([["t", "cb"]] if it["term"] else [])), size(rng, [0, 1, 2, 3, 4], 0.08, (8, 15, 30)), rng.choice(["E", "E", "B"])]
            if rng.random() < 0.1 and not inf:
                it["re"] = rng.randrange(0, 3)
            its.append(it)
        threads.append({"its": its, "prog": [rng.randrange(len(its)) for _ in range(rng.choice([0, 3, 8, 15]))]})
    if src["kind"] == "src" and rng.random() < 0.06:  # a one-shot iterator: one iteration
        src["kind"] = "once"
        threads = [{"its": [{**threads[0]["its"][0], "re": None}], "prog": []}]
        nt = 1
    return {"src": src, "ops": ops, "threads": threads, "sched": gen_sched(rng, nt + 1, 600)}


def SHRINK(path: tuple) -> bool:
    return path[-1] in ("ops", "threads", "vs", "prog", "pat") and not (path[-1] == "pat" and path[0] == "ops")


def same(a: Any, b: Any, seen: Any = None) -> bool:
    return same_tree(a, b, lambda a, b: type(a) is type(b) and type(a) in (int, str, float, Num) and repr(a) == repr(b), seen)


class Rec:
    """What one iteration (real or reference) did."""

    def __init__(self, plan: dict, memo: dict, real: bool) -> None:
        self.plan, self.memo, self.real = plan, memo, real
        self.pulls: dict = {}
        self.calls: dict = {}
        self.out: list = []
        self.end: Any = None
        self.re = plan.get("re")

    def marks(self) -> dict:
        return {**self.pulls, **{("cb", k): v for k, v in self.calls.items()}}


class Closed(BaseException):
    pass


def execute(case: dict) -> None:
    from expression import Nothing, Option, Some
    from expression.collections import Block, Seq, seq

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1)
    log = sim.log
    vals: dict = {}
    build = Rec({}, {}, True)
    ctx: dict[int, Rec] = {}
    refrec: list = []

    def cur() -> Rec:
        if refrec:
            return refrec[-1]
        return ctx.get(sim.cur.tid) or build

    def value(sid: Any, i: int, kind: str) -> Any:
        if kind in SPECIAL:
            return SPECIAL[kind]
        k = (sid, i)
        if k not in vals:
            vals[k] = (Odd if kind == "odd" else Msg)(k)
        return vals[k]

    def failing(r: Rec, site: Any, n: int) -> None:
        f = r.plan.get("fail")
        if f and tuple(f[0]) == tuple(site) and f[1] == n:
            if r.real:
                w = "callback-fails" if site[1] == "cb" else "source-fails"
                sim.probe(w)
                sim.fault(w.replace("-", " "))
                log(w)
            raise r.memo.setdefault("x", (Injected if f[2] == "E" else InjectedBase)(("x", f)))

    def pull(sid: Any, i: int) -> None:
        r = cur()
        r.pulls[sid] = r.pulls.get(sid, 0) + 1
        if r.real:
            sim.point()
        if sid == "src":
            failing(r, ("src", None), i)
        elif sid[1] == "other":
            failing(r, (sid[0], "other"), i)

    def tick(s: Any) -> int:
        r = cur()
        n = r.calls.get(s, 0)
        r.calls[s] = n + 1
        if r.real and r.re is not None and n == r.re and s != "t":
            r.re = None
            sim.probe("reentrant")
            again(r)
        failing(r, (s, "cb"), n)
        return n

    class Src:
        def __init__(self, sid: Any, vs: list) -> None:
            self.sid, self.vs = sid, vs

        def __iter__(self) -> Any:
            return It(self.sid, self.vs)

    class Delayed(Src):
        """What the generating function of delay returned: good for one iteration, the next one has to ask again."""

        used = False

        def __iter__(self) -> Any:
            if self.used:
                raise Violation("delay", "an iteration used what the generating function had returned for another iteration")
            self.used = True
            return super().__iter__()

    class It:
        def __init__(self, sid: Any, vs: list) -> None:
            self.sid, self.vs, self.i = sid, vs, 0

        def __iter__(self) -> Any:
            return self

        def __next__(self) -> Any:
            i = self.i
            if i > len(self.vs):  # asked again after the end: takes nothing
                raise StopIteration
            self.i += 1
            pull(self.sid, i)
            if i >= len(self.vs):
                raise StopIteration
            return value(self.sid, i, self.vs[i])

    def inner_for(s: int, o: dict, n: int) -> Any:
        sp = o["inner"][n % len(o["inner"])]
        return Src((s, "inner", n), sp["vs"])

    # callbacks (shared by both sides; they act on the current record)
    def mapper(s: int) -> Any:
        return odd(lambda *x: ("m", s, tick(s), *x), s)

    def picker(s: int, o: dict) -> Any:
        return odd(lambda x: TRUTH[o["pat"][tick(s) % len(o["pat"])]], s)

    def start(s: int) -> Any:
        return [("s0", s), ("s0", s), None, 0, ()][(s + case.get("salt", 0)) % 5]

    def scanner(s: int) -> Any:
        return odd(lambda a, x: ("s", tick(s), a, x), s)

    def expand(s: int, o: dict) -> Any:
        return odd(lambda x: inner_for(s, o, tick(s)), s)

    # real side
    def real_src(sp: dict) -> Any:
        k, vs, m = sp["kind"], sp["vs"], sp["m"]
        if k == "once":
            sim.probe("one-shot")
            return Seq(It("src", vs)) if m else It("src", vs)
        if k == "src":
            return Src("src", vs)
        if k == "seq":
            return Seq(Src("src", vs)) if m else Seq.of_iterable(Src("src", vs))
        if k == "list":
            return [value("src", i, v) for i, v in enumerate(vs)]
        if k == "of":
            if not vs:
                return Seq.empty() if m else seq.empty
            if len(vs) == 1 and not m:
                return seq.singleton(value("src", 0, vs[0]))
            return (Seq.of if m else seq.of)(*[value("src", i, v) for i, v in enumerate(vs)])
        if k == "block":
            return Block([value("src", i, v) for i, v in enumerate(vs)])
        if k == "range":
            return Seq.range(*sp["args"]) if m else seq.range(*sp["args"])
        if k == "inf":
            return seq.init_infinite(lambda i: ("i", tick("src"), i))
        if k == "infinite":
            return seq.infinite
        if k == "delay":
            return (Seq.delay if m else seq.delay)(lambda: Delayed("src", vs))

        def gen(st: int) -> Any:
            tick("src")
            return Some((value("src", st, vs[st]), st + 1)) if st < len(vs) else Nothing

        return Seq.unfold(gen, 0) if m else seq.unfold(gen)(0)

    def real_build() -> Any:
        c = real_src(case["src"])
        for s, o in enumerate(case["ops"]):
            op, m = o["op"], o["form"] == "m"
            q = c if isinstance(c, Seq) else Seq(c)
            if op in ("map", "mapi"):
                c = getattr(q, op)(mapper(s)) if m else getattr(seq, op)(mapper(s))(c)
            elif op == "starmap":
                pr = seq.map(lambda x: (x, 1))(c)
                c = Seq(pr).starmap(mapper(s)) if m else (seq.starmap, seq.map2, seq.map3)[s % 3](mapper(s))(pr)
            elif op == "filter":
                c = q.filter(picker(s, o)) if m else seq.filter(picker(s, o))(c)
            elif op == "choose":
                p = picker(s, o)
                f = lambda x, p=p: Some(x) if p(x) else Nothing  # noqa: E731
                c = q.choose(f) if m else seq.choose(f)(c)
            elif op == "collect":
                c = q.collect(expand(s, o)) if m else seq.collect(expand(s, o))(c)
            elif op == "concat":
                if m:
                    c = Seq(seq.map(expand(s, o))(c)).concat()
                else:
                    c = seq.concat(c, Src((s, "tail"), ["msg"]))
            elif op == "append":
                others = [Src((s, "other", i) if i else (s, "other"), x["vs"]) for i, x in enumerate(o["other"])]
                c = q.append(*others) if m else seq.append(*others)(c)
            elif op in ("take", "skip"):
                c = getattr(q, op)(o["n"]) if m else getattr(seq, op)(o["n"])(c)
            elif op == "tail":
                c = q.tail() if m else seq.tail(c)
            elif op == "scan":
                c = q.scan(scanner(s), start(s)) if m else seq.scan(scanner(s), start(s))(c)
            elif op == "pairwise":
                c = q.pairwise() if m else seq.pairwise(c)
            elif op == "zip":
                other = Src((s, "other"), o["other"][0]["vs"])
                c = q.zip(other) if m else seq.zip(c)(other)
            elif op == "zip2":
                c = seq.zip(Src((s, "other"), o["other"][0]["vs"]))(c)
        return c

    # reference side
    def ref_src(sp: dict) -> Any:
        k, vs = sp["kind"], sp["vs"]
        if k in ("src", "seq", "delay", "once"):
            yield from Src("src", vs)
        elif k in ("list", "block", "of"):
            for i, v in enumerate(vs):
                yield value("src", i, v)
        elif k == "range":
            yield from range(*sp["args"])
        elif k == "inf":
            for i in itertools.count():
                yield ("i", tick("src"), i)
        elif k == "infinite":
            yield from itertools.count()
        else:
            for i, v in enumerate(vs):
                tick("src")
                yield value("src", i, v)
            tick("src")

    def stage(s: int, o: dict, c: Any) -> Any:
        op = o["op"]
        if op == "map":
            f = mapper(s)
            for x in c:
                yield f(x)
        elif op == "mapi":
            f = mapper(s)
            for i, x in enumerate(c):
                yield f(i, x)
        elif op == "starmap":
            f = mapper(s)
            for x in c:
                yield f(x, 1)
        elif op in ("filter", "choose"):
            f = picker(s, o)
            for x in c:
                if f(x):
                    yield x
        elif op == "collect" or op == "concat" and o["form"] == "m":
            f = expand(s, o)
            for x in c:
                yield from f(x)
        elif op == "concat":
            yield from c
            yield from Src((s, "tail"), ["msg"])
        elif op == "append":
            yield from c
            for i, x in enumerate(o["other"]):
                yield from Src((s, "other", i) if i else (s, "other"), x["vs"])
        elif op == "take":
            n = o["n"]
            if n > 0:
                for x in c:
                    yield x
                    n -= 1
                    if not n:
                        return
        elif op in ("skip", "tail"):
            n = o.get("n", 1)
            for x in c:
                if n:
                    n -= 1
                else:
                    yield x
        elif op == "scan":
            f = scanner(s)
            a: Any = start(s)
            yield a
            for x in c:
                a = f(a, x)
                yield a
        elif op == "pairwise":
            prev: Any = stage
            for x in c:
                if prev is not stage:
                    yield (prev, x)
                prev = x
        elif op == "zip":
            yield from zip(c, Src((s, "other"), o["other"][0]["vs"]))
        elif op == "zip2":
            yield from zip(Src((s, "other"), o["other"][0]["vs"]), c)

    def ref_build() -> Any:
        c = ref_src(case["src"])
        for s, o in enumerate(case["ops"]):
            c = stage(s, o, c)
        return c

    pipeline: list = []
    recs: list[Rec] = []
    bad: list[Violation] = []

    def run_term(r: Rec, c: Any, real: bool) -> Any:
        """Terminal operation; returns a plain description of its result."""
        t, f = r.plan["term"], r.plan["tf"]
        pat = r.plan["pat"]

        def pick(x: Any) -> Any:
            return TRUTH[pat[tick("t") % len(pat)]]

        def num(x: Any) -> Any:
            n = tick("t")
            return r.memo.setdefault(("num", n), Num((n * 7 + len(short(x))) % 4, n))

        def ch(x: Any) -> Any:
            return (Some(x) if pick(x) else Nothing) if real else ((x,) if pick(x) else ())

        fold = lambda a, x: ("f", tick("t"), a, x)  # noqa: E731
        acts: list = []

        def act(x: Any) -> None:
            tick("t")
            acts.append(x)

        if not real:
            if t == "fold":
                a: Any = start(7)
                for x in c:
                    a = fold(a, x)
                return a
            if t == "fold_back":
                a = start(7)
                for x in reversed(list(c)):
                    a = fold(x, a)
                return a
            if t == "head":
                for x in c:
                    return x
                raise ValueError
            if t == "length":
                return sum(1 for _ in c)
            if t == "sum":
                return sum(len(short(x)) for x in c)
            if t == "sum_by":
                return sum(num(x).k for x in c)
            if t in ("max", "min", "max_by", "min_by"):
                return (max if t[:3] == "max" else min)([num(x) for x in c])
            if t == "iter":
                for x in c:
                    act(x)
                return tuple(acts)
            if t == "to_list":
                return tuple(c)
            if t == "try_find_index":
                for i, x in enumerate(c):
                    if pick(x):
                        return (i,)
                return ()
            for x in c:
                y = ch(x)
                if y:
                    return y
            return ()
        m = not f and t in MTERM
        q = c if isinstance(c, Seq) else Seq(c)
        if t == "fold":
            return q.fold(fold, start(7)) if m else seq.fold(fold, start(7))(c)
        if t == "fold_back":
            return seq.fold_back(fold, c)(start(7))
        if t in ("head", "length"):
            return getattr(q, t)() if m else getattr(seq, t)(c)
        if t == "sum":
            c2 = seq.map(lambda x: len(short(x)))(c)
            return Seq(c2).sum() if m else seq.sum(c2)
        if t == "sum_by":
            g = lambda x: num(x).k  # noqa: E731
            return q.sum_by(g) if m else seq.sum_by(g)(c)
        if t in ("max", "min"):
            return getattr(seq, t)(seq.map(num)(c))
        if t in ("max_by", "min_by"):
            return getattr(seq, t)(num)(c)
        if t == "iter":
            seq.iter(act)(c)
            return tuple(acts)
        if t == "to_list":
            if f and len(case["ops"]) % 2:
                return tuple(q.dict())
            b = q.to_list() if m else seq.to_list(c)
            if not isinstance(b, Block):
                raise Violation("to_list", f"gave {b!r}")
            return tuple(b)
        g = pick if t == "try_find_index" else ch
        o = getattr(q, t)(g) if m else getattr(seq, t)(g)(c)
        if not isinstance(o, Option):
            raise Violation(t, f"gave {o!r}")
        return (o.some,) if o.is_some() else ()

    def step(r: Rec, it: Any) -> bool:
        """One next(); True if the iteration goes on."""
        stop = r.plan["stop"]
        if stop is not None and len(r.out) >= stop:
            r.end = ("stop", None)
            if r.real:
                sim.probe("stopped-early")
            return False
        try:
            v = next(it)
        except StopIteration:
            r.end = ("end", None)
            return False
        except (SimAbort, Violation):
            raise
        except BaseException as e:
            r.end = ("exc", e)
            return False
        r.out.append((v, r.marks()))
        return True

    def settle_term(r: Rec, c: Any, real: bool) -> None:
        try:
            r.result = run_term(r, c, real)
            r.end = ("result", None)
        except (SimAbort, Violation):
            raise
        except BaseException as e:
            r.end = ("exc", e)

    def again(outer: Rec) -> None:
        """A complete iteration from inside a callback of another one."""
        tid = sim.cur.tid
        r = Rec({"term": None, "stop": 8, "fail": None}, {}, True)
        recs.append(r)
        saved = ctx.get(tid)
        ctx[tid] = r
        it = iter(pipeline[0])
        while step(r, it):
            pass
        if saved is None:
            del ctx[tid]
        else:
            ctx[tid] = saved

    failed = [0]
    live: dict[int, int] = {}

    def thread(spec: dict) -> Any:
        def run() -> None:
            tid = sim.cur.tid
            c = pipeline[0]
            rs: list = []
            for p in spec["its"]:
                r = Rec(p, {}, True)
                if recs:
                    sim.probe("second-iteration")
                recs.append(r)
                rs.append([r, None])

            def advance(k: int) -> bool:
                r, it = rs[k]
                if r.end:
                    return False
                if failed[0]:
                    sim.probe("after-failure")
                if sum(1 for x in live if x != tid):
                    sim.probe("two-threads")
                live[tid] = 1
                ctx[tid] = r
                if r.plan["term"]:
                    sim.probe("terminal")
                    settle_term(r, c, True)
                else:
                    if it is None:
                        it = rs[k][1] = iter(c)
                        if sum(1 for x in rs if x[1] is not None and not x[0].end) > 1:
                            sim.probe("interleaved")
                    step(r, it)
                del ctx[tid]
                if r.end and r.end[0] == "exc":
                    failed[0] += 1
                log("adv", tid, k, len(r.out), r.end[0] if r.end else "")
                return not r.end

            for k in spec["prog"]:
                if rs:
                    advance(k % len(rs))
            for k in range(len(rs)):
                while advance(k):
                    pass
            live.pop(tid, None)

        return run

    def main() -> None:
        pipeline.append(real_build())
        if build.pulls or build.calls:
            raise Violation("eager", f"building the pipeline already did work: {build.marks()}")
        if case["src"]["kind"] in ("inf", "infinite"):
            sim.probe("infinite")
        ts = [sim.spawn(thread(t)) for t in case["threads"]]
        for t in ts:
            sim.join(t)

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1

    def over(real: dict, ref: dict) -> Any:
        for k, n in real.items():
            if n > ref.get(k, 0):
                return k, n, ref.get(k, 0)
        return None

    if build.pulls or build.calls:
        raise Violation("foreign-work", f"work was done outside any iteration: {build.marks()}")
    for n, r in enumerate(recs):
        ref = Rec(r.plan, r.memo, False)
        refrec.append(ref)
        try:
            c = ref_build()
            if r.plan["term"]:
                settle_term(ref, c, False)
            else:
                while step(ref, c):
                    pass
        finally:
            refrec.pop()
        want = ref.out
        seen: set = set()
        if any(k != "src" and len(k) > 1 and k[1] == "inner" for k in r.pulls):
            sim.probe("inner-source")
        for k, (v, marks) in enumerate(r.out):
            if k >= len(want):
                raise Violation("extra", f"iteration {n}: result {k} is {short(v)}, but there are only {len(want)} results ({ref.end!r})")
            if not same(v, want[k][0], seen):
                raise Violation("element", f"iteration {n}: result {k} is {short(v)} instead of {short(want[k][0])}")
            o = over(marks, want[k][1])
            if o:
                raise Violation("overwork", f"iteration {n}: {k + 1} results took {o[1]} of {o[0]!r}, {o[2]} are needed")
        if r.end[0] != ref.end[0] or len(r.out) != len(want):
            raise Violation("end", f"iteration {n}: ended with {r.end!r} after {len(r.out)} results, expected {ref.end!r} after {len(want)}")
        if r.end[0] == "exc":
            if type(r.end[1]) is ValueError and type(ref.end[1]) is ValueError and r.plan["term"]:
                sim.probe("empty-terminal")
            elif r.end[1] is not ref.end[1]:
                raise Violation("exception", f"iteration {n}: raised {r.end[1]!r} instead of {ref.end[1]!r}")
        elif r.end[0] == "result" and not same(r.result, ref.result, seen):
            raise Violation("result", f"iteration {n}: {r.plan['term']} gave {short(r.result)} instead of {short(ref.result)}")
        o = over(r.marks(), ref.marks())
        if o:
            raise Violation("overwork", f"iteration {n}: {r.end[0]} after {len(r.out)} results took {o[1]} of {o[0]!r}, {o[2]} are needed")
