"""C17: parsers shared by several threads against a reference grammar interpreter, with failing mappers and re-entrant runs."""

from __future__ import annotations

import string
import zlib
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, Violation, gen_sched, size
from sim.threads import Sim

from .aio import odd, value

ID = "C17"
TITLE = "re-entrant parsers"
QUICK = 8000
THOROUGH = 900000
BATCH = 40
FAULTS = ("lib", "effect")
RULE = ("A random grammar (a shared graph of combinators, with guarded recursion) is built once; several threads run its parsers, and parsers they build from its parts, on random and on derived "
        "inputs; mappers and binders raise for random values and run other parsers re-entrantly; random preemption schedule at bytecode granularity; some inputs have thousands of characters.")
PROBES = ["ok", "error", "mapper-fails", "backtracked", "preempted-in-run", "reentrant", "recursive", "built-in-thread", "long-input", "offset", "empty-rest", "odd-value", "fresh-equal"]

ALPHA = "aab1-.+ ,0"
WIDE = ALPHA * 3 + string.ascii_letters + string.digits + string.whitespace + "\u00e9\u00b2\u0663\u00a0\u2028_eE:;\0\ufeff\u200b\u0130\ud83d"
LEAVES = ["char"] * 6 + ["any"] * 3 + ["str"] * 3 + ["ret", "fail", "pint", "pint", "pfloat", "pfloat", "digits", "ws", "digit", "letters", "lower"]
INNER = (["and"] * 3 + ["or"] * 5 + ["choice"] * 2 + ["seq"] * 2 + ["map"] * 4 + ["star", "many", "many", "many", "many1", "many1", "sepby", "sepby", "sepby1", "opt", "opt", "opt", "ign", "igt", "between"]
         + ["bind"] * 3 + ["ignore", "apply", "lift2", "starts", "rec", "rec", "rec"])
KINDS = ["msg", "odd", "none", "false", "zero", "empty", "tuple", "true"]
EXC = ["injected", "base", "stop", "key", "value", "type", "index", "attr"]


def gen_node(rng: Random, i: int, nul: list[bool]) -> tuple[list, bool]:
    form = rng.choice("mf")
    if i < 3 or rng.random() < 0.25:
        k = rng.choice(LEAVES)
        if k == "char":
            return [k, form, rng.choice(ALPHA) if rng.random() < 0.8 else rng.choice(WIDE)], False
        if k == "any":
            return [k, form, "".join(rng.sample("ab1-.+ ,0", rng.randint(1, 4)) + [rng.choice(WIDE) for _ in range(rng.choice([0, 0, 0, 1, 2]))])], False
        if k == "str":
            s = "".join(rng.choice(ALPHA) for _ in range(rng.choice([0, 1, 2, 2, 3])))
            return [k, form, s], not s
        if k == "ret":
            return [k, form, rng.choice(KINDS)], True
        if k == "fail":
            return [k, form, f"e{i}"], False
        return [k, form], False

    def ch(nonnull: bool = False) -> int:
        c = [j for j in range(i) if not (nonnull and nul[j])]
        if not c:
            return -1
        return rng.choice(c[-4:]) if rng.random() < 0.6 else rng.choice(c)

    k = rng.choice(INNER)
    if k in ("many", "many1"):
        a = ch(True)
        return ([k, form, a], k == "many") if a >= 0 else (["char", form, "a"], False)
    if k in ("sepby", "sepby1"):
        a, b = ch(), ch(True)
        if b < 0:
            return ["char", form, "a"], False
        return [k, form, a, b], k == "sepby" or nul[a]
    if k in ("and", "ign", "igt", "star", "lift2"):
        a, b = ch(), ch()
        return [k, form, a, b, rng.random() < 0.3], nul[a] and nul[b]
    if k == "or":
        a, b = ch(), ch()
        return [k, form, a, b], nul[a] or nul[b]
    if k == "choice":
        cs = [ch() for _ in range(rng.randint(1, 4))]
        return [k, form, cs], any(nul[c] for c in cs)
    if k == "seq":
        cs = [ch() for _ in range(rng.choice([0, 1, 2, 3, 3, 4]))]
        return [k, form, cs], all(nul[c] for c in cs)
    if k in ("map", "apply"):
        a = ch()
        return [k, form, a, rng.choice(["wrap", "wrap", "wrap", "none", "same", "error", "some", "pair", "parser"])], nul[a]
    if k == "opt":
        return [k, form, ch()], True
    if k == "ignore":
        a = ch()
        return [k, form, a], nul[a]
    if k == "between":
        a, b, c = ch(), ch(), ch()
        return [k, form, a, b, c], nul[a] and nul[b] and nul[c]
    if k == "bind":
        a, b, c = ch(), ch(), ch()
        return [k, form, a, b, c], nul[a] and (nul[b] or nul[c])
    if k == "starts":
        return [k, form, rng.choice(["a", "1", "ab", ""]), rng.choice(["a", "ab", "1-"])], False
    return ["rec", form, rng.choice("ab1("), rng.randrange(1 << 20)], False


def derive(rng: Random, g: list, i: int, depth: int) -> str:
    """A string the node probably accepts."""
    n = g[i]
    k = n[0]

    def d(j: int) -> str:
        return derive(rng, g, j, depth + 1)

    if depth > 14:
        return ""
    if k == "char":
        return n[2]
    if k == "any":
        return rng.choice(n[2])
    if k == "str":
        return n[2]
    if k in ("digits", "digit", "pint", "pfloat"):
        s = "".join(rng.choice("0123456789") for _ in range(1 if k == "digit" else size(rng, [1, 1, 2, 3, 3, 6, 20], 0.01, (40, 130))))
        if k in ("pint", "pfloat") and rng.random() < 0.5:
            s = "-" + s
        if k == "pfloat" and rng.random() < 0.6:
            s += rng.choice([".", ".5", ".25", ".0", ".1", ".003", ".123456789"])
        return s
    if k == "ws":
        return "".join(rng.choice(string.whitespace) for _ in range(rng.choice([1, 1, 2, 3])))
    if k == "letters":
        return rng.choice(string.ascii_letters)
    if k == "lower":
        return rng.choice(string.ascii_lowercase)
    if k in ("and", "ign", "igt", "star", "lift2"):
        return d(n[2]) + d(n[3])
    if k == "or":
        return d(rng.choice(n[2:4]))
    if k == "choice":
        return d(rng.choice(n[2]))
    if k == "seq":
        return "".join(d(j) for j in n[2])
    if k in ("map", "apply", "ignore"):
        return d(n[2])
    if k in ("many", "many1"):
        return "".join(d(n[2]) for _ in range(size(rng, [0, 1, 2, 3], 0.02, (8, 20))))
    if k in ("sepby", "sepby1"):
        s = d(n[2])
        for _ in range(size(rng, [0, 1, 2, 3], 0.02, (8, 20))):
            s += d(n[3]) + d(n[2])
        return s + (d(n[3]) if rng.random() < 0.3 else "")
    if k == "opt":
        return d(n[2]) if rng.random() < 0.7 else ""
    if k == "between":
        return d(n[2]) + d(n[4]) + d(n[3])
    if k == "bind":
        return d(n[2]) + d(rng.choice(n[3:5]))
    if k == "starts":
        return n[2] + n[3]
    if k == "rec":
        return n[2] + d(n[3] % len(g))
    return ""


def generate(rng: Random, tier: str) -> dict:
    g: list = []
    nul: list[bool] = []
    for i in range(rng.choice([4, 8, 12, 16])):
        n, z = gen_node(rng, i, nul)
        g.append(n)
        nul.append(z)
    nt = rng.choice([1, 2, 2, 3])
    runs = []
    for _ in range(nt):
        rs = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            alpha = rng.choice([ALPHA, ALPHA, WIDE])
            i = len(g) - 1 - min(rng.randrange(len(g)), rng.randrange(len(g)))
            if rng.random() < 0.75:
                s = derive(rng, g, i, 0)[: size(rng, [24], 0.05, (100,))]
                if s and rng.random() < 0.3:
                    q = rng.randrange(len(s))
                    s = s[:q] + rng.choice(rng.choice([ALPHA, WIDE])) + s[q + 1:]
                if rng.random() < 0.4:
                    s += "".join(rng.choice(WIDE) for _ in range(rng.randrange(4)))
            else:
                s = "".join(rng.choice(alpha) for _ in range(rng.randrange(9)))
            pre = "".join(rng.choice(ALPHA) for _ in range(rng.randrange(4))) if rng.random() < 0.3 else ""
            rs.append({"i": i, "s": pre + s, "pos": len(pre), "api": "call" if not pre and rng.random() < 0.4 else "run",
                       "fail": [rng.choice([1, 2, 3, 5]), rng.randrange(5), rng.choice(EXC)] if rng.random() < 0.25 else None,
                       "re": rng.random() < 0.2, "own": rng.random() < 0.2})
        runs.append(rs)
    big = rng.choice([700, 2500]) if rng.random() < 0.004 else 0
    return {"g": g, "threads": runs, "long": big, "sched": gen_sched(rng, nt + 1, 1500)}


def SHRINK(path: tuple) -> bool:
    return path[0] == "threads" and (len(path) < 3 or path[2:] == () or path[-1] in ("s",))


class RefFail(Exception):
    pass


class TooLong(Exception):
    pass


def execute(case: dict) -> None:
    from expression import Error, Nothing, Ok, Option, Result, Some
    from expression.collections import Block
    from expression.extra import parser as P

    g = case["g"]
    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=40_000_000)
    log = sim.log

    class Wrap:
        __slots__ = ("k", "v")

        def __init__(self, k: Any, v: Any) -> None:
            self.k = k
            self.v = v

        def __repr__(self) -> str:
            return f"W{self.k}({self.v!r})"

    consts: dict[int, Any] = {i: value(n[2], i) for i, n in enumerate(g) if n[0] == "ret"}
    ids: dict[int, int] = {id(v): i for i, v in consts.items() if g[i][2] in ("msg", "odd")}
    PARSER = P.pchar("q")

    def canon(v: Any) -> Any:
        if id(v) in ids:
            return ("const", ids[id(v)])
        if isinstance(v, Wrap):
            return ("w", v.k, canon(v.v))
        if isinstance(v, Block):
            return ("b",) + tuple(canon(x) for x in v)
        if isinstance(v, Option):
            return ("some", canon(v.some)) if v.is_some() else ("nothing",)
        if isinstance(v, Result):
            return ("ok", canon(v.ok)) if v.is_ok() else ("error", canon(v.error))
        if v is PARSER:
            return ("parser",)
        if type(v) is tuple:
            return ("t",) + tuple(canon(x) for x in v)
        if v is None or type(v) in (bool, int, str, float):
            return (type(v).__name__, repr(v))
        return ("?", repr(v))

    def crc(k: Any, c: Any) -> int:
        return zlib.crc32(repr((k, c)).encode())

    # ---- reference interpreter ------------------------------------------------------------------------------
    steps = [0]

    def mapped(kind: str, k: Any, c: Any) -> Any:
        return {"wrap": ("w", k, c), "none": ("NoneType", "None"), "same": c, "error": ("error", c), "some": ("some", c), "pair": ("t", c, c), "parser": ("parser",)}[kind]

    def fails(ctx: dict, k: Any, c: Any) -> bool:
        f = ctx["fail"]
        return f is not None and crc(k, c) % f[0] == f[1] % f[0]

    def ref(i: int, s: str, p: int, ctx: dict) -> Any:
        steps[0] += 1
        if steps[0] > ctx["budget"]:
            raise TooLong
        n = g[i]
        k = n[0]
        if k == "char":
            return (canon(n[2]), p + 1) if s[p:p + 1] == n[2] else None
        if k in ("any", "digit", "letters", "lower"):
            cs = {"any": n[2] if k == "any" else "", "digit": string.digits, "letters": string.ascii_letters, "lower": string.ascii_lowercase}[k]
            return (canon(s[p]), p + 1) if p < len(s) and s[p] in cs else None
        if k == "str":
            return (canon(n[2]), p + len(n[2])) if s.startswith(n[2], p) else None
        if k == "ret":
            return canon(consts[i]), p
        if k == "fail":
            return None
        if k in ("digits", "ws"):
            cs = string.digits if k == "digits" else string.whitespace
            q = p
            while q < len(s) and s[q] in cs:
                q += 1
            return (("b",) + tuple(canon(x) for x in s[p:q]), q) if q > p else None
        if k in ("pint", "pfloat"):
            q = p + (s[p:p + 1] == "-")
            st = q
            while q < len(s) and s[q] in string.digits:
                q += 1
            if q == st:
                return None
            if k == "pfloat" and s[q:q + 1] == ".":
                e = q + 1
                while e < len(s) and s[e] in string.digits:
                    e += 1
                if e > q + 1:
                    q = e
            return canon((int if k == "pint" else float)(s[p:q])), q
        if k in ("and", "ign", "igt", "star", "lift2"):
            a = ref(n[2], s, p, ctx)
            if a is None:
                return None
            b = ref(n[3], s, a[1], ctx)
            if b is None:
                ctx["bt"] = True
                return None
            pair = ("t", a[0], b[0])
            if k == "and":
                return pair, b[1]
            if k == "ign":
                return a[0], b[1]
            if k == "igt":
                return b
            if k == "star":
                if n[4] and fails(ctx, i, pair):
                    raise RefFail
                return ("w", i, pair), b[1]
            if n[4] and fails(ctx, i, pair):
                raise RefFail
            return ("w", i, pair), b[1]
        if k in ("or", "choice"):
            for j in (n[2:4] if k == "or" else n[2]):
                a = ref(j, s, p, ctx)
                if a is not None:
                    return a
            return None
        if k == "seq":
            out = []
            for j in n[2]:
                a = ref(j, s, p, ctx)
                if a is None:
                    return None
                out.append(a[0])
                p = a[1]
            return ("b",) + tuple(out), p
        if k in ("map", "apply"):
            a = ref(n[2], s, p, ctx)
            if a is None:
                return None
            if fails(ctx, i, a[0]):
                raise RefFail
            return mapped(n[3], i, a[0]), a[1]
        if k in ("many", "many1"):
            out = []
            while True:
                a = ref(n[2], s, p, ctx)
                if a is None:
                    break
                out.append(a[0])
                p = a[1]
            return (("b",) + tuple(out), p) if out or k == "many" else None
        if k in ("sepby", "sepby1"):
            a = ref(n[2], s, p, ctx)
            if a is None:
                return (("b",), p) if k == "sepby" else None
            out = [a[0]]
            p = a[1]
            while True:
                b = ref(n[3], s, p, ctx)
                if b is None:
                    break
                a = ref(n[2], s, b[1], ctx)
                if a is None:
                    ctx["bt"] = True
                    break
                out.append(a[0])
                p = a[1]
            return ("b",) + tuple(out), p
        if k == "opt":
            a = ref(n[2], s, p, ctx)
            return (("nothing",), p) if a is None else (("some", a[0]), a[1])
        if k == "ignore":
            a = ref(n[2], s, p, ctx)
            return None if a is None else (("NoneType", "None"), a[1])
        if k == "between":
            a = ref(n[2], s, p, ctx)
            b = a and ref(n[4], s, a[1], ctx)
            c = b and ref(n[3], s, b[1], ctx)
            return c and (b[0], c[1])
        if k == "bind":
            a = ref(n[2], s, p, ctx)
            if a is None:
                return None
            if fails(ctx, i, a[0]):
                raise RefFail
            return ref(n[3 + crc(i, a[0]) % 2], s, a[1], ctx)
        if k == "starts":
            if not s.startswith(n[2] + n[3], p):
                return None
            return canon(n[2].startswith(n[3])), p + len(n[2] + n[3])
        if k == "rec":
            if s[p:p + 1] != n[2]:
                return None
            ctx["rec"] = True
            return ref(n[3] % len(g), s, p + 1, ctx)
        raise AssertionError(k)

    # ---- real parsers -----------------------------------------------------------------------------------------
    stack: dict[int, list[dict]] = {}

    def user(k: Any, v: Any, live: bool = True) -> Any:
        """Runs inside every mapper and binder: may fail, may run another parser."""
        ctx = stack[sim.cur.tid][-1]
        c = canon(v)
        sim.point()
        if live and fails(ctx, k, c):
            e = {"injected": Injected, "base": InjectedBase, "stop": StopIteration, "key": KeyError, "value": ValueError, "type": TypeError, "index": IndexError, "attr": AttributeError}[ctx["fail"][2]]("mapper")
            ctx["raised"].append(e)
            sim.fault("mapper fails")
            sim.probe("mapper-fails")
            raise e
        if ctx["re"] and ctx["re"] > 0:
            ctx["re"] -= 1
            sim.probe("reentrant")
            for (r, want) in plan[:2]:
                if r["fail"] is None:
                    one(real[r["i"]], r, want, 0)
        return c

    def mapper(i: int, kind: str) -> Any:
        def m(v: Any) -> Any:
            user(i, v)
            if kind == "wrap":
                return Wrap(i, v)
            return {"none": lambda: None, "same": lambda: v, "error": lambda: Error(v), "some": lambda: Some(v), "pair": lambda: (v, v), "parser": lambda: PARSER}[kind]()

        return odd(m, i)

    def build(i: int, ps: list) -> Any:
        n = g[i]
        k, m = n[0], n[1] == "m"
        if k == "char":
            return P.Parser.pchar(n[2]) if m else P.pchar(n[2])
        if k == "any":
            return P.Parser.any_of(n[2]) if m else P.any_of(n[2])
        if k == "str":
            return P.pstring(n[2])
        if k == "ret":
            return P.preturn(consts[i])
        if k == "fail":
            return P.Parser.fail(n[2]) if m else P.fail(n[2])
        if k in ("pint", "pfloat", "digits"):
            return getattr(P, k)
        if k in ("ws", "digit", "letters", "lower"):
            return {"ws": P.whitespace, "digit": P.parse_digit, "letters": P.parse_letters, "lower": P.parse_lowercase}[k]
        if k == "and":
            return ps[n[2]].and_then(ps[n[3]]) if m else P.and_then(ps[n[3]])(ps[n[2]])
        if k == "ign":
            return ps[n[2]].then_ignore(ps[n[3]]) if m else P.then_ignore(ps[n[3]])(ps[n[2]])
        if k == "igt":
            return ps[n[2]].ignore_then(ps[n[3]]) if m else P.ignore_then(ps[n[3]])(ps[n[2]])
        if k == "star":
            def sm(a: Any, b: Any) -> Any:
                user(i, (a, b), n[4])
                return Wrap(i, (a, b))

            q = ps[n[2]].and_then(ps[n[3]])
            return q.starmap(sm) if m else P.starmap(sm)(q)
        if k == "lift2":
            def f1(a: Any) -> Any:
                def f2(b: Any) -> Any:
                    user(i, (a, b), n[4])
                    return Wrap(i, (a, b))

                return f2

            return P.lift2(f1)(ps[n[2]])(ps[n[3]])
        if k == "or":
            return ps[n[2]].or_else(ps[n[3]]) if m else P.or_else(ps[n[2]])(ps[n[3]])
        if k == "choice":
            return P.choice(Block([ps[j] for j in n[2]]))
        if k == "seq":
            return P.sequence(Block([ps[j] for j in n[2]]))
        if k == "map":
            return ps[n[2]].map(mapper(i, n[3])) if m else P.map(mapper(i, n[3]))(ps[n[2]])
        if k == "apply":
            return P.apply(P.preturn(mapper(i, n[3])), ps[n[2]])
        if k == "many":
            return P.many(ps[n[2]])
        if k == "many1":
            return P.many1(ps[n[2]])
        if k == "sepby":
            return P.sep_by(ps[n[2]], ps[n[3]])
        if k == "sepby1":
            return P.sep_by1(ps[n[2]], ps[n[3]])
        if k == "opt":
            return ps[n[2]].opt() if m else P.opt(ps[n[2]])
        if k == "ignore":
            return ps[n[2]].ignore() if m else P.ignore(ps[n[2]])
        if k == "between":
            return ps[n[4]].between(ps[n[2]], ps[n[3]]) if m else P.between(ps[n[2]])(ps[n[3]])(ps[n[4]])
        if k == "bind":
            def bd(v: Any) -> Any:
                c = user(i, v)
                return ps[n[3 + crc(i, c) % 2]]

            return ps[n[2]].bind(bd) if m else P.bind(bd)(ps[n[2]])
        if k == "starts":
            return P.starts_with(P.pstring(n[2]))(P.pstring(n[3]))
        if k == "rec":
            return P.pchar(n[2]).ignore_then(P.Parser(lambda inp: ps[n[3] % len(g)].run(inp), "rec"))
        raise AssertionError(k)

    def one(p: Any, r: dict, want: Any, re: int) -> Any:
        """Run parser p and compare with want; returns the error text, if any."""
        ctx = {"fail": r["fail"], "re": re, "raised": []}
        st = stack.setdefault(sim.cur.tid, [])
        st.append(ctx)
        s, pos = r["s"], r["pos"]
        try:
            try:
                out = p(s) if r["api"] == "call" else p.run((s, pos))
            finally:
                st.pop()
        except Violation:
            raise
        except BaseException as e:
            if not any(e is x for x in ctx["raised"]):
                if isinstance(e, (Exception, Injected, InjectedBase)):
                    raise Violation("exception", f"node {r['i']} on {s!r}@{pos} raised {type(e).__name__}: {e}")
                raise
            if want != "raise":
                raise Violation("exception", f"node {r['i']} on {s!r}@{pos} raised a mapper's exception that no successful parse step calls for")
            return None
        if ctx["raised"]:
            raise Violation("exception-lost", f"node {r['i']} on {s!r}@{pos}: a mapper raised {ctx['raised'][0]!r} but the run returned {out!r}")
        if not isinstance(out, Result):
            raise Violation("result", f"node {r['i']} on {s!r}@{pos} returned {out!r}")
        if want == "raise":
            raise Violation("result", f"node {r['i']} on {s!r}@{pos} returned {out!r}; a mapper should have been called and raised")
        if out.is_error():
            if want is not None:
                raise Violation("rejected", f"node {r['i']} on {s!r}@{pos} failed ({out.error!r}) instead of giving {want!r}")
            sim.probe("error")
            return out.error
        if want is None:
            raise Violation("accepted", f"node {r['i']} on {s!r}@{pos} gave {out!r} instead of failing")
        if r["api"] == "call":
            got = canon(out.ok)
        else:
            v, rest = out.ok
            if rest[0] != s or rest[1] != want[1]:
                raise Violation("position", f"node {r['i']} on {s!r}@{pos} left {rest!r} instead of position {want[1]}")
            if rest[1] == len(s):
                sim.probe("empty-rest")
            got = canon(v)
        if got != want[0]:
            raise Violation("value", f"node {r['i']} on {s!r}@{pos} gave {got!r} instead of {want[0]!r}"[:500])
        sim.probe("ok")
        return None

    def expectation(r: dict) -> Any:
        ctx = {"fail": r["fail"], "budget": 160}
        steps[0] = 0
        try:
            w = ref(r["i"], r["s"], r["pos"], ctx)
        except RefFail:
            w = "raise"
        except TooLong:
            return TooLong
        if ctx.get("bt"):
            sim.probe("backtracked")
        if ctx.get("rec"):
            sim.probe("recursive")
        if r["pos"]:
            sim.probe("offset")
        return w

    def build_all() -> list:
        ps: list = []
        for i in range(len(g)):
            ps.append(build(i, ps))
        return ps

    plan: list[tuple[dict, Any]] = []
    real: list = []

    def thread(todo: list) -> Any:
        def run() -> None:
            for r, want, alone in todo:
                log("run", sim.cur.tid, r["i"], r["s"], r["pos"])
                sw = sim.switches
                p = real[r["i"]]
                if r["own"]:
                    p = build(r["i"], real)
                    sim.probe("built-in-thread")
                err = one(p, r, want, 1 if r["re"] else 0)
                if sim.switches != sw:
                    sim.probe("preempted-in-run")
                if err != alone:
                    raise Violation("error", f"node {r['i']} on {r['s']!r}@{r['pos']} failed with {err!r}; run alone it fails with {alone!r}")

        return run

    def long_input(n: int) -> None:
        sim.probe("long-input")
        a = P.pchar("a")
        ctx = {"fail": None, "re": 0, "raised": []}
        stack.setdefault(sim.cur.tid, []).append(ctx)
        for name, p, s, cnt, end in (("many", P.many(a), "a" * n + "b", n, n), ("many1", P.many1(a), "a" * n, n, n),
                                     ("sep_by", P.sep_by(a, P.pchar(",")), ",".join("a" * (n // 2)) + ",", n // 2, n // 2 * 2 - 1),
                                     ("digits", P.digits, "7" * n, n, n)):
            try:
                out = p.run((s, 0))
            except RecursionError:
                raise Violation("long-input", f"{name} on {n} characters exhausts the stack")
            if not out.is_ok() or len(out.ok[0]) != cnt or out.ok[1][1] != end:
                raise Violation("long-input", f"{name} on {n} characters gave {out!r}"[:300])

    def main() -> None:
        if case.get("long"):
            return long_input(case["long"])
        fresh = build_all()
        real.extend(build_all())
        work = []
        for rs in case["threads"]:
            todo = []
            for r in rs:
                w = expectation(r)
                if w is TooLong:
                    continue
                plan.append((r, w))
                todo.append((r, w, one(fresh[r["i"]], r, w, 0)))
                if g[r["i"]][0] == "ret":
                    sim.probe("odd-value")
            work.append(todo)
        ts = [sim.spawn(thread(t)) for t in work]
        for t in ts:
            sim.join(t)
        for todo in work:
            for r, w, alone in todo:
                if one(real[r["i"]], r, w, 0) != alone:
                    raise Violation("error", f"node {r['i']} on {r['s']!r} fails differently after the other runs")
                sim.probe("fresh-equal")

    sim.run(main)
    sim.nontrivial = len(case["threads"]) > 1
