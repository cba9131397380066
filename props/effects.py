"""Random effect bodies for C11 and C12: one program, compiled twice (decorated, and as a plain sequential reference)."""

from __future__ import annotations

import asyncio
from random import Random
from typing import Any

from sim.core import Injected, InjectedBase, SimAbort, size

from .aio import SPECIAL, Msg, Odd, wait_spec

VALS = ["msg", "msg", "msg", "odd", *SPECIAL]
OPT = {"option", "async_option"}


def gen_stmts(rng: Random, n: int, depth: int, ctx: dict) -> list:
    """ctx: kind, y (may yield), nfn, fam (kinds of the functions), fin (inside a finally block)."""
    out = []
    for _ in range(n):
        r = rng.random()
        kind = ctx["kind"]
        v = rng.choice(VALS)
        if r < 0.14:
            out.append(["mark"])
        elif r < 0.26:
            out.append(["wait", wait_spec(rng)])
        elif r < 0.46 and ctx["y"] and not ctx["fin"]:
            out.append(["yield", v])
        elif r < 0.58 and kind != "seq" and (ctx["y"] or ctx["async"]) and not ctx["fin"]:
            out.append(["bind", v, wait_spec(rng) if rng.random() < 0.3 else None])
        elif r < 0.58 and kind == "seq" and ctx["y"] and not ctx["fin"]:
            out.append(["yieldfrom", [rng.choice(VALS) for _ in range(rng.choice([0, 1, 2, 3]))]])
        elif r < 0.64 and kind != "seq" and ctx["y"] and ctx["async"] and not ctx["fin"]:
            out.append(["yawait", v])
        elif r < 0.69 and kind != "seq" and (ctx["y"] or ctx["async"]):
            if rng.random() < ctx["short"]:
                out.append(["short", rng.randrange(3), rng.random() < 0.2 and ctx["y"] and ctx["async"] and not ctx["fin"]])
        elif r < 0.80 and ctx["calls"] > 0:
            ctx["calls"] -= 1
            j = rng.randrange(ctx["nfn"])
            out.append(["call", j, rng.choice(["rec", "bind", "bind"]) if not ctx["fin"] else "rec"])
        elif r < 0.84 and rng.random() < ctx["raise"]:
            out.append(["raise", rng.choice(["E", "E", "B"])])
        elif r < 0.90 and depth < 2:
            fin = dict(ctx, fin=True)
            body = gen_stmts(rng, rng.randint(1, 3), depth + 1, ctx)
            out.append(["try", body, gen_stmts(rng, rng.randint(1, 2), depth + 1, fin) or [["mark"]]])
        elif r < 0.94 and depth < 2:
            out.append(["catch", gen_stmts(rng, rng.randint(1, 3), depth + 1, ctx), rng.choice(["E", "E", "B", "C"] if ctx["async"] else ["E", "E", "B"])])
        elif r < 0.975 and depth < 2:
            out.append(["loop", rng.choice([2, 2, 3]), gen_stmts(rng, rng.randint(1, 3), depth + 1, ctx)])
        elif r < 0.99 and not ctx["fin"]:
            out.append(["return", rng.choice(VALS)])
    return out


def gen_fns(rng: Random, kinds: list[str]) -> list[dict]:
    nfn = rng.choice([1, 1, 2, 2, 3])
    short, rs = rng.choice([0.0, 0.3, 1.0]), rng.choice([0.0, 0.5, 1.0])
    fns = []
    for _ in range(nfn):
        kind = rng.choice(kinds)
        a = kind.startswith("async")
        y = rng.random() < (0.7 if a else 0.85)
        ctx = {"kind": kind, "y": y, "nfn": nfn, "fin": False, "short": short, "raise": rs, "calls": 2, "async": a}
        fns.append({"kind": kind, "plain": a and not y and rng.random() < 0.1, "body": gen_stmts(rng, size(rng, [1, 2, 3, 4, 6, 8], 0.02, (12, 20, 40)), 0, ctx), "single": rng.random() < 0.3})
    return fns


def has_yield(stmts: list, a: bool) -> bool:
    for s in stmts:
        if s[0] in ("yield", "yieldfrom", "yawait") or (s[0] == "bind" and not a) or (s[0] == "short" and (not a or s[2])):
            return True
        if s[0] == "call" and s[2] == "bind" and not a:
            return True
        if s[0] in ("try", "catch") and has_yield(s[1], a):
            return True
        if s[0] == "try" and has_yield(s[2], a):
            return True
        if s[0] == "loop" and has_yield(s[2], a):
            return True
    return False


def emit(fns: list, i: int, ref: bool) -> str:
    f = fns[i]
    kind = f["kind"]
    a = kind.startswith("async")
    hy = has_yield(f["body"], a)
    plain = f["plain"] and not hy
    aw = "" if ref or plain else "await " if a else ""
    out = [f"{'async ' if a and not ref and not plain else ''}def body(cx, a, *, k):"]
    uid = [0]

    def bind(e: str) -> str:
        if ref:
            return f"cx.b({e})" if a else f"cx.yb({e})"
        return f"await {e}" if a else f"yield from {e}"

    def block(stmts: list, ind: int) -> None:
        p = "    " * ind
        if not stmts:
            out.append(p + "pass")
        for s in stmts:
            uid[0] += 1
            u = uid[0]
            op = s[0]
            if op == "mark":
                out.append(f"{p}cx.m({u}, a, k)")
            elif op == "wait":
                out.append(f"{p}{aw}cx.w({s[1]!r})" if not plain else f"{p}cx.m({u})")
            elif op == "yield":
                out.append(f"{p}cx.got({u}, cx.y(cx.v({s[1]!r})))" if ref else f"{p}x = yield cx.v({s[1]!r})\n{p}cx.got({u}, x)")
            elif op == "bind":
                if plain:
                    out.append(f"{p}cx.m({u})")
                elif s[2] is None or not a:
                    out.append(f"{p}x = {bind(f'cx.ok({s[1]!r})')}\n{p}cx.got({u}, x)")
                else:
                    out.append(f"{p}x = {aw}cx.later({s[1]!r}, {s[2]!r})\n{p}x = {bind('x')}\n{p}cx.got({u}, x)")
            elif op == "yawait":
                out.append(f"{p}x = {'cx.y(' if ref else 'yield '}{bind(f'cx.ok({s[1]!r})')}{')' if ref else ''}\n{p}cx.got({u}, x)")
            elif op == "yieldfrom":
                out.append(f"{p}cx.yf(cx.vs({s[1]!r}))" if ref else f"{p}yield from cx.vs({s[1]!r})")
                out.append(f"{p}cx.m({u})")
            elif op == "short":
                if plain:
                    out.append(f"{p}cx.m({u})")
                elif s[2] and a and not ref:
                    out.append(f"{p}x = yield await cx.fail({s[1]})")
                else:
                    out.append(f"{p}x = {bind(f'cx.fail({s[1]})')}\n{p}cx.got({u}, x)")
            elif op == "call":
                if plain:
                    out.append(f"{p}cx.m({u})")
                    continue
                j = s[1]
                g = fns[j]["kind"]
                out.append(f"{p}if cx.may():")
                out.append(f"{p}    r = {aw}F[{j}](cx.sub(), {u}, k=a)")
                out.append(f"{p}    cx.got({u}, r)")
                if s[2] == "bind":
                    if (g in OPT) == (kind in OPT) and kind != "seq" and g != "seq":
                        out.append(f"{p}    x = {bind('r')}\n{p}    cx.got({u}, x)")
                    elif kind == "seq" and g == "seq":
                        out.append(f"{p}    cx.yf(r)" if ref else f"{p}    yield from r")
                        out.append(f"{p}    cx.m({u})")
            elif op == "raise":
                out.append(f"{p}cx.boom({s[1]!r})")
            elif op == "try":
                out.append(f"{p}try:")
                block(s[1], ind + 1)
                out.append(f"{p}finally:")
                block(s[2], ind + 1)
                out.append(f"{p}    cx.m('fin')")
            elif op == "catch":
                out.append(f"{p}try:")
                block(s[1], ind + 1)
                out.append(f"{p}except {dict(E='Injected', B='InjectedBase', C='Cancelled')[s[2]]} as e:")
                out.append(f"{p}    cx.caught(e)")
            elif op == "loop":
                out.append(f"{p}for _i{ind} in range({s[1]}):")
                block(s[2], ind + 1)
            elif op == "return":
                if a and hy:
                    out.append(f"{p}if cx.m({u}) is None:\n{p}    return")
                else:
                    out.append(f"{p}if cx.m({u}) is None:\n{p}    return cx.v({s[1]!r})")

    block(f["body"], 1)
    return "\n".join(out) + "\n"


CODE: dict[str, Any] = {}


def load(src: str, ns: dict) -> Any:
    c = CODE.get(src)
    if c is None:
        if len(CODE) > 5000:
            CODE.clear()
        c = CODE[src] = compile(src, "<body>", "exec")
    exec(c, ns)
    return ns["body"]


class R:
    """A reference Option/Result value."""

    def __init__(self, tag: str, v: Any = None) -> None:
        self.tag, self.v = tag, v

    def __repr__(self) -> str:
        return f"{self.tag} {self.v!r}" if self.tag != "none" else "Nothing"


class Short(BaseException):
    def __init__(self, r: R) -> None:
        super().__init__(r)
        self.r = r


class Root:
    """One top-level call, real or reference."""

    def __init__(self, memo: dict, hits: dict | None = None) -> None:
        self.memo = memo
        self.ev: list = []
        self.nv = 0
        self.nw = 0
        self.nx = 0
        self.calls = 0
        self.hits = hits if hits is not None else {}

    def get(self, key: Any, make: Any) -> Any:
        if key not in self.memo:
            self.memo[key] = make()
        return self.memo[key]


class Cx:
    def __init__(self, root: Root, depth: int, kind: str, env: Any) -> None:
        self.root, self.depth, self.kind, self.env = root, depth, kind, env
        self.ys: list = []

    def sub(self) -> Any:
        return type(self)(self.root, self.depth + 1, self.kind, self.env)

    def may(self) -> bool:
        if self.depth >= 2 or self.root.calls >= 8:
            return False
        self.root.calls += 1
        return True

    def v(self, kind: str) -> Any:
        r = self.root
        r.nv += 1
        n = r.nv
        if kind in SPECIAL:
            return SPECIAL[kind]
        return r.get(("v", n), lambda: (Odd if kind == "odd" else Msg)(n))

    def vs(self, kinds: list) -> list:
        return [self.v(k) for k in kinds]

    def m(self, *a: Any) -> None:
        self.root.ev.append(("m", *a))
        self.env.log("m", *a[:1])

    def got(self, u: Any, x: Any) -> None:
        self.root.ev.append(("got", u, x))
        self.env.log("got", u)

    def caught(self, e: BaseException) -> None:
        self.root.ev.append(("caught", e if isinstance(e, (Injected, InjectedBase)) else type(e).__name__))
        self.env.log("caught")

    def boom(self, k: str) -> None:
        r = self.root
        r.nx += 1
        n = r.nx
        self.env.fault("body raises")
        self.env.log("raise", n)
        raise r.get(("x", n), lambda: (Injected if k == "E" else InjectedBase)(n))

    def err(self, k: int) -> Any:
        r = self.root
        r.nx += 1
        n = r.nx
        return r.get(("e", n), lambda: [Msg(("e", n)), Odd(("e", n)), Injected(("e", n))][k])


class RefCx(Cx):
    """Reference semantics: plain sequential execution."""

    def y(self, x: Any) -> Any:
        self.ys.append(x)
        return x

    def yf(self, xs: Any) -> None:
        self.ys.extend(xs)

    def b(self, r: R) -> Any:
        if r.tag in ("some", "ok"):
            return r.v
        raise Short(r)

    def yb(self, r: R) -> Any:
        return self.y(self.b(r))

    def ok(self, kind: str) -> R:
        return R("some" if self.kind in OPT else "ok", self.v(kind))

    def fail(self, k: int) -> R:
        e = self.err(k)
        return R("none") if self.kind in OPT else R("error", e)

    def w(self, spec: Any) -> None:
        r = self.root
        r.nw += 1
        if r.nw in r.hits:
            raise r.hits[r.nw]

    def later(self, kind: str, spec: Any) -> R:
        self.w(spec)
        return self.ok(kind)


class Quiet:
    def log(self, *a: Any) -> None:
        pass

    def fault(self, *a: Any) -> None:
        pass


def ref_fns(fns: list) -> list:
    F: list = []
    for i, f in enumerate(fns):
        body = load(emit(fns, i, True), {"F": F, "Injected": Injected, "InjectedBase": InjectedBase, "Cancelled": asyncio.CancelledError})
        kind = f["kind"]
        opt = kind in OPT

        def call(cx: RefCx, *a: Any, body: Any = body, kind: str = kind, opt: bool = opt, **k: Any) -> Any:
            cx.kind = kind
            try:
                ret = body(cx, *a, **k)
            except Short as s:
                return s.r
            if kind == "seq":
                return cx.ys + ([ret] if ret is not None else [])
            if ret is not None:
                return R("some" if opt else "ok", ret)
            if cx.ys:
                return R("some" if opt else "ok", cx.ys[-1])
            return R("none") if opt else R("ok", None)

        F.append(call)
    return F


def same(a: Any, b: Any) -> bool:
    """Is the real value a what the reference value b stands for?"""
    if a is b:
        return True
    if isinstance(b, R):
        from expression import Option, Result

        if b.tag == "none":
            return isinstance(a, Option) and a.tag == "none"
        if b.tag == "some":
            return isinstance(a, Option) and a.tag == "some" and same(a.some, b.v)
        if not isinstance(a, Result) or a.tag != b.tag:
            return False
        return same(a.ok if b.tag == "ok" else a.error, b.v)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, list):
        try:
            a = list(a)
        except TypeError:
            return False
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and type(a) in (int, str) and a == b


def outcome(fn: Any) -> tuple:
    try:
        return ("value", fn())
    except SimAbort:
        raise
    except asyncio.CancelledError:
        return ("cancelled", None)
    except BaseException as e:
        return ("exc", e)
