"""C04: cancellation sources under races (threads, bytecode-level preemption)."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import Injected, Violation, gen_sched, size
from sim.threads import Sim

ID = "C04"
TITLE = "cancellation source races"
QUICK = 50000
THOROUGH = 3000000
BATCH = 100
FAULTS = ("lib", "effect", "stop")
RULE = ("Random programs of 1-4 threads over 1-3 cancellation sources (register, unregister, cancel, dispose, with, reads, none tokens; "
        "callbacks that fail, re-enter, or wait for a helper thread that uses the source), random preemption schedule at bytecode granularity.")
PROBES = ["register-race-raised", "cb-after-register-race", "unreg-before-cancel", "helper-ran", "reentrant", "dup"]


def _op(rng: Random, ns: int, depth: int, nslots: int) -> list:
    r = rng.random()
    s = rng.randrange(ns)
    if r < 0.36:
        cb: dict[str, Any] = {}
        q = rng.random()
        if q < 0.25:
            cb["raise"] = 1
        if depth < 2 and rng.random() < 0.25:
            cb["ops"] = [_op(rng, ns, depth + 1, nslots) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.15:
            cb["point"] = 1
        if depth == 0 and rng.random() < 0.12:
            cb["help"] = [rng.choice(["read", "throw", "reg", "cancel", "unreg", "with"]), s, rng.randrange(nslots)]
        if rng.random() < 0.12:
            cb["dup"] = rng.randrange(2)
        return ["reg", s, rng.randrange(nslots), cb]
    if r < 0.50:
        return ["unreg", rng.randrange(nslots)]
    if r < 0.66:
        return [rng.choice(["cancel", "cancel", "dispose"]), s]
    if r < 0.74:
        return ["with", s, rng.random() < 0.3, [_op(rng, ns, depth + 1, nslots)] if depth < 2 and rng.random() < 0.5 else []]
    if r < 0.86:
        return ["read", s]
    if r < 0.93:
        return ["throw", s]
    return ["none", rng.random() < 0.5]


def generate(rng: Random, tier: str) -> dict:
    ns = rng.choice([1, 1, 1, 2, 3])
    nt = rng.choice([1, 2, 2, 2, 3, 3, 4])
    nslots = rng.choice([2, 4, 6])
    big = 8 if tier == "thorough" else 6
    pre = [_op(rng, ns, 1, nslots) for _ in range(size(rng, [0, 0, 1, 3], 0.02, (30, 70, 200)))]
    pre = [o for o in pre if o[0] in ("reg", "read", "none") or (o[0] == "unreg" and len(pre) > 10)]
    threads = [[_op(rng, ns, 0, nslots) for _ in range(rng.randint(1, big))] for _ in range(nt)]
    return {"ns": ns, "pre": pre, "threads": threads, "nslots": nslots, "sched": gen_sched(rng, nt + 1, 350)}


def execute(case: dict) -> None:
    from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException

    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1)
    ns = case["ns"]
    log = sim.log
    INF = 1 << 60

    # per source: first cancel invocation, first cancel return
    c_inv = [INF] * ns
    c_ret = [INF] * ns
    reads: list[tuple] = []  # (source, invoke, return, value)
    regs: list[dict] = []
    helpers: list = []
    slots: dict[int, Any] = {}
    dups: dict[tuple[int, int], Any] = {}
    ncb = 0

    sources: list[Any] = []
    early_tokens: list[Any] = []

    class Cb:
        def __init__(self, cid: int, s: int, spec: dict) -> None:
            self.cid = cid
            self.s = s
            self.spec = spec
            self.runs = 0
            self.run_stamps: list[int] = []

        def __bool__(self) -> bool:
            return self.cid % 3 != 1

        def __call__(self) -> None:
            self.runs += 1
            self.run_stamps.append(log("cb", self.cid))
            if self.runs > 50:
                raise Violation("callback-runaway", f"callback {self.cid}")
            spec = self.spec
            if not early_tokens[self.s].is_cancellation_requested:
                flag("callback-before-flag", f"callback {self.cid} ran while its token did not report cancellation")
            if spec.get("point"):
                sim.point()
            if self.runs == 1:
                for o in spec.get("ops", ()):
                    sim.probe("reentrant")
                    do(o)
                if spec.get("help"):
                    asked, answered = self.gate  # type: ignore
                    asked.set()
                    answered.wait()
            if spec.get("raise"):
                sim.fault("callback raises")
                raise Injected(self.cid)

    bad: list[Violation] = []

    def flag(kind: str, msg: str) -> None:
        if not bad:
            bad.append(Violation(kind, msg))

    def token(s: int) -> Any:
        return early_tokens[s] if sim.seq % 2 else sources[s].token

    def cancel_op(s: int, fn: Any) -> None:
        inv = log("cancel?", s)
        c_inv[s] = min(c_inv[s], inv)
        fn()
        ret = log("cancel!", s)
        c_ret[s] = min(c_ret[s], ret)

    def do(o: list) -> None:
        nonlocal ncb
        k = o[0]
        if k == "reg":
            _, s, slot, spec = o
            if "dup" in spec and (s, spec["dup"]) in dups:
                cb = dups[(s, spec["dup"])]
                sim.probe("dup")
            else:
                cb = Cb(ncb, s, spec)
                ncb += 1
                if "dup" in spec:
                    dups[(s, spec["dup"])] = cb
                if spec.get("help"):
                    cb.gate = (sim.event(), sim.event())  # type: ignore
                    helpers.append((cb, spec["help"]))
                    sim.spawn(lambda h=(cb, spec["help"]): helper(*h))
            rec = {"cb": cb, "s": s, "inv": log("reg?", s, cb.cid), "ok": False, "raised": False, "un_inv": INF, "un_ret": INF, "ret": INF}
            regs.append(rec)
            try:
                d = token(s).register(cb)
                rec["ok"] = True
            except ObjectDisposedException:
                rec["raised"] = True
                d = None
            rec["ret"] = log("reg!", s, cb.cid, rec["ok"])
            if d is not None:
                slots[slot] = (rec, d)
        elif k == "unreg":
            ent = slots.pop(o[1], None)
            if ent is not None:
                rec, d = ent
                rec["un_inv"] = log("unreg?", rec["cb"].cid)
                if o[1] % 3 == 2:
                    with d:
                        pass
                else:
                    d.dispose()
                if o[1] % 2:
                    d.dispose()
                rec["un_ret"] = log("unreg!", rec["cb"].cid)
        elif k == "cancel":
            cancel_op(o[1], sources[o[1]].cancel)
        elif k == "dispose":
            cancel_op(o[1], sources[o[1]].dispose)
        elif k == "with":
            _, s, raises, body = o
            src = sources[s]
            inv = log("enter?", s)
            entered = False
            boom = Injected(("body", inv))
            try:
                with src as w:
                    entered = True
                    if w is not src:
                        flag("enter-value", f"entering the with-block of source {s} gave {w!r}, not the source")
                    ent = log("enter!", s)
                    if c_ret[s] < inv:
                        flag("enter-after-cancel", f"entered the with-block of source {s} although it was cancelled before")
                    for b in body:
                        do(b)
                    xi = log("exit?", s)
                    c_inv[s] = min(c_inv[s], xi)
                    if raises:
                        sim.fault("with-body raises")
                        raise boom
                if raises:
                    flag("swallowed", "the with-block of a source swallowed the body's exception")
            except ObjectDisposedException as e:
                if e is boom:
                    pass
                elif entered:
                    flag("with-exit", "leaving the with-block raised ObjectDisposedException")
                elif c_inv[s] == INF:
                    flag("enter-raised", f"entering the with-block of source {s} raised before any cancellation")
            except Injected as e:
                if e is not boom:
                    raise
            if entered:
                c_ret[s] = min(c_ret[s], log("exit!", s))
        elif k in ("read", "throw"):
            s = o[1]
            inv = log("read?", s)
            if k == "read":
                v = token(s).is_cancellation_requested
                if sim.seq % 3 == 0:
                    v = sources[s].is_cancellation_requested
            else:
                try:
                    token(s).throw_if_cancellation_requested()
                    v = False
                except ObjectDisposedException:
                    v = True
            reads.append((s, inv, log("read!", s, v), v))
            if not token(s).can_be_canceled:
                flag("can-be-canceled", "a source's token claims it cannot be cancelled")
        elif k == "none":
            t = CancellationToken.none()
            if t.is_cancellation_requested or t.can_be_canceled:
                flag("none-token", "a none token reports cancellation")
            t.throw_if_cancellation_requested()
            if o[1]:
                def never() -> None:
                    flag("none-token", "a callback registered on a none token ran")
                d = t.register(never)
                d.dispose()
                src = CancellationTokenSource.cancelled_source()
                if not (src.is_cancellation_requested and src.token.is_cancellation_requested):
                    flag("cancelled-source", "a cancelled source does not report cancellation")
                for f in (src.token.throw_if_cancellation_requested, lambda: src.token.register(never), src.__enter__):
                    try:
                        f()
                    except ObjectDisposedException:
                        continue
                    flag("cancelled-source", "using a cancelled source did not raise")
                src.cancel()

    def helper(cb: Cb, what: list) -> None:
        asked, answered = cb.gate  # type: ignore
        asked.wait()
        if cb.runs:
            sim.probe("helper-ran")
            k, s, slot = what
            if k == "reg":
                do(["reg", s, 90 + slot, {}])
            elif k == "unreg":
                do(["unreg", slot])
            elif k == "with":
                do(["with", s, False, []])
            else:
                do([k, s])
        answered.set()

    def worker(ops: list) -> Any:
        def body() -> None:
            for o in ops:
                do(o)

        return body

    def main() -> None:
        for _ in range(ns):
            sources.append(CancellationTokenSource())
        for s in range(ns):
            early_tokens.append(sources[s].token)
        for o in case["pre"]:
            do(o)
        ts = [sim.spawn(worker(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)
        for cb, _ in list(helpers):
            cb.gate[0].set()  # type: ignore

    sim.run(main)
    if bad:
        raise bad[0]

    # -- history checks -------------------------------------------------------
    seen_true = [INF] * ns
    for s, inv, ret, v in reads:
        if v:
            if c_inv[s] > ret:
                raise Violation("spurious-cancel", f"source {s} reported cancellation at {ret} before any cancel was called")
            seen_true[s] = min(seen_true[s], ret)
    for s, inv, ret, v in reads:
        if not v and c_ret[s] < inv:
            raise Violation("lost-cancel", f"source {s}: read at {inv} says not cancelled although cancel returned at {c_ret[s]}")
        if not v and seen_true[s] < inv:
            raise Violation("un-cancelled", f"source {s}: cancellation was reported at {seen_true[s]} and denied at {inv}")
    lo: dict[int, int] = {}
    hi: dict[int, int] = {}
    cbs: dict[int, Any] = {}
    for r in regs:
        s, cb = r["s"], r["cb"]
        cbs[cb.cid] = cb
        l = h = 0
        if r["raised"]:
            if c_inv[s] > r["ret"]:
                raise Violation("register-raised", f"register on source {s} raised before any cancellation")
            if c_ret[s] > r["inv"]:
                sim.probe("register-race-raised")
        elif r["ok"]:
            if c_inv[s] < INF:
                if r["un_ret"] < c_inv[s]:
                    sim.probe("unreg-before-cancel")
                elif r["un_inv"] < INF:
                    h = 1
                else:
                    l = h = 1
                    if r["ret"] > c_inv[s]:
                        sim.probe("cb-after-register-race")
        lo[cb.cid] = lo.get(cb.cid, 0) + l
        hi[cb.cid] = hi.get(cb.cid, 0) + h
    for cid, cb in cbs.items():
        if not lo[cid] <= cb.runs <= hi[cid]:
            raise Violation("callback-count", f"callback {cid} of source {cb.s} ran {cb.runs} times, expected {lo[cid]}..{hi[cid]}")
