"""Deterministic scheduler for real threads: one baton, preemption at bytecode granularity."""

from __future__ import annotations

import _thread
import gc
import hashlib
import sys
import threading
from collections import Counter, deque
from collections.abc import Callable
from typing import Any

from . import core
from .core import BIG, GC, HarnessError, Policy, SimAbort, Violation, make_policy, real_lock

ACTIVE: "Sim | None" = None
LAST: "Sim | None" = None

RUNNABLE, BLOCKED, DONE = "r", "b", "d"

CHUNK = 200_000


class SimThread:
    __slots__ = ("tid", "fn", "go", "state", "lstep", "nxt", "want", "deadline", "timed_out", "exc", "joiners", "ident", "what")

    def __init__(self, tid: int, fn: Callable[[], Any] | None) -> None:
        self.tid = tid
        self.fn = fn
        self.go = real_lock()
        self.go.acquire()
        self.state = RUNNABLE
        self.lstep = 0
        self.nxt = BIG
        self.want = BIG
        self.deadline: float | None = None
        self.timed_out = False
        self.exc: BaseException | None = None
        self.joiners: list[SimThread] = []
        self.ident = 0
        self.what = ""


class Sim:
    """One simulated run."""

    def __init__(self, sched: dict | None = None, max_steps: int = 3_000_000, nthreads: int = 8) -> None:
        global LAST
        LAST = self
        self.policy: Policy = make_policy(sched, nthreads)
        self.threads: list[SimThread] = []
        self.cur: SimThread = None  # type: ignore
        self.now = 0.0
        self.aborting = False
        self.abort_kind: str | None = None
        self.abort_msg = ""
        self.history: list[tuple] = []
        self.trace: list[list] = []
        self.switches = 0
        self.faults: Counter[str] = Counter()
        self.probes: Counter[str] = Counter()
        self.idle: deque = deque()
        self.max_steps = max_steps
        self.seq = 0
        self.unhandled: list[dict] = []
        self.loop_steps = 0
        self.max_loop_steps = 100_000
        self.nontrivial = False
        self.loops: list = []
        self.tasks = 0
        self.main_tid = (0, 0, 1, 1, 2, 3)[core.SALT % 6]

    # -- logging ------------------------------------------------------------
    def stamp(self) -> int:
        """Global event sequence number."""
        self.seq += 1
        return self.seq

    def log(self, *event: Any) -> int:
        self.seq += 1
        self.history.append(event)
        return self.seq

    def fault(self, name: str, n: int = 1) -> None:
        self.faults[name] += n

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] += n

    def digest(self) -> bytes:
        h = hashlib.blake2b(digest_size=8)
        h.update(repr(self.history).encode("utf-8", "replace"))
        h.update(repr([e for e in self.trace if e[3] != GC]).encode())
        return h.digest()

    # -- running ------------------------------------------------------------
    def run(self, main: Callable[[], Any]) -> Any:
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError("nested simulation")
        t0 = SimThread(0, None)
        t0.ident = _thread.get_ident()
        self.threads.append(t0)
        self.cur = t0
        self._arm(t0)
        ACTIVE = self
        result = None
        err: BaseException | None = None
        try:
            try:
                result = main()
                self.join_all()
            except SimAbort:
                pass
            except BaseException as e:  # noqa: BLE001
                err = e
                if not self.aborting:
                    self._set_abort("main-failed", repr(e))
        finally:
            self.aborting = True
            for t in self.threads[1:]:
                while t.state != DONE:
                    t.state = RUNNABLE
                    self.cur = t
                    t.go.release()
                    t0.go.acquire()
            t0.state = DONE
            ACTIVE = None
        if err is not None:
            raise err
        if self.abort_kind is not None:
            raise Violation(self.abort_kind, self.abort_msg)
        return result

    def spawn(self, fn: Callable[[], Any]) -> SimThread:
        t = SimThread(len(self.threads), fn)
        self.threads.append(t)
        self._arm(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t: SimThread) -> None:
        t.go.acquire()
        t.ident = _thread.get_ident()
        try:
            if not self.aborting:
                t.fn()  # type: ignore
        except SimAbort:
            pass
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        t.fn = None
        # no stale _DummyThread: thread identifiers are reused by the system at will
        threading._active.pop(t.ident, None)  # type: ignore
        t.state = DONE
        if self.aborting:
            self.threads[0].go.release()
            return
        for j in t.joiners:
            self._wake(j)
        t.joiners.clear()
        t.lstep += 1
        try:
            nxt = self._pick(t)
        except SimAbort:
            # deadlock found by a finishing thread: hand the baton to main, which unwinds all
            self.cur = self.threads[0]
            self.threads[0].go.release()
            return
        self.switches += 1
        self.cur = nxt
        nxt.go.release()

    # -- scheduling -----------------------------------------------------------
    def _arm(self, t: SimThread) -> None:
        t.want = self.policy.next_step(t.tid, t.lstep)
        t.nxt = min(t.want, t.lstep + CHUNK)

    def _runnable(self) -> list[SimThread]:
        return [t for t in self.threads if t.state is RUNNABLE]

    def slow_step(self, t: SimThread) -> None:
        """t.lstep reached t.nxt."""
        if self.aborting:
            t.nxt = BIG
            return
        if t.lstep >= t.want:
            others = [x.tid for x in self.threads if x.state is RUNNABLE and x is not t]
            target = self.policy.preempt(t.tid, t.lstep, others)
            at = t.lstep
            self._arm(t)
            if target is not None:
                self.trace.append([t.tid, at, "p", target])
                if target == GC:
                    self.faults["gc"] += 1
                    gc.collect()
                else:
                    self._switch(t, self.threads[target])
        else:
            self._arm(t)
        if sum(x.lstep for x in self.threads) > self.max_steps:
            self._abort("livelock", f"no end after {self.max_steps} steps")

    def point(self) -> None:
        """Explicit preemption point."""
        if self.aborting:
            return
        t = self.cur
        t.lstep += 1
        if t.lstep >= t.nxt:
            self.slow_step(t)
            return
        others = [x.tid for x in self.threads if x.state is RUNNABLE and x is not t]
        if others:
            target = self.policy.at_point(t.tid, t.lstep, others)
            if target is not None:
                self.trace.append([t.tid, t.lstep, "p", target])
                self._switch(t, self.threads[target])

    def _switch(self, me: SimThread, to: SimThread) -> None:
        if to is me:
            return
        self.switches += 1
        self.cur = to
        to.go.release()
        me.go.acquire()
        if self.aborting:
            raise SimAbort

    def _pick(self, me: SimThread) -> SimThread:
        """Choose who runs next now that `me` cannot. Advances the clock when nobody can."""
        while True:
            run = self._runnable()
            if run:
                if len(run) == 1:
                    return run[0]
                target = self.policy.choose(me.tid, me.lstep, [t.tid for t in run])
                self.trace.append([me.tid, me.lstep, "b", target])
                return self.threads[target]
            timed = [t for t in self.threads if t.state is BLOCKED and t.deadline is not None]
            if timed:
                t = min(timed, key=lambda x: (x.deadline, x.tid))
                if t.deadline > self.now:  # type: ignore
                    self.now = t.deadline  # type: ignore
                t.timed_out = True
                t.state = RUNNABLE
                t.deadline = None
                continue
            if self.idle:
                self.idle.popleft()()
                continue
            if all(t.state is DONE for t in self.threads):
                raise HarnessError("all threads done")
            what = ", ".join(f"T{t.tid}:{t.what}" for t in self.threads if t.state is BLOCKED)
            self._set_abort("deadlock", f"no thread can run and no timer is pending ({what})")
            raise SimAbort

    def _set_abort(self, kind: str, msg: str) -> None:
        if not self.aborting:
            self.aborting = True
            self.abort_kind = kind
            self.abort_msg = msg

    def _abort(self, kind: str, msg: str) -> None:
        """Give up the run from the current thread."""
        self._set_abort(kind, msg)
        me = self.cur
        if me is not self.threads[0]:
            # let main unwind first; it resumes us afterwards so that we can unwind too
            self.cur = self.threads[0]
            self.threads[0].go.release()
            me.go.acquire()
        raise SimAbort

    def block(self, what: str, deadline: float | None = None) -> bool:
        """Block the current thread until woken (True) or the deadline passes (False)."""
        if self.aborting:
            raise SimAbort
        me = self.cur
        me.lstep += 1
        me.state = BLOCKED
        me.what = what
        me.deadline = deadline
        me.timed_out = False
        try:
            to = self._pick(me)
        except SimAbort:
            if me is not self.threads[0]:
                self.cur = self.threads[0]
                self.threads[0].go.release()
                me.go.acquire()
            raise
        if to is not me:
            self._switch(me, to)
        if self.aborting:
            raise SimAbort
        return not me.timed_out

    def _wake(self, t: SimThread) -> None:
        if t.state is BLOCKED:
            t.state = RUNNABLE
            t.deadline = None
            t.timed_out = False

    def sleep(self, d: float) -> None:
        self.block("sleep", self.now + max(0.0, d))

    def join(self, t: SimThread) -> None:
        while t.state is not DONE:
            t.joiners.append(self.cur)
            self.block(f"join T{t.tid}")

    def join_all(self) -> None:
        i = 1
        while i < len(self.threads):
            self.join(self.threads[i])
            i += 1
        for t in self.threads[1:]:
            if t.exc is not None:
                raise t.exc

    # -- waiting primitives for the harness ------------------------------------
    def event(self) -> "Flag":
        return Flag(self)


class Flag:
    """A one-shot event for harness code."""

    def __init__(self, sim: Sim) -> None:
        self.sim = sim
        self.on = False
        self.waiters: list[SimThread] = []

    def set(self) -> None:
        self.on = True
        for w in self.waiters:
            self.sim._wake(w)
        self.waiters.clear()

    def wait(self, timeout: float | None = None) -> bool:
        s = self.sim
        dl = None if timeout is None else s.now + timeout
        while not self.on:
            self.waiters.append(s.cur)
            if not s.block("flag", dl):
                return self.on
        return True


# -- bytecode instrumentation ---------------------------------------------------------

TOOL = 4


def on_instr(code: Any, offset: int) -> None:
    s = ACTIVE
    if s is not None:
        t = s.cur
        t.lstep = n = t.lstep + 1
        if n >= t.nxt:
            s.slow_step(t)


_instrumented: set = set()


def instrument(prefix: str) -> int:
    """Switch INSTRUCTION events on for every code object below prefix."""
    import types

    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "detsim")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, on_instr)
    seen: set = set()

    def walk(code: types.CodeType) -> None:
        if code in _instrumented or id(code) in seen:
            return
        seen.add(id(code))
        if code.co_filename.startswith(prefix):
            mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    def consider(f: Any) -> None:
        if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(prefix):
            walk(f.__code__)

    for o in gc.get_objects():
        consider(o)
    for m in list(sys.modules.values()):
        fn = getattr(m, "__file__", None)
        if isinstance(fn, str) and fn.startswith(prefix):
            for v in list(vars(m).values()):
                consider(v)
                if isinstance(v, type):
                    for w in list(vars(v).values()):
                        consider(getattr(w, "__func__", w))
                        consider(getattr(w, "fget", None))
    return len(seen)
