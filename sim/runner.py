"""Seeded search: batches of runs in forked children, minimisation, replay files, evidence."""

from __future__ import annotations

import copy
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import resource
import select
import signal
import struct
import subprocess
import sys
import traceback
from collections import Counter
from random import Random
from typing import Any

from . import boot, core
from . import threads as T
from .core import HarnessError, Injected, InjectedBase, Violation, set_faults

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
STALL = 60.0
WORKERS = int(os.environ.get("DETSIM_WORKERS", "0")) or os.cpu_count() or 4


def load(pid: str) -> Any:
    return importlib.import_module("props." + pid.lower())


def case_for(mod: Any, seed: int, i: int, tier: str) -> dict:
    h = hashlib.blake2b(f"{seed}:{mod.ID}:{i}".encode(), digest_size=8).digest()
    rng = Random(int.from_bytes(h, "big"))
    case = mod.generate(rng, tier)
    case["salt"] = rng.randrange(1 << 16)
    return case


def gen_batch(mod: Any, seed: int, tier: str, lo: int, hi: int) -> Any:
    return lambda: [case_for(mod, seed, i, tier) for i in range(lo, hi)]


def execute(mod: Any, case: dict) -> tuple[dict | None, Any]:
    """Run one case. Returns (violation or None, sim)."""
    T.LAST = None
    # through JSON, so that a replay file means exactly the same case
    case = json.loads(json.dumps(case))
    v: dict | None = None
    set_faults(case.get("salt", 0), mod)
    try:
        mod.execute(case)
    except Violation as e:
        v = {"kind": e.kind, "msg": e.msg}
    except HarnessError:
        raise
    except Exception as e:  # noqa: BLE001
        # the sandbox ran out of something; TimeoutError is an OSError too, but comes from the code under test
        if "can't start new thread" in str(e) or (isinstance(e, OSError) and not isinstance(e, (TimeoutError, Injected))) or isinstance(e, MemoryError):
            raise HarnessError(repr(e)) from e
        tb = traceback.format_exc()
        v = {"kind": "unexpected:" + type(e).__name__, "msg": f"{e!r}\n{tb}"}
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, InjectedBase):
            raise
        tb = traceback.format_exc()
        v = {"kind": "unexpected:" + type(e).__name__, "msg": f"{e!r}\n{tb}"}
    T.ACTIVE = None
    return v, T.LAST


def nontrivial(sim: Any) -> bool:
    return sim is not None and bool(sim.nontrivial or sim.faults or sim.switches)


def _child_batch(mod: Any, cases: list, w: int, hb: Any, want_digests: bool) -> None:
    """Runs in the child. Executes cases in order until one fails."""
    out: dict[str, Any] = {
        "n": 0, "nt": 0, "digests": set(), "faults": Counter(), "probes": Counter(), "simtime": 0.0,
        "switches": 0, "steps": 0, "loop_steps": 0, "events": 0, "fail": None, "harness": None, "samples": [], "dlist": [],
    }
    try:
        if callable(cases):
            cases = cases()
        for i, case in enumerate(cases):
            hb[0:8] = struct.pack("q", i + 1)
            v, sim = execute(mod, case)
            out["n"] += 1
            d = b""
            if sim is not None:
                d = sim.digest()
                if nontrivial(sim):
                    out["nt"] += 1
                    out["digests"].add(d)
                out["faults"].update(sim.faults)
                out["probes"].update(sim.probes)
                out["simtime"] += sim.now
                out["switches"] += sim.switches
                out["steps"] += sum(t.lstep for t in sim.threads)
                out["loop_steps"] += sim.loop_steps
                out["events"] += len(sim.history)
                if not out["samples"] and nontrivial(sim) and sim.history:
                    out["samples"].append({"case": case, "history": [repr(h) for h in sim.history[:40]], "switches": sim.switches})
            if want_digests:
                out["dlist"].append(d)
            if v is not None:
                out["fail"] = {"index": i, "violation": v, "trace": sim.trace if sim is not None else [],
                               "history": [repr(h) for h in (sim.history if sim is not None else [])][-200:]}
                break
            sim = None
            T.LAST = None
            if i % 16 == 15:
                gc.collect()
    except HarnessError as e:
        out["harness"] = f"{e}\n{traceback.format_exc()}"
    except BaseException as e:  # noqa: BLE001
        out["harness"] = f"{e!r}\n{traceback.format_exc()}"
    data = pickle.dumps(out)
    view = memoryview(struct.pack("q", len(data)) + data)
    while view:
        view = view[os.write(w, view):]
    os._exit(0)


class Child:
    def __init__(self, mod: Any, cases: list, tag: Any = None, want_digests: bool = False, stall: float = 0.0) -> None:
        self.tag = tag
        self.stall = stall or STALL
        self.hb = mmap.mmap(-1, 8)
        self.buf = b""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                if not os.environ.get("DETSIM_STDERR"):
                    os.dup2(devnull, 2)
                _child_batch(mod, cases, w, self.hb, want_digests)
            finally:
                os._exit(3)
        os.close(w)
        self.r = r
        self.pid = pid
        self.last = -1
        self.last_t = core.real_monotonic()
        self.result: dict | None = None
        self.hung_at: int | None = None
        self.crashed_at: int | None = None

    def progress(self) -> int:
        return struct.unpack("q", self.hb[0:8])[0]

    def on_readable(self) -> bool:
        """Returns True when finished."""
        b = os.read(self.r, 1 << 20)
        if b:
            self.buf += b
            return False
        os.close(self.r)
        os.waitpid(self.pid, 0)
        if len(self.buf) >= 8 and len(self.buf) - 8 == struct.unpack("q", self.buf[:8])[0]:
            self.result = pickle.loads(self.buf[8:])
        else:
            self.crashed_at = self.progress() - 1
        self.hb.close()
        return True

    def check_stall(self) -> bool:
        p = self.progress()
        now = core.real_monotonic()
        if p != self.last:
            self.last, self.last_t = p, now
            return False
        if now - self.last_t < self.stall:
            return False
        os.kill(self.pid, signal.SIGKILL)
        os.close(self.r)
        os.waitpid(self.pid, 0)
        self.hung_at = p - 1
        self.hb.close()
        return True


def run_cases(mod: Any, cases: list, want_digests: bool = False, stall: float = 0.0) -> Child:
    """Run a list of cases in one fresh child and wait."""
    c = Child(mod, cases, want_digests=want_digests, stall=stall)
    while True:
        rl, _, _ = select.select([c.r], [], [], 1.0)
        if rl and c.on_readable():
            return c
        if not rl and c.check_stall():
            return c


def outcome(c: Child) -> dict | None:
    """The violation a child ended with, as {kind,msg,index}."""
    if c.hung_at is not None:
        return {"kind": "hang", "msg": f"no progress for {c.stall:.0f}s of real time", "index": c.hung_at, "trace": [], "history": []}
    if c.crashed_at is not None:
        return {"kind": "crash", "msg": "the process died", "index": c.crashed_at, "trace": [], "history": []}
    r = c.result
    assert r is not None
    if r["harness"]:
        raise HarnessError(r["harness"])
    if r["fail"]:
        f = r["fail"]
        return {**f["violation"], "index": f["index"], "trace": f["trace"], "history": f["history"]}
    return None


# -- minimisation ---------------------------------------------------------------------


def _paths(x: Any, path: tuple = ()) -> list[tuple]:
    """All list-valued paths below x, outermost first."""
    out: list[tuple] = []
    if isinstance(x, list):
        out.append(path)
        for i, y in enumerate(x):
            if isinstance(y, (list, dict)):
                out += _paths(y, (*path, i))
    elif isinstance(x, dict):
        for k, y in x.items():
            if isinstance(y, (list, dict)):
                out += _paths(y, (*path, k))
    return out


def _get(x: Any, path: tuple) -> Any:
    for p in path:
        x = x[p]
    return x


def minimise(mod: Any, cases: list, viol: dict, max_tries: int = 500, wall: float = 60.0) -> tuple[list, dict]:
    t_end = core.real_monotonic() + wall
    tries = 0
    kind = viol["kind"]
    if kind in ("hang", "crash"):
        max_tries = 0 if kind == "hang" else 40

    def attempt(cand: list) -> dict | None:
        nonlocal tries
        if tries >= max_tries or core.real_monotonic() > t_end:
            return None
        tries += 1
        try:
            v = outcome(run_cases(mod, cand))
        except HarnessError:
            return None
        if v is not None and v["kind"] == kind and v["index"] == len(cand) - 1:
            return v
        return None

    # drop earlier cases
    i = len(cases) - 2
    if len(cases) > 1:
        n = max(1, (len(cases) - 1) // 2)
        while n >= 1:
            i = 0
            while i < len(cases) - 1:
                cand = cases[:i] + cases[min(i + n, len(cases) - 1):]
                v = attempt(cand)
                if v is not None:
                    cases, viol = cand, v
                else:
                    i += n
            n //= 2
    # explicit schedule
    case = cases[-1]
    if isinstance(case.get("sched"), dict) and case["sched"].get("mode") != "list":
        cand = copy.deepcopy(case)
        cand["sched"] = {"mode": "list", "pre": viol["trace"]}
        v = attempt([*cases[:-1], cand])
        if v is not None:
            cases, viol = [*cases[:-1], cand], v
    shrinkable = getattr(mod, "SHRINK", None)
    changed = True
    while changed and tries < max_tries and core.real_monotonic() < t_end:
        changed = False
        case = cases[-1]
        for path in _paths(case):
            if not path:
                continue
            is_sched = path[0] == "sched"
            if is_sched and path != ("sched", "pre"):
                continue
            if not is_sched and shrinkable is not None and not shrinkable(path):
                continue
            try:
                lst = _get(cases[-1], path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = len(lst)
            while n >= 1:
                i = 0
                while True:
                    cur = _get(cases[-1], path)
                    if i >= len(cur):
                        break
                    cand = copy.deepcopy(cases[-1])
                    cl = _get(cand, path)
                    del cl[i:i + n]
                    v = attempt([*cases[:-1], cand])
                    if v is not None:
                        cases, viol = [*cases[:-1], cand], v
                        changed = True
                    else:
                        i += n
                n //= 2
    viol["tries"] = tries
    return cases, viol


# -- the check ------------------------------------------------------------------------


def write_replay(mod: Any, cases: list, viol: dict, seed: int, run_index: int, name: str | None = None) -> str:
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name or f"{mod.ID}-seed{seed}-run{run_index}.json")
    doc = {
        "property": mod.ID, "seed": seed, "run": run_index, "kind": viol["kind"], "message": viol["msg"],
        "cases": cases, "history": viol.get("history", []), "schedule": viol.get("trace", []),
        "replay_cmd": f"cd /verif && /opt/venv/bin/python check.py replay {path}",
    }
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def replay(path: str) -> int:
    with open(path) as f:
        doc = json.load(f)
    mod = load(doc["property"])
    c = run_cases(mod, doc["cases"], stall=3 * STALL if doc["kind"] == "hang" else STALL)
    v = outcome(c)
    if v is None:
        print(f"replay of {path}: no violation")
        return 0
    print(f"{v['kind']}: {v['msg']}")
    for h in v["history"][-60:]:
        print("   ", h)
    same = v["kind"] == doc["kind"] and v["index"] == len(doc["cases"]) - 1 and v["history"] == doc["history"]
    print("replay identical to the recorded violation" if same else "replay DIFFERS from the recorded violation")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def known_lines(pid: str) -> list[str]:
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith(f"finding: property={pid} "):
                    out.append(line.strip()[len("finding: "):])
    except FileNotFoundError:
        pass
    return out


def check(pid: str, tier: str, seed: int, runs: int | None = None, wall: float | None = None) -> int:
    t0 = core.real_monotonic()
    mod = load(pid)
    total = runs if runs is not None else (mod.QUICK if tier == "quick" else mod.THOROUGH)
    cap = wall if wall is not None else (240.0 if tier == "quick" else 3 * 3600.0)
    bsz = getattr(mod, "BATCH", 40)
    for k in known_lines(pid):
        print(f"KNOWN-FINDING: {k}")
    print(f"[{pid}] {mod.TITLE}: tier={tier} seed={seed} runs={total} workers={WORKERS}", flush=True)
    gc.collect()
    gc.freeze()
    agg: dict[str, Any] = {"n": 0, "nt": 0, "digests": set(), "faults": Counter(), "probes": Counter(), "simtime": 0.0,
                           "switches": 0, "steps": 0, "loop_steps": 0, "events": 0, "samples": [], "slow": 0}
    nb = (total + bsz - 1) // bsz
    nextb = 0
    live: dict[int, Child] = {}
    failed: tuple[int, dict] | None = None
    harness: str | None = None
    while True:
        while (len(live) < WORKERS and nextb < nb and failed is None and harness is None
               and core.real_monotonic() - t0 < cap):
            c = Child(mod, gen_batch(mod, seed, tier, nextb * bsz, min(total, (nextb + 1) * bsz)), tag=nextb)
            live[c.r] = c
            nextb += 1
        if not live:
            break
        rl, _, _ = select.select(list(live), [], [], 1.0)
        fin = []
        for r in rl:
            if live[r].on_readable():
                fin.append(r)
        for r in list(live):
            if r not in rl and live[r].check_stall():
                fin.append(r)
        for r in fin:
            c = live.pop(r)
            try:
                v = outcome(c)
            except HarnessError as e:
                harness = str(e)
                continue
            res = c.result
            if res is not None:
                agg["n"] += res["n"]
                agg["nt"] += res["nt"]
                agg["digests"] |= res["digests"]
                agg["faults"].update(res["faults"])
                agg["probes"].update(res["probes"])
                for k in ("simtime", "switches", "steps", "loop_steps", "events"):
                    agg[k] += res[k]
                if len(agg["samples"]) < 3:
                    agg["samples"] += res["samples"]
            if v is not None and v["kind"] == "hang" and c.stall == STALL and (failed is None or c.tag < failed[0]):
                # perhaps only slow, or the machine is: once more, with time to spare
                agg["slow"] += 1
                c = Child(mod, gen_batch(mod, seed, tier, c.tag * bsz, min(total, (c.tag + 1) * bsz)), tag=c.tag, stall=3 * STALL)
                live[c.r] = c
                continue
            if v is not None and (failed is None or c.tag < failed[0]):
                failed = (c.tag, v)
        if failed is not None:
            for r in list(live):  # later batches cannot matter any more
                if live[r].tag > failed[0]:
                    c = live.pop(r)
                    os.kill(c.pid, signal.SIGKILL)
                    os.close(c.r)
                    os.waitpid(c.pid, 0)
    wall_search = core.real_monotonic() - t0
    rc = 0
    vpath = None
    if failed is not None:
        b, v = failed
        run_index = b * bsz + v["index"]
        print(f"[{pid}] run {run_index} failed: {v['kind']}: {v['msg'][:1500]}", flush=True)
        prefix = [case_for(mod, seed, i, tier) for i in range(b * bsz, run_index + 1)]
        try:
            stall = 3 * STALL if v["kind"] == "hang" else STALL
            # a violation may hang on addresses or the like, so it gets a few chances to show again
            for cand in [prefix[-1:], prefix] * (1 if v["kind"] == "hang" else 4):
                again = outcome(run_cases(mod, cand, stall=stall))
                if again is not None and again["index"] == len(cand) - 1:
                    cases, viol = cand, again
                    break
            else:
                raise HarnessError(f"run {run_index} failed once ({v['kind']}) but does not reproduce")
            cases, viol = minimise(mod, cases, viol)
            vpath = write_replay(mod, cases, viol, seed, run_index)
            env = {k: x for k, x in os.environ.items() if k != "DETSIM"}
            for _ in range(1 if viol["kind"] == "hang" else 4):
                p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "replay", vpath], env=env,
                                   capture_output=True, text=True, timeout=600)
                if p.returncode == 1 and ("identical" in p.stdout or viol["kind"] in ("hang", "crash")):
                    break
            else:
                if p.returncode != 1:
                    raise HarnessError(f"replay of {vpath} in a fresh process did not reproduce: rc={p.returncode}\n{p.stderr}")
            print(p.stdout[-6000:])
            rc = 1
        except HarnessError as e:
            harness = str(e)
    if harness is not None and rc != 1:
        print(f"[{pid}] HARNESS ERROR: {harness}")
        rc = 2
    wall_s = core.real_monotonic() - t0
    per_h = agg["n"] / wall_search * 3600 if wall_search > 0 else 0
    zero = [p for p in getattr(mod, "PROBES", []) if not agg["probes"].get(p)]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["digests"]),
            "rule": mod.RULE + " A run is non-trivial if a fault fired, threads were switched or tasks interleaved; "
                    "distinct by hash of its event history and context switches.",
            "samples": agg["samples"][:3],
            "runs_requested": total,
            "runs_per_hour": int(per_h),
            "seeds_per_hour": int(per_h),
            "nontrivial_runs": agg["nt"],
            "simulated_seconds": round(agg["simtime"], 3),
            "context_switches": agg["switches"],
            "bytecode_steps": agg["steps"],
            "loop_iterations": agg["loop_steps"],
            "history_events": agg["events"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "stalled_batches_rerun": agg["slow"],
            "probes": dict(sorted(agg["probes"].items())),
            "probes_at_zero": zero,
            "real_components": getattr(mod, "REAL", "expression package of /repo's working tree, asyncio tasks/futures/timers, generators, garbage collector"),
            "stub_components": "selector, clock, thread scheduler, threading locks, queue.SimpleQueue (simulated)",
        },
        "assumptions": ["one bytecode instruction of expression code is atomic; stdlib and C code is atomic between simulator seams",
                        "asyncio's documented semantics (FIFO ready queue, timers, thread-safety of call_soon_threadsafe only)"],
        "wall_s": round(wall_s, 3),
        "violations": 1 if rc == 1 else 0,
    }
    if vpath:
        ev["coverage"]["replay"] = vpath
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    print(f"[{pid}] runs={agg['n']} distinct={len(agg['digests'])} switches={agg['switches']} simtime={agg['simtime']:.1f}s "
          f"faults={dict(agg['faults'])} probes={dict(agg['probes'])} wall={wall_s:.1f}s")
    if zero and rc == 0:
        print(f"[{pid}] note: probes at zero: {zero}")
    if rc == 1:
        print(f"VIOLATION property={pid} replay={vpath}")
    return rc


def digests(pid: str, tier: str, seed: int, n: int) -> int:
    """Print one digest per run (for the determinism self-test)."""
    mod = load(pid)
    gc.collect()
    gc.freeze()
    bsz = getattr(mod, "BATCH", 40)
    for b in range(0, n, bsz):
        c = run_cases(mod, gen_batch(mod, seed, tier, b, min(n, b + bsz)), want_digests=True)
        v = outcome(c)
        for d in c.result["dlist"]:  # type: ignore
            print(d.hex())
        if v:
            print("violation", v["kind"])
    return 0
