"""C22: documents with Option, Result and Block, written to a simulated disk, torn, lost and damaged, and read back after a crash."""

from __future__ import annotations

import copy
import json
import pickle
from random import Random
from typing import Any

from sim.core import Violation, gen_sched
from sim.threads import Sim

from .doctypes import TYPES, gen

ID = "C22"
TITLE = "stored documents"
QUICK = 30000
THOROUGH = 2000000
BATCH = 150
RULE = ("Threads serialise random values of 55 document types (models, recursive models, bare and Any types, tuples, nested Option, Result, Block, list, dict) as JSON, plain Python data or pickle into files of a simulated disk; writes are torn, lost, left "
        "with the tail of the previous content, or damaged by a flipped byte, a foreign value, or a dropped, extra or duplicate key; after the crash every file is read back.")
PROBES = ["intact", "torn", "lost-write", "stale-tail", "damaged", "foreign", "rejected", "accepted-damaged", "python-mode", "live-value", "key-dropped", "key-added", "pickled", "nothing", "error-case", "empty-block", "old-content", "preempted-in-op"]

FOREIGN = [None, 0, 1, True, "", "a", "error", "ok", 1.5, [], [None], ["ok"], ["error", 1], {}, {"tag": "ok"}, {"tag": "ok", "error": 1}, {"tag": "error", "ok": 1}, {"ok": 1}, {"error": "x"}, {"tag": "none", "ok": 1},
           {"tag": 1, "ok": 1}, {"some": 1}, {"n": 1}, {"n": "q"}, [[]], [{}], {"tag": "ok", "ok": None}, {"tag": "error", "error": None}, {"tag": "ok", "ok": "zz", "error": 5}]


def generate(rng: Random, tier: str) -> dict:
    def spec(i: Any = None) -> dict:
        t = rng.randrange(len(TYPES)) if i is None else i
        return {"t": t, "v": gen(TYPES[t], rng)}

    nt = rng.choice([1, 1, 2])
    threads = []
    for _ in range(nt):
        ops = []
        t = rng.randrange(len(TYPES))
        for _ in range(rng.choice([1, 2, 4, 6])):
            o = spec(t if rng.random() < 0.5 else None)
            o["file"] = rng.randrange(4)
            o["mode"] = rng.choice(["json", "json", "json", "json", "model", "python", "python", "pickle", "deepcopy", "live"])
            if rng.random() < 0.6:
                o["fault"] = rng.choice([["torn", rng.random()], ["torn", rng.random()], ["lost"], ["stale"], ["stale"], ["flip", rng.random(), rng.choice("0123456789\"{}[],:.ntaoke -")],
                                         ["foreign", rng.randrange(1000), rng.randrange(len(FOREIGN))],
                                         ["drop", rng.randrange(1000)], ["extra", rng.randrange(1000), rng.choice(["tag", "ok", "error", "some", "none", "z"]), rng.randrange(len(FOREIGN))]])
            o["read"] = rng.random() < 0.4
            ops.append(o)
        threads.append(ops)
    return {"threads": threads, "sched": gen_sched(rng, nt + 1, 200)}


def SHRINK(path: tuple) -> bool:
    return path[0] == "threads" and len(path) <= 3


def execute(case: dict) -> None:
    from pydantic import ValidationError

    from .docs import MODEL, Mismatch, adapter, build, desc, plain

    for ops in case["threads"]:
        for o in ops:
            adapter(TYPES[o["t"]])  # building a type is not part of the run
    sim = Sim(case.get("sched"), nthreads=len(case["threads"]) + 1, max_steps=3_000_000)
    log = sim.log
    # file -> {"t": type, "v": value it should hold or None if damaged, "data": content}
    disk: dict[Any, dict] = {}

    def probes(s: Any) -> None:
        t = json.dumps(s)
        if '["none"]' in t:
            sim.probe("nothing")
        if '"error"' in t:
            sim.probe("error-case")
        if "[]" in t:
            sim.probe("empty-block")

    def paths(d: Any, at: tuple = ()) -> Any:
        yield at
        if isinstance(d, dict):
            for k in d:
                yield from paths(d[k], (*at, k))
        elif isinstance(d, list):
            for i in range(len(d)):
                yield from paths(d[i], (*at, i))

    def put(d: Any, at: tuple, v: Any) -> Any:
        if not at:
            return v
        d = copy.copy(d)
        d[at[0]] = put(d[at[0]], at[1:], v)
        return d

    def at(d: Any, path: tuple) -> Any:
        for k in path:
            d = d[k]
        return d

    def parse(t: int, mode: str, data: Any) -> Any:
        td = TYPES[t]
        if mode == "pickle":
            return pickle.loads(data)
        if mode == "deepcopy":
            return data
        a = adapter(td)
        if mode in ("python", "live"):
            return a.validate_python(data)
        if mode == "model" and isinstance(td, str):
            return MODEL[td].model_validate_json(data)
        return a.validate_json(data)

    def read(name: Any, when: str) -> None:
        rec = disk[name]
        t, v, data, mode = rec["t"], rec["v"], rec["data"], rec["mode"]
        td = TYPES[t]
        log("read", name, when, v is not None)
        try:
            got = parse(t, mode, data)
        except ValidationError as ex:
            if v is not None:
                raise Violation("rejected", f"the {td} document {data!r} that was written for {v!r} is rejected: {ex!r}"[:500]) from None
            sim.probe("rejected")
            return
        try:
            d = desc(td, got)
        except Mismatch as ex:
            raise Violation("ill-typed", f"reading {data!r} as {td} ({mode}) gives {got!r}: {ex}"[:500]) from None
        if v is not None:
            sim.probe("intact")
            probes(v)
            if d != v or json.dumps(d) != json.dumps(v):
                raise Violation("round-trip", f"{td}: {v!r} was written as {data!r} and read back ({mode}) as {d!r}"[:500])
            if got != build(td, v):
                raise Violation("round-trip", f"{td}: {v!r} reads back ({mode}) as a value that is not equal to it"[:500])
        else:
            sim.probe("accepted-damaged")
            a = adapter(td)
            again = desc(td, a.validate_json(a.dump_json(got)))
            if again != d and "inf" not in repr(d) and "nan" not in repr(d):
                raise Violation("round-trip", f"{td}: {d!r} was read from damaged {data!r}, written and read back as {again!r}"[:500])

    def write(o: dict) -> None:
        td = TYPES[o["t"]]
        v = build(td, o["v"])
        a = adapter(td)
        mode = o["mode"]
        sw = sim.switches
        name = o["file"]
        old = disk.get(name)
        fault = o.get("fault")
        if mode in ("python", "pickle", "deepcopy", "live"):
            if mode == "pickle":
                sim.probe("pickled")
                data: Any = pickle.dumps(v)
            elif mode == "live":
                sim.probe("live-value")
                data = v
            elif mode == "deepcopy":
                data = v.model_copy(deep=True) if isinstance(td, str) and o["file"] % 2 else copy.deepcopy(v)
            else:
                sim.probe("python-mode")
                data = a.dump_python(v)
                want = plain(td, o["v"])
                if isinstance(td, list) and td[0] in ("opt", "res", "blk") and not any(x in repr(td) for x in ("tup", "dt", "enum")) and json.dumps(data) != json.dumps(want):
                    raise Violation("document", f"{td}: {o['v']!r} is dumped as {data!r} instead of {want!r}"[:500])
            rec = {"t": o["t"], "v": o["v"], "data": data, "mode": mode}
            if mode == "python" and fault and fault[0] in ("foreign", "drop", "extra"):
                rec["data"], rec["v"] = foreign(data, fault), None
            disk[name] = rec
            return
        text: bytes = (v.model_dump_json().encode() if mode == "model" and isinstance(td, str) else a.dump_json(v))
        if sim.switches != sw:
            sim.probe("preempted-in-op")
        want = plain(td, o["v"])
        try:
            doc = json.loads(text)
        except ValueError:
            raise Violation("document", f"{td}: {o['v']!r} is written as {text!r}, which is no JSON"[:500]) from None
        if json.dumps(doc) != json.dumps(want):
            raise Violation("document", f"{td}: {o['v']!r} is written as {text!r}, expected {json.dumps(want)}"[:500])
        rec = {"t": o["t"], "v": o["v"], "data": text, "mode": mode}
        if fault:
            k = fault[0]
            if k == "lost":
                sim.probe("lost-write")
                sim.fault("write lost")
                if old is not None:
                    sim.probe("old-content")
                return
            new = text
            if k == "torn":
                sim.probe("torn")
                sim.fault("write torn")
                new = text[: int(fault[1] * len(text))]
            elif k == "stale":
                if old is not None and isinstance(old["data"], bytes) and old["mode"] in ("json", "model"):
                    sim.probe("stale-tail")
                    sim.fault("tail of the old content left")
                    new = text + old["data"][len(text):]
            elif k == "flip":
                sim.probe("damaged")
                sim.fault("byte damaged")
                i = int(fault[1] * len(text))
                new = text[:i] + fault[2].encode() + text[i + 1:]
            else:
                new = json.dumps(foreign(json.loads(text), fault)).encode()
            if new != text:
                rec["data"], rec["v"] = new, None
        disk[name] = rec

    def foreign(d: Any, fault: list) -> Any:
        ps = list(paths(d))
        if fault[0] != "foreign":
            ps = [p for p in ps if isinstance(at(d, p), (dict, list)) and (fault[0] == "extra" or at(d, p))]
            if not ps:
                return d
            p = ps[fault[1] % len(ps)]
            x = copy.copy(at(d, p))
            if fault[0] == "drop":
                sim.probe("key-dropped")
                sim.fault("part of the document missing")
                ks = list(x) if isinstance(x, dict) else list(range(len(x)))
                del x[ks[fault[1] // 7 % len(ks)]]
            else:
                sim.probe("key-added")
                sim.fault("part added to the document")
                if isinstance(x, dict):
                    x = {**x, fault[2]: FOREIGN[fault[3]]} if fault[1] % 2 else {fault[2]: FOREIGN[fault[3]], **x}
                else:
                    x.insert(fault[1] % (len(x) + 1), FOREIGN[fault[3]])
            return put(d, p, x)
        sim.probe("foreign")
        sim.fault("foreign value in the document")
        return put(d, ps[fault[1] % len(ps)], FOREIGN[fault[2]])

    def thread(ops: list) -> Any:
        def run() -> None:
            for o in ops:
                write(o)
                log("write", o["t"], o["mode"], (o.get("fault") or ["-"])[0])
                if o["read"] and o["file"] in disk:
                    read(o["file"], "now")

        return run

    def main() -> None:
        ts = [sim.spawn(thread(ops)) for ops in case["threads"]]
        for t in ts:
            sim.join(t)
        # the crash: only the files are left
        for name in sorted(disk):
            read(name, "restart")

    sim.run(main)
    sim.nontrivial = True
