import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C24": "Static typing: nothing is executed, so there is no schedule, fault or input for a simulator to decide (a type checker would decide it).",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)",
            "level": "exploration",
            "level_note": "Seeded search over schedules and faults against the real code; a clean batch is evidence, not proof. Trusts the simulator's locks, queue, "
                          "clock and selector, CPython's bytecode atomicity, and the oracle in props/" + i.lower() + ".py.",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/selftest.py --quick --report",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: all seams (locks, queues, threads, clock, event loop selector) are installed by sim/patch.py before the package is imported.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
