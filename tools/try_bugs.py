"""Try planted bugs: try_bugs.py [--no-tests] [ID...]

For each /verif/seeded/<id>: in a scratch copy of /repo under /tmp, check that the demo passes unpatched and fails patched, that the
tests pass with the patch, and run the check of its property (VERIF_REPO points the check at the copy).  Not used by any check.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(V, "tools"))
from mutate import PY, run_tests  # noqa: E402


def main() -> None:
    tests = "--no-tests" not in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        s = f"{V}/seeded/{i}"
        meta = json.load(open(s + "/meta.json"))
        d = f"/tmp/try_{i}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        demo = f"/tmp/try_{i}_demo"
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(s, demo)
        a = subprocess.run(["bash", demo + "/demo.sh"], cwd=d, capture_output=True, text=True)
        subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"], check=True)
        b = subprocess.run(["bash", demo + "/demo.sh"], cwd=d, capture_output=True, text=True)
        t = run_tests(d) if tests else None
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev", VERIF_SEED="1")
        c = subprocess.run([PY, V + "/check.py", meta["property"]], env=env, capture_output=True, text=True)
        line = [x for x in c.stdout.splitlines() if " failed: " in x]
        ok = a.returncode == 0 and b.returncode not in (0,) and t is not False
        print(f"{i:32} {meta['property']} demo {a.returncode}/{b.returncode} tests {t} check {c.returncode} {'CAUGHT' if c.returncode == 1 else 'MISSED'}{'' if ok else '  *** INVALID'} {(line or [''])[0][:110]}", flush=True)
        if a.returncode:
            print(a.stdout[-500:], a.stderr[-1500:])
        if c.returncode not in (0, 1):
            print(c.stdout[-500:], c.stderr[-1500:])
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


main()
