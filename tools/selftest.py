"""Determinism self-test: the same seeds give the same event logs in fresh interpreters,
under other hash seeds and at other worker counts."""
import os
import subprocess
import sys

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))


def digests(pid: str, n: int, seed: int, hashseed: str) -> str:
    env = {k: v for k, v in os.environ.items() if k != "DETSIM"}
    env["DETSIM_HASHSEED"] = hashseed
    p = subprocess.run([sys.executable, os.path.join(V, "check.py"), "digests", pid, str(n), "--seed", str(seed), "--tier", "quick"],
                       env=env, capture_output=True, text=True)
    if p.returncode:
        print(p.stdout, p.stderr)
        sys.exit(2)
    return p.stdout


def main() -> int:
    quick = "--quick" in sys.argv
    only = [a.upper() for a in sys.argv[1:] if not a.startswith("-")]
    pids = only or sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "props")) if f.startswith("c") and f[1:3].isdigit())
    n = 120 if quick else 2000
    bad = 0
    from concurrent.futures import ThreadPoolExecutor

    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for pid in pids:
            for seed in ([1] if quick else [1, 2, 3]):
                variants = ["0", "4242"] if quick else ["0", "0", "1", "4242", "99"]
                jobs.append((pid, seed, [ex.submit(digests, pid, n, seed, h) for h in variants]))
        for pid, seed, fs in jobs:
            outs = [f.result() for f in fs]
            ok = all(o == outs[0] for o in outs)
            if not ok:
                bad += 1
                for k, (a, b) in enumerate(zip(outs[0].splitlines(), outs[-1].splitlines())):
                    if a != b:
                        print(f"{pid} seed {seed}: first difference at run {k}")
                        break
            print(f"{pid} seed {seed}: {len(outs)} x {outs[0].count(chr(10))} runs {'identical' if ok else 'DIFFER'}", flush=True)
    # --report: tell, do not fail (code under test may itself depend on object addresses)
    return 1 if bad and "--report" not in sys.argv else 0


if __name__ == "__main__":
    sys.exit(main())
