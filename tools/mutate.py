"""Mutation sweep: which small changes of /repo survive its tests, and which of those do the checks see?

mutate.py tests OUT.jsonl [FILE...]     generate mutants, keep those that pass the test suite
mutate.py checks IN.jsonl OUT.jsonl     run the mapped checks on the surviving mutants

Works on scratch copies under /tmp/mut (removed at the end); never touches /repo.  Not used by any check.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
PY = "/opt/venv/bin/python"
MAP = {
    "expression/core/mailbox.py": ["C01", "C02", "C03"],
    "expression/core/aiotools.py": ["C08", "C09", "C07", "C03", "C01"],
    "expression/system/cancellation.py": ["C04", "C08", "C03"],
    "expression/system/disposable.py": ["C05", "C06", "C04"],
    "expression/collections/asyncseq.py": ["C10"],
    "expression/core/async_builder.py": ["C11"],
    "expression/effect/async_option.py": ["C11"],
    "expression/effect/async_result.py": ["C11"],
    "expression/core/builder.py": ["C12"],
    "expression/effect/option.py": ["C12"],
    "expression/effect/result.py": ["C12"],
    "expression/effect/seq.py": ["C12"],
    "expression/core/fn.py": ["C13"],
    "expression/collections/map.py": ["C14"],
    "expression/collections/maptree.py": ["C14"],
    "expression/collections/block.py": ["C15"],
    "expression/collections/seq.py": ["C16"],
    "expression/extra/parser.py": ["C17"],
    "expression/extra/result/catch.py": ["C18"],
    "expression/extra/result/pipeline.py": ["C18"],
    "expression/extra/result/traversable.py": ["C18"],
    "expression/extra/option/pipeline.py": ["C18"],
    "expression/core/option.py": ["C19", "C22", "C12", "C11", "C18"],
    "expression/core/result.py": ["C19", "C22", "C12", "C11", "C18"],
    "expression/core/try_.py": ["C19", "C21", "C22"],
    "expression/core/tagged_union.py": ["C21", "C22"],
    "expression/core/pipe.py": ["C20"],
    "expression/core/compose.py": ["C20"],
    "expression/core/curry.py": ["C20"],
    "expression/core/misc.py": ["C20"],
    "expression/core/typing.py": ["C20"],
    "expression/collections/array.py": ["C23"],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}


def is_doc(n: ast.stmt) -> bool:
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)


def overload(n: ast.AST) -> bool:
    return isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and any("overload" in ast.unparse(d) or "abstract" in ast.unparse(d) for d in n.decorator_list)


def candidates(tree: ast.Module):
    """Yields (description, apply) where apply mutates a fresh copy found by node number."""
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if overload(n):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__repr__", "__str__"):
                skip.update(id(x) for x in ast.walk(n))
            for x in [n.returns, *[a.annotation for a in n.args.args]]:
                if x is not None:
                    skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(y) for y in ast.walk(n.annotation))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            skip.update(id(y) for y in ast.walk(n))
    infn = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(n) not in skip:
            for s in n.body:
                infn.update(id(x) for x in ast.walk(s))
    for i, n in enumerate(nodes):
        if id(n) in skip or id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield i, "cmp"
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, "bin"
        if isinstance(n, ast.BoolOp):
            yield i, "boolop"
            yield i, "dropfirst"
            yield i, "droplast"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, "not"
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield i, "true"
            yield i, "false"
        if isinstance(n, ast.Constant) and type(n.value) in (int, bool):
            yield i, "const"
        if isinstance(n, ast.With):
            yield i, "nowith"
        if isinstance(n, ast.Try):
            yield i, "notry"
        if isinstance(n, (ast.Break, ast.Continue)):
            yield i, "brk"
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield i, "retnone"
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not isinstance(n.func, ast.Name) or isinstance(n, ast.Call) and len(n.args) == 2 and isinstance(n.func, ast.Name) and n.func.id not in ("cast", "isinstance"):
            yield i, "swap"
        if isinstance(n, ast.Await):
            yield i, "noawait"
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.If, ast.Nonlocal)) and not is_doc(s) and not isinstance(s, ast.Nonlocal):
                        yield i, f"del:{f}:{k}"
                    if k + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[k + 1], (ast.Expr, ast.Assign, ast.AugAssign)) and not is_doc(s):
                        yield i, f"swp:{f}:{k}"
        if isinstance(n, ast.ExceptHandler):
            yield i, "widen"


def mutate(src: str, i: int, op: str) -> str | None:
    tree = ast.parse(src)
    n = list(ast.walk(tree))[i]
    parent = {}
    for p in ast.walk(tree):
        for name, v in ast.iter_fields(p):
            if isinstance(v, list):
                for k, x in enumerate(v):
                    parent[id(x)] = (p, name, k)
            else:
                parent[id(v)] = (p, name, None)

    def put(new):
        p, name, k = parent[id(n)]
        if k is None:
            setattr(p, name, new)
        elif isinstance(new, list):
            getattr(p, name)[k:k + 1] = new
        else:
            getattr(p, name)[k] = new

    if op == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif op == "bin":
        n.op = BIN[type(n.op)]()
    elif op == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op == "dropfirst":
        n.values = n.values[1:]
        if len(n.values) == 1:
            put(n.values[0])
    elif op == "droplast":
        n.values = n.values[:-1]
        if len(n.values) == 1:
            put(n.values[0])
    elif op == "not":
        put(n.operand)
    elif op in ("true", "false"):
        if isinstance(n, ast.While) and op == "true" and isinstance(n.test, ast.Constant):
            return None
        n.test = ast.Constant(op == "true")
    elif op == "const":
        n.value = (not n.value) if type(n.value) is bool else n.value + 1
    elif op == "nowith":
        put(n.body)
    elif op == "notry":
        put(n.body + n.orelse + n.finalbody)
    elif op == "brk":
        put(ast.Pass())
    elif op == "retnone":
        n.value = None
    elif op == "swap":
        n.args = n.args[::-1]
    elif op == "noawait":
        put(n.value)
    elif op.startswith("del:"):
        _, f, k = op.split(":")
        b = getattr(n, f)
        b[int(k):int(k) + 1] = [] if len(b) > 1 else [ast.Pass()]
    elif op.startswith("swp:"):
        _, f, k = op.split(":")
        b = getattr(n, f)
        k = int(k)
        b[k], b[k + 1] = b[k + 1], b[k]
    elif op == "widen":
        if n.type is None or ast.unparse(n.type) == "BaseException":
            return None
        n.type = ast.Name("BaseException")
    try:
        out = ast.unparse(ast.fix_missing_locations(tree))
        compile(out, "x", "exec")
    except SyntaxError:
        return None
    return out


def copies(n: int) -> Queue:
    base = os.environ.get("MUT_DIR", "/tmp/mut")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    q: Queue = Queue()
    for k in range(n):
        d = f"{base}/w{k}"
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        q.put(d)
    return q


def run_tests(d: str) -> bool:
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d, HYPOTHESIS_STORAGE_DIRECTORY=d + "/.hyp")
    try:
        p = subprocess.run(["timeout", "-k", "5", "120", PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "--timeout=60"],
                           cwd=d, env=env, capture_output=True, text=True, timeout=140)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def diff(a: str, b: str) -> list[str]:
    import difflib

    return [x for x in difflib.unified_diff(a.splitlines(), b.splitlines(), n=2, lineterm="")][2:]


def phase_tests(out: str, files: list[str]) -> None:
    W = int(os.environ.get("MUT_PAR", "8"))
    q = copies(W)
    lock = threading.Lock()
    jobs = []
    for f in files or [m for m in MAP if os.path.exists("/repo/" + m)]:
        src = open("/repo/" + f).read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for i, op in candidates(ast.parse(src)):
            m = mutate(src, i, op)
            if m is not None and m not in seen:
                seen.add(m)
                jobs.append((f, i, op, base, m))
    print(len(jobs), "mutants", flush=True)
    done = [0, 0]

    def job(j):
        f, i, op, base, m = j
        d = q.get()
        try:
            with open(f"{d}/{f}", "w") as h:
                h.write(m)
            ok = run_tests(d)
            shutil.copy("/repo/" + f, f"{d}/{f}")
        finally:
            q.put(d)
        with lock:
            done[0] += 1
            if ok:
                done[1] += 1
                with open(out, "a") as h:
                    h.write(json.dumps({"file": f, "i": i, "op": op, "diff": diff(base, m), "src": m}) + "\n")
            if done[0] % 50 == 0:
                print(done, flush=True)

    with ThreadPoolExecutor(W) as ex:
        list(ex.map(job, jobs))
    print(done)
    shutil.rmtree(os.environ.get("MUT_DIR", "/tmp/mut"), ignore_errors=True)


def phase_checks(inp: str, out: str) -> None:
    W = int(os.environ.get("MUT_PAR", "3"))
    q = copies(W)
    lock = threading.Lock()
    jobs = [json.loads(x) for x in open(inp)]
    have = set()
    if os.path.exists(out):
        have = {(r["file"], r["i"], r["op"]) for r in map(json.loads, open(out))}

    def job(r):
        if (r["file"], r["i"], r["op"]) in have:
            return
        d = q.get()
        try:
            with open(f"{d}/{r['file']}", "w") as h:
                h.write(r["src"])
            res = {}
            for pid in MAP[r["file"]]:
                if not os.path.exists(f"{V}/props/{pid.lower()}.py"):
                    continue
                try:
                    p = subprocess.run([PY, f"{V}/check.py", pid], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/.ev", VERIF_SEED="1"), capture_output=True, text=True, timeout=600)
                    line = [x for x in p.stdout.splitlines() if " failed: " in x]
                    res[pid] = [p.returncode, (line[0] if line else "")[:200]]
                except subprocess.TimeoutExpired:
                    res[pid] = ["timeout", ""]
                if res[pid][0] == 1:
                    break
            shutil.copy("/repo/" + r["file"], f"{d}/{r['file']}")
        finally:
            q.put(d)
        r = {k: r[k] for k in ("file", "i", "op", "diff")}
        r["res"] = res
        r["caught"] = any(v[0] == 1 for v in res.values())
        with lock:
            with open(out, "a") as h:
                h.write(json.dumps(r) + "\n")

    with ThreadPoolExecutor(W) as ex:
        list(ex.map(job, jobs))
    shutil.rmtree(os.environ.get("MUT_DIR", "/tmp/mut"), ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "tests":
        phase_tests(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == "checks":
        phase_checks(sys.argv[2], sys.argv[3])
