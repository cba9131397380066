"""Import the code under test from /repo's working tree, behind the seams."""

from __future__ import annotations

import gc
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
PREFIX = os.path.join(os.path.realpath(REPO), "expression") + os.sep

_done = False


def reexec() -> None:
    """Fix everything that must not vary between interpreters: hash seed, byte code cache."""
    if os.environ.get("DETSIM") == "1":
        return
    env = dict(os.environ)
    env["DETSIM"] = "1"
    env.setdefault("DETSIM_HASHSEED", "0")
    env["PYTHONHASHSEED"] = env["DETSIM_HASHSEED"]
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent/detsim-pycache"  # never read a stale .pyc
    env["PYTHONPATH"] = os.path.realpath(REPO)
    env.pop("PYTHONASYNCIODEBUG", None)
    env.pop("PYTHONDEVMODE", None)
    os.execve(sys.executable, [sys.executable, *sys.orig_argv[1:]], env)


def boot() -> None:
    global _done
    if _done:
        return
    _done = True
    warnings.simplefilter("ignore")
    sys.setswitchinterval(1000)
    import asyncio  # noqa: F401
    import concurrent.futures  # noqa: F401
    import concurrent.futures.thread  # noqa: F401
    import logging

    logging.disable(logging.CRITICAL)
    from . import patch, threads

    patch.install()
    sys.path.insert(0, os.path.realpath(REPO))
    import importlib
    import pkgutil

    import expression

    assert os.path.realpath(expression.__file__).startswith(PREFIX), expression.__file__
    for m in pkgutil.walk_packages(expression.__path__, "expression."):
        importlib.import_module(m.name)
    n = threads.instrument(PREFIX)
    assert n > 100, n
    gc.collect()
    gc.disable()
