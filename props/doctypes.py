"""Document type descriptors for C22 and the generation of values for them; nothing here needs the library."""

from __future__ import annotations

from random import Random
from typing import Any

from sim.core import size

MODELS = ("'in'", "out", "tree", "loose")
FEW = ("int", "str", "flt", "any", "enum")
FIELDS: dict[str, dict[str, Any]] = {
    "in": {"n": "int", "o": ["opt", "int"], "r": ["res", "int", "str"]},
    "tree": {"v": "int", "kids": ["blk", "tree"], "p": ["opt", "tree"]},
    "loose": {"o": ["opt"], "r": ["res"], "b": ["blk"], "x": ["opt", "any"], "y": ["res", "any", "any"], "z": ["blk", "any"]},
    "out": {"a": ["opt", "in"], "b": ["res", "in", "str"], "c": ["blk", "in"], "d": ["opt", ["blk", "int"]], "e": ["blk", ["opt", "int"]], "f": ["res", ["opt", "int"], ["blk", "str"]]},
}
TYPES: list[Any] = [
    ["opt", "int"], ["opt", "str"], ["res", "int", "str"], ["res", "str", "str"], ["res", "str", "int"], ["blk", "int"], ["blk", "str"], ["opt", "in"], ["res", "in", "in"], ["blk", "in"], "in", "out", "out",
    ["opt", ["res", "int", "str"]], ["res", ["opt", "int"], ["opt", "str"]], ["blk", ["res", "int", "in"]], ["opt", ["blk", ["opt", "str"]]], ["res", ["res", "int", "str"], "str"], ["opt", ["lst", "int"]],
    ["res", ["lst", "int"], "str"], ["blk", ["blk", "int"]], ["dct", ["opt", "int"]], ["lst", ["res", "int", "str"]], ["opt", "flt"], ["blk", "flt"], ["opt", "bool"], ["res", "bool", "bool"],
    ["opt"], ["res"], ["blk"], ["opt", "any"], ["res", "any", "any"], ["blk", "any"], ["res", "int", "any"], "tree", "tree", "loose", ["opt", "tree"], ["res", "tree", "loose"],
    ["tup", ["opt", "int"], ["res", "int", "str"]], ["opt", ["tup", "int", "str"]], ["blk", ["tup", "str", ["opt", "int"]]], ["res", ["dct", ["blk", "int"]], ["lst", ["opt", "str"]]],
    ["opt", ["lst", ["opt", "int"]]], ["blk", ["dct", ["res", "int", ["opt", "int"]]]], ["opt", ["lst", ["blk", "int"]]], ["res", ["tup", ["opt", "int"], ["blk", "str"]], ["lst", "in"]], ["dct", ["opt", ["lst", "in"]]],
    ["opt", "pos"], ["res", "pos", "pos"], ["blk", "pos"], ["opt", "dt"], ["res", "dt", "enum"], ["blk", "enum"], ["blk", ["opt", "dt"]],
]


def args(td: list) -> list:
    """The type's arguments; a bare type takes anything."""
    return td[1:] or ["any"] * (2 if td[0] == "res" else 1)


def gen(td: Any, rng: Random, depth: int = 0) -> Any:
    """A value of the type, as JSON."""
    if td == "int":
        return rng.choice([0, 0, 1, -1, 7, 12, 123456789, 2**70, -(2**63)])
    if td == "pos":
        return rng.choice([1, 7, 123456789])
    if td == "str":
        return rng.choice(["", "a", "null", "ok", "error", "12", "\"", "\\", "\u00e9\u2603", "{\"tag\":\"ok\",\"ok\":1}", "x" * 20])
    if td == "flt":
        return rng.choice([0.0, 0.5, -1.25, 1024.5])
    if td == "bool":
        return rng.random() < 0.5
    if td == "dt":
        return rng.choice(["2024-02-29T23:59:59", "1970-01-01T00:00:00", "2100-12-31T12:00:00.000001"])
    if td == "enum":
        return rng.choice(["a", "ok"])
    if td == "any":
        return rng.choice([0, 1, -1, 7, "", "a", "null", "ok", True, False, 1.5, [], [1], ["error"], {}, {"a": 1}, {"tag": "ok", "ok": 1}, [[None]]])
    if td == "tree" and depth > 2:
        return [0, [], ["none"]]
    if td == "tree" and depth == 0 and rng.random() < 0.02:
        deep: Any = [0, [], ["none"]]
        for i in range(rng.choice([10, 20, 40])):
            deep = [i, [], ["some", deep]] if rng.random() < 0.7 else [i, [deep], ["none"]]
        return deep
    if isinstance(td, str):
        return [gen(t, rng, depth + (td == "tree")) for t in FIELDS[td].values()]
    k, ts = td[0], args(td)
    if k == "opt":
        return ["none"] if rng.random() < 0.35 else ["some", gen(ts[0], rng, depth + 1)]
    if k == "res":
        i = rng.randrange(2)
        return [["ok", "error"][i], gen(ts[i], rng, depth + 1)]
    if k == "tup":
        return [gen(t, rng, depth + 1) for t in ts]
    if k == "dct":
        return {x: gen(ts[0], rng, depth + 1) for x in rng.sample(["a", "b", "tag", "ok", ""], rng.randrange(4))}
    return [gen(ts[0], rng, depth + 1) for _ in range(size(rng, [0, 1, 2, 3, 5, 8], 0.003, (40, 120, 300)) if depth < 2 and (td[-1] in FEW or rng.random() < 0.3 and not any(m in repr(td) for m in MODELS)) else rng.choice([0, 1, 2, 3, 5, 8] if depth < 2 else [0, 1, 2, 3]))]
