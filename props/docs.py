"""Document types for C22: descriptors, their pydantic types, values and the reading back of values. Import only with expression importable."""

from __future__ import annotations

import enum
from datetime import datetime
from typing import Annotated, Any

from pydantic import BaseModel, Field, TypeAdapter

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block

from .doctypes import FIELDS, args


class Enum(enum.Enum):
    A = "a"
    B = "ok"


class In(BaseModel):
    n: int
    o: Option[int] = Nothing
    r: Result[int, str] = Ok(0)


class Out(BaseModel):
    a: Option[In]
    b: Result[In, str]
    c: Block[In]
    d: Option[Block[int]] = Nothing
    e: Block[Option[int]] = Block.empty()
    f: Result[Option[int], Block[str]] = Ok(Nothing)


class Tree(BaseModel):
    v: int
    kids: Block["Tree"] = Block.empty()
    p: "Option[Tree]" = Nothing


class Loose(BaseModel):
    o: Option = Nothing
    r: Result = Ok(0)
    b: Block = Block.empty()
    x: Option[Any] = Nothing
    y: Result[Any, Any] = Ok(0)
    z: Block[Any] = Block.empty()


MODEL: dict[str, Any] = {"in": In, "out": Out, "tree": Tree, "loose": Loose}

def to_type(td: Any) -> Any:
    if isinstance(td, str):
        return {"int": int, "str": str, "flt": float, "bool": bool, "any": Any, "dt": datetime, "enum": Enum, "pos": Annotated[int, Field(gt=0)], **MODEL}[td]
    k, *ts = td
    if not ts:
        return {"opt": Option, "res": Result, "blk": Block}[k]
    xs = [to_type(t) for t in ts]
    return {"tup": lambda: tuple[xs[0], xs[1]], "opt": lambda: Option[xs[0]], "res": lambda: Result[xs[0], xs[1]], "blk": lambda: Block[xs[0]], "lst": lambda: list[xs[0]], "dct": lambda: dict[str, xs[0]]}[k]()


_adapters: dict[str, Any] = {}


def adapter(td: Any) -> Any:
    key = repr(td)
    if key not in _adapters:
        _adapters[key] = TypeAdapter(to_type(td))
    return _adapters[key]


def build(td: Any, s: Any) -> Any:
    if td == "dt":
        return datetime.fromisoformat(s)
    if td == "enum":
        return Enum(s)
    if isinstance(td, str):
        return MODEL[td](**{n: build(t, x) for (n, t), x in zip(FIELDS[td].items(), s)}) if td in MODEL else s
    k, ts = td[0], args(td)
    if k == "opt":
        return Nothing if s[0] == "none" else Some(build(ts[0], s[1]))
    if k == "res":
        return Ok(build(ts[0], s[1])) if s[0] == "ok" else Error(build(ts[1], s[1]))
    if k == "tup":
        return tuple(build(t, x) for t, x in zip(ts, s))
    if k == "dct":
        return {n: build(ts[0], x) for n, x in s.items()}
    xs = [build(ts[0], x) for x in s]
    return Block(xs) if k == "blk" else xs


class Mismatch(Exception):
    """The value is not of the type."""


def desc(td: Any, v: Any) -> Any:
    """Reads a value back (the inverse of build), checking every type on the way."""

    def need(ok: bool, what: str) -> None:
        if not ok:
            raise Mismatch(f"{v!r} is not {what}"[:200])

    if td in ("int", "str", "flt", "bool"):
        need(type(v) is {"int": int, "str": str, "flt": float, "bool": bool}[td], td)
        return v
    if td == "pos":
        need(type(v) is int and v > 0, "a positive int")
        return v
    if td == "dt":
        need(type(v) is datetime, td)
        return v.isoformat()
    if td == "enum":
        need(type(v) is Enum, td)
        return v.value
    if td == "any":
        need(v is None or type(v) in (int, str, bool, float, list, dict), "plain data")
        return v
    if isinstance(td, str):
        need(type(v) is MODEL[td], td)
        return [desc(t, getattr(v, n)) for n, t in FIELDS[td].items()]
    k, ts = td[0], args(td)
    if k == "opt":
        need(isinstance(v, Option), "an Option")
        if v.tag == "none":
            need(v.none is None and not hasattr(v, "some"), "Nothing")
            return ["none"]
        return ["some", desc(ts[0], v.some)]
    if k == "res":
        need(isinstance(v, Result), "a Result")
        return ["ok", desc(ts[0], v.ok)] if v.tag == "ok" else ["error", desc(ts[1], v.error)]
    if k == "tup":
        need(type(v) is tuple and len(v) == len(ts), "a tuple")
        return [desc(t, x) for t, x in zip(ts, v)]
    if k == "dct":
        need(type(v) is dict, "a dict")
        return {n: desc(ts[0], x) for n, x in v.items()}
    need(isinstance(v, Block) if k == "blk" else type(v) is list, k)
    return [desc(ts[0], x) for x in v]


def plain(td: Any, s: Any) -> Any:
    """The document of a value, as plain JSON data."""
    if isinstance(td, str):
        return {n: plain(t, x) for (n, t), x in zip(FIELDS[td].items(), s)} if td in MODEL else s
    k, ts = td[0], args(td)
    if k == "opt":
        return None if s[0] == "none" else plain(ts[0], s[1])
    if k == "res":
        return {"tag": s[0], s[0]: plain(ts[0 if s[0] == "ok" else 1], s[1])}
    if k == "tup":
        return [plain(t, x) for t, x in zip(ts, s)]
    if k == "dct":
        return {n: plain(ts[0], x) for n, x in s.items()}
    return [plain(ts[0], x) for x in s]
