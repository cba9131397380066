"""Union declarations and payloads for C21 (at module level, so that they pickle). Import only with expression importable."""

from __future__ import annotations

from typing import Any, Generic, Literal, TypeVar

from expression import case, tag, tagged_union

T = TypeVar("T")
HOOK: list[Any] = [None]


class P:
    """Payload: equal, ordered and hashed by n; every such step goes through HOOK, which may raise."""

    def __init__(self, n: int) -> None:
        self.n = n
        self.m: list = [n]

    def __eq__(self, o: Any) -> bool:
        HOOK[0]("eq")
        return isinstance(o, P) and self.n == o.n

    def __lt__(self, o: Any) -> bool:
        HOOK[0]("lt")
        return self.n < o.n

    def __gt__(self, o: Any) -> bool:
        HOOK[0]("lt")
        return self.n > o.n

    def __hash__(self) -> int:
        HOOK[0]("hash")
        return self.n % 3

    def __deepcopy__(self, memo: Any) -> Any:
        HOOK[0]("deepcopy")
        return P(self.n)

    def __getstate__(self) -> Any:
        HOOK[0]("pickle")
        return {"n": self.n, "m": self.m}

    def __setstate__(self, s: Any) -> None:
        HOOK[0]("unpickle")
        self.__dict__.update(s)

    def __bool__(self) -> bool:
        return self.n != 0

    def __repr__(self) -> str:
        return f"P{self.n}"


@tagged_union(frozen=True, order=True)
class One:
    tag: Literal["only"] = tag()
    only: Any = case()


@tagged_union(frozen=True, order=True)
class Four(Generic[T]):
    tag: Literal["z", "a", "m", "value"] = tag()
    z: T = case()
    a: Any = case()
    m: Any = case()
    value: Any = case()

    @staticmethod
    def A(x: Any) -> Four[Any]:
        return Four(a=x)

    def get(self) -> Any:
        match self:
            case Four(tag="z", z=x) | Four(tag="a", a=x) | Four(tag="m", m=x) | Four(tag="value", value=x):
                return x
            case _:
                return "no case matches"


@tagged_union(order=True)
class Open:
    """Not frozen."""

    tag: Literal["left", "right"] = tag()
    left: Any = case()
    right: Any = case()


@tagged_union(frozen=True)
class Unord:
    """Frozen, without an order."""

    tag: Literal["tag1", "index", "x"] = tag()
    tag1: Any = case()
    index: Any = case()
    x: Any = case()


@tagged_union(frozen=True, eq=False)
class Ident:
    """Compared by identity."""

    tag: Literal["p", "q"] = tag()
    p: Any = case()
    q: Any = case()


@tagged_union
class Plain:
    """Nothing asked for."""

    tag: Literal["on", "off"] = tag()
    on: Any = case()
    off: Any = case()


class Sub(Four[T]):
    """A subclass of a union."""


def view(v: Any) -> tuple[str, Any]:
    """By pattern matching."""
    match v:
        case One(tag="only", only=x):
            return "only", x
        case Four(tag="a", a=x):
            return "a", x
        case Four(tag="value", value=x):
            return "value", x
        case Four(tag="z", z=x):
            return "z", x
        case Four(m=x):
            return "m", x
        case Open(left=x):
            return "left", x
        case Open(right=x):
            return "right", x
        case Unord("tag1", x):
            return "tag1", x
        case Unord(tag="index", index=x):
            return "index", x
        case Unord(tag="x", x=x):
            return "x", x
        case Ident(p=x):
            return "p", x
        case Ident(tag, q=x):
            return tag, x
        case Plain(tag="on", on=x):
            return "on", x
        case Plain(tag="off", off=x):
            return "off", x
    return "no case matches", None
