from nagini_contracts.contracts import *
from typing import Optional

LIMIT = 4


@Pure
def limit(k: int) -> int:
    return k + LIMIT


@Predicate
def big(x: int) -> bool:
    return x > limit(3)


class Odd(Exception):
    pass


class Pair:
    def __init__(self, a: int) -> None:
        Ensures(Acc(self.a) and self.a == a)
        self.a = a  # type: int


class Base:
    """Base of classes in another module."""

    def __init__(self, v: int = 3) -> None:
        Requires(v > LIMIT - 5)
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int
        self.p = None  # type: Optional[Pair]

    @Predicate
    def ok(self) -> bool:
        return Acc(self.v) and self.v >= LIMIT

    @Predicate
    def deep(self, n: int) -> bool:
        return Acc(self.p) and Implies(self.p is not None, Acc(self.p.a) and limit(n) > 3)

    def get(self, k: int) -> int:
        Requires(k > 1 and big(k))
        Ensures(Result() > limit(k))
        Exsures(Odd, k > LIMIT)
        if k > LIMIT:
            raise Odd()
        return k + 5

    def inh(self, k: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() > limit(k))
        assert limit(k) == k + LIMIT
        x = Pair(k)
        try:
            if k > limit(2):
                raise Odd()
        except Odd:
            x.a = LIMIT
        finally:
            k = limit(k)
        while k < LIMIT:
            Invariant(Acc(x.a) and x.a > limit(0))
            k += x.a
        return k + 5

    @staticmethod
    def make(k: int) -> 'Base':
        Requires(k > LIMIT)
        Ensures(Acc(Result().v) and Result().v == limit(k))
        return Base(limit(k))

    @classmethod
    def build(cls, k: int) -> int:
        Requires(k > limit(0))
        Ensures(Result() == limit(k))
        return limit(k)

    @Pure
    def sz(self) -> int:
        Requires(Acc(self.v))
        return self.v + LIMIT + limit(2)

    @property
    def twice(self) -> int:
        Requires(Acc(self.v))
        return limit(self.v)

    @twice.setter
    def twice(self, n: int) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == limit(n))
        self.v = limit(n)

    @Inline
    def inl(self, k: int) -> int:
        if k > LIMIT:
            raise Odd()
        return limit(k)


@Inline
def inlined(k: int) -> int:
    x = Pair(k)
    assert limit(k) == k + LIMIT
    while k < LIMIT:
        Invariant(Acc(x.a) and x.a > limit(0))
        k += 1
    try:
        if k > limit(2):
            raise Odd()
    except Odd:
        x.a = LIMIT
    return x.a
