# with: two_b.py
from nagini_contracts.contracts import *
from two_b import helper, Base, Other


def main(n: int) -> int:
    Requires(n > 0)
    Ensures(Result() > n)
    r = helper(n)
    assert r >= n
    return r + 1


class Mine(Base):
    def __init__(self) -> None:
        Ensures(Acc(self.v) and self.v == 0 and Acc(self.w))
        self.v = 0
        self.w = 0  # type: int
        assert self.v == 0

    @Predicate
    def ok(self) -> bool:
        return Acc(self.v) and self.v >= 0

    def get(self, k: int) -> int:
        Requires(k > 1)
        Ensures(Result() > 2)
        x = k + 1
        assert x > 2
        return x

    @property
    def value(self) -> int:
        Requires(Acc(self.w))
        return self.w

    @value.setter
    def value(self, n: int) -> None:
        Requires(Acc(self.w) and n > 0)
        Ensures(Acc(self.w) and self.w == n)
        assert n > 0
        self.w = n


class Third(Mine):
    def __init__(self) -> None:
        Ensures(Acc(self.v))
        self.v = 3

    @Predicate
    def ok(self) -> bool:
        return Acc(self.v) and self.v >= 3


def get(k: int) -> int:
    Ensures(Result() == k)
    assert k == k
    return k


@Pure
def value(k: int) -> int:
    Requires(k > 0)
    return k


z = get(3)
assert z == 3
o = Other()
assert o.get(4) == 4
