from nagini_contracts.contracts import *


def helper(n: int) -> int:
    Requires(n > 0)
    Ensures(Result() >= n)
    m = n
    assert m > 0
    return m


class Base:
    def __init__(self) -> None:
        Ensures(Acc(self.v) and self.v == 0)
        self.v = 0  # type: int

    @Predicate
    def ok(self) -> bool:
        return Acc(self.v)

    def get(self, k: int) -> int:
        Requires(k > 1)
        Ensures(Result() > 1)
        assert k > 1
        return k

    @staticmethod
    def make(k: int) -> int:
        Ensures(Result() == k)
        assert k == k
        return k


class Other:
    def __init__(self) -> None:
        pass

    def get(self, k: int) -> int:
        Ensures(Result() == k)
        assert k == k
        return k
