from nagini_contracts.contracts import *
from two_b import K as Other, f as g, counter
import two_b

limit = 5


@Pure
def size(x: int) -> int:
    return x + 1


class K:
    LOW = 1

    def __init__(self, v: int) -> None:
        Ensures(Acc(self.val) and self.val == v)
        self.val = v  # type: int

    @Predicate
    def ok(self) -> bool:
        return Acc(self.val) and self.val > 0

    @Pure
    def get(self) -> int:
        Requires(Acc(self.val))
        return self.val

    def f(self, x: int, y: int) -> int:
        Requires(Acc(self.val))
        Ensures(Acc(self.val))
        i = 0
        while i < x:
            Invariant(Acc(self.val))
            i = i + 1
            if i == y:
                break
            for j in [1, 2, 3]:
                Invariant(Acc(self.val))
                self.val = j
                i = i + size(j)
        return i


class L(K):
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.val) and Acc(self.extra))
        self.val = v
        self.extra = v  # type: int

    def f(self, x: int, y: int) -> int:
        Requires(Acc(self.val))
        Ensures(Acc(self.val))
        return x


def f(x: int) -> int:
    Ensures(Implies(x > 0, Result() >= x))
    res = x
    try:
        if x == limit:
            raise Exception()
        res = g(x) + 1
    except Exception as e:
        res = x
    finally:
        pass
    return res


def main(n: int) -> int:
    a = K(n)
    b = Other(n)
    c = L(4)
    a.val = b.val + two_b.f(n)
    t = a.f(n, 2) + c.f(1, 2) + size(n) + two_b.size(n, n) + a.get()
    Assert(Forall(int, lambda i: Implies(i > n, i > n - 1)))
    Assert(Exists(int, lambda i: i > n))
    return t + f(n) + Other.LOW + K.LOW + two_b.limit
