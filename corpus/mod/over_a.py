# with: over_b.py
from nagini_contracts.contracts import *
from over_b import Base, inlined
import over_b

LIMIT = 40


@Pure
def limit(k: int) -> int:
    return k - LIMIT


@Predicate
def big(x: int) -> bool:
    return x > 5 + LIMIT


class Odd(Exception):
    pass


class Pair:
    def __init__(self, a: int) -> None:
        Ensures(Acc(self.a) and self.a == a - 1)
        self.a = a - 1  # type: int


class Mine(Base):
    def __init__(self, v: int = 3) -> None:
        Requires(v > LIMIT)
        Ensures(Acc(self.v) and Acc(self.w))
        super().__init__(limit(v))
        self.w = v  # type: int

    @Predicate
    def ok(self) -> bool:
        return Acc(self.v) and self.v >= LIMIT

    @Predicate
    def deep(self, n: int) -> bool:
        return Acc(self.w) and limit(n) > 3

    def get(self, k: int) -> int:
        Requires(k > 1 and over_b.big(k))
        Ensures(Result() > limit(k))
        Exsures(over_b.Odd, k > LIMIT)
        if k > LIMIT:
            raise over_b.Odd()
        return super().get(k)

    @staticmethod
    def make(k: int) -> Base:
        Requires(k > LIMIT - 36)
        Ensures(Acc(Result().v) and Result().v == over_b.limit(k))
        return Base.make(k)

    def other(self, k: int) -> int:
        Requires(Acc(self.v) and self.v > LIMIT)
        Ensures(Acc(self.v))
        a = Base.inh(self, k)
        b = self.inh(limit(k))
        c = self.inl(k)
        d = inlined(LIMIT)
        e = over_b.inlined(limit(k))
        p = Pair(a)
        p.a = self.twice + self.sz()
        return a + b + c + d + e + p.a

    def unf(self, n: int) -> int:
        Requires(self.deep(n) and self.ok())
        Unfold(self.ok())
        r = limit(self.v)
        Fold(self.ok())
        return r


class Deeper(Mine):
    def inh(self, k: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() > over_b.limit(k))
        return Mine.inh(self, k)


def client(x: Base, k: int) -> int:
    Requires(big(k) and over_b.big(k))
    Requires(Acc(x.v))
    Ensures(Result() == limit(k) or True)
    r = 0
    x.twice = limit(k)
    try:
        r = x.get(k)
    except over_b.Odd as e:
        r = LIMIT + over_b.LIMIT
    except Odd:
        r = limit(2)
    return r + Base.build(limit(k)) + x.twice


z = limit(LIMIT)
b = Base()
m = Mine(50)
