from nagini_contracts.contracts import *
from nagini_contracts.io_contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.lock import Lock


class Cell:
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        self.n = n  # type: int


class CellLock(Lock[Cell]):
    @Predicate
    def invariant(self) -> bool:
        return Acc(self.get_locked().n) and self.get_locked().n > 0


@IOOperation
def tick(t_pre: Place, t_post: Place = Result()) -> bool:
    Terminates(True)


@IOOperation
def ticks(t_pre: Place, n: int, t_post: Place = Result()) -> bool:
    Terminates(n >= 0)
    TerminationMeasure(n + 1)
    return IOExists1(Place)(
        lambda t2: (tick(t_pre, t2) and tick(t2, t_post))
    )


@ContractOnly
def do_tick(t1: Place, t2: Place) -> Place:
    IOExists1(Place)(
        lambda t2: (
        Requires(token(t1, 1) and tick(t1, t2)),
        Ensures(token(t2) and t2 == Result())
        )
    )


def twice(l: CellLock, n: int) -> int:
    Requires(n > 0)
    Requires(WaitLevel() < Level(l))
    Ensures(Result() > n)
    i = 0
    while i < n:
        Invariant(i <= n)
        i = i + 1
    assert i == n
    l.acquire()
    l.release()
    return i + 1


def other(n: int) -> int:
    Requires(n > 0)
    Requires(MustTerminate(2))
    Ensures(Result() > 1)
    try:
        m = n
        assert m > 0
    finally:
        k = 2
    return m + k
