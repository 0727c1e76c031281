from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.lock import Lock
from nagini_contracts.thread import Thread, getArg, getMethod, getOld, arg, Joinable, MayStart


@Pure
def lim(k: int) -> int:
    return k + 4


class Cell:
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        self.n = n  # type: int


@Predicate
def owned(c: Cell) -> bool:
    return Acc(c.n) and c.n > lim(1)


class CellLock(Lock[Cell]):
    @Predicate
    def invariant(self) -> bool:
        return Acc(self.get_locked().n) and self.get_locked().n > lim(0)


def work(c: Cell, k: int) -> int:
    Requires(Acc(c.n) and c.n > lim(k))
    Requires(MustTerminate(lim(2)))
    Ensures(Acc(c.n) and c.n == lim(Old(c.n)) and Result() == lim(k))
    c.n = lim(c.n)
    return lim(k)
