# with: thr_b.py
from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.lock import Lock
from nagini_contracts.thread import Thread, getArg, getMethod, getOld, arg, Joinable, MayStart
from thr_b import CellLock, work
import thr_b


@Pure
def lim(k: int) -> int:
    return k - 4


class Cell:
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n + 1)
        self.n = n + 1  # type: int


@Predicate
def owned(c: Cell) -> bool:
    return Acc(c.n) and c.n > lim(1)


def client(c: thr_b.Cell) -> None:
    Requires(Acc(c.n) and c.n > 100)
    Requires(MustTerminate(lim(2)))
    t = Thread(None, work, None, (c, lim(3)))
    t.start(work)
    t.join(work)


def use(l: CellLock, c: thr_b.Cell) -> None:
    Requires(WaitLevel() < Level(l))
    Requires(thr_b.owned(c))
    l.acquire()
    l.release()
    Unfold(thr_b.owned(c))
    c.n = lim(c.n) + thr_b.lim(50)
    Fold(thr_b.owned(c))
    d = Cell(lim(3))
    Fold(owned(d))
