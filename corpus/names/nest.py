from nagini_contracts.contracts import *
from nagini_contracts.obligations import MustTerminate, WaitLevel, Level
from nagini_contracts.lock import Lock
from typing import List, Dict, Tuple, Optional


class Cell:
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 0)
        self.n = 0  # type: int


class CellLock(Lock[Cell]):
    @Predicate
    def invariant(self) -> bool:
        return Acc(self.get_locked().n)


def gcd(a: int, b: int) -> int:
    Requires(a >= 0 and b >= 0)
    Requires(MustTerminate(b + 1))
    while b > 0:
        Invariant(a >= 0 and b >= 0)
        Invariant(MustTerminate(b + 1))
        r = a % b
        a = b
        b = r
        for q in [1, 2]:
            Invariant(MustTerminate(1))
            r = q
    return a


@Predicate
def lst(l: List[int], n: int) -> bool:
    return Acc(list_pred(l)) and len(l) == n


def comp(l: List[int], d: Dict[int, int]) -> List[int]:
    Requires(Acc(list_pred(l)) and Acc(dict_pred(d)))
    Requires(Forall(l, lambda x: (x > 0, [[x in l]])))
    Requires(Forall(d, lambda k: Forall(l, lambda x: Implies(x > k, x > 0))))
    Ensures(Acc(list_pred(l)) and Acc(list_pred(Result())))
    res = [x + 1 for x in l]
    s = {y for y in l}
    a, b = 1, 2
    (c, (e, g)) = (a, (b, a))
    while a < 3:
        Invariant(Acc(list_pred(l)) and Acc(list_pred(res)))
        a += 1
        try:
            while b < a:
                Invariant(Acc(list_pred(l)) and Acc(list_pred(res)))
                b += 1
                if b == c:
                    continue
                if b == e:
                    return l
        except Exception as exc:
            b = 3
        else:
            b = 4
        finally:
            c = 5
    return res


def locked(l: CellLock, x: Optional[Cell] = None, *args: int, **kw: int) -> int:
    Requires(WaitLevel() < Level(l))
    l.acquire()
    c = l.get_locked()
    v = c.n
    c.n = v + 1
    l.release()
    return v


def caller(n: int) -> int:
    t = gcd(n, 3) if n >= 0 else gcd(1, 2)
    return gcd(t if t >= 0 else 0, gcd(2, 4) if n > 3 else 1)
