from nagini_contracts.contracts import *
from typing import List


class Fault(Exception):
    pass


class Room:
    def __init__(self) -> None:
        Ensures(Acc(self.open)) # type: ignore
        self.open = True

    def __enter__(self) -> 'Room':
        Requires(Acc(self.open))
        Ensures(Acc(self.open) and Result() is self)
        return self

    def __exit__(self, t: type, e: Exception, tb: object) -> bool:
        Requires(Acc(self.open))
        Ensures(Acc(self.open))
        return t is None


def risky(n: int) -> int:
    Exsures(Fault, True)
    if n < 0:
        raise Fault()
    return n


@Inline
def total(xs: List[int]) -> int:
    r = 0
    for x in xs:
        Invariant(True)
        if x > 10:
            break
        r = r + x
    else:
        r = r + 1
    return r


@Inline
def down(k: int) -> int:
    while k > 0:
        Invariant(True)
        k = k - 1
        if k == 5:
            break
    return k


@Inline
def guarded(k: int) -> int:
    try:
        k = risky(k)
    except Fault:
        k = 1
    else:
        k = k + 1
    finally:
        k = k + 2
    return k


@Inline
def inside(r: Room) -> int:
    with r as q:
        return 2
    return 1


def both(a: List[int], b: List[int], k: int, r: Room) -> int:
    Requires(list_pred(a) and list_pred(b) and Acc(r.open))
    s = total(a) + total(b)
    s = s + down(k) + down(k + 1)
    s = s + guarded(k) + guarded(s)
    for x in a:
        Invariant(True)
        for y in [1, 2]:
            Invariant(True)
            if y == x:
                continue
            s = s + y
        while s > 3:
            Invariant(True)
            s = s - 1
    try:
        try:
            risky(s)
        finally:
            s = 1
    except Fault as ex:
        s = 2
    try:
        risky(s)
    except Fault as ex:
        s = 3
    return s


def rooms(r: Room, q: Room) -> int:
    Requires(Acc(r.open) and Acc(q.open))
    with r as a:
        k = 1
    with q as b:
        k = 2
    return k
