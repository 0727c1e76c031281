from nagini_contracts.contracts import *
from typing import Dict, Generic, List, Optional, Set, Tuple, TypeVar
import other

T = TypeVar('T')
counter = 0


class A:
    def __init__(self) -> None:
        Ensures(Acc(self.n) and Acc(self.b) and Acc(self.nxt) and Acc(self.peer) and Acc(self.items)) # type: ignore
        self.n = 1
        self.b = True
        self.nxt = None # type: Optional[A]
        self.peer = None # type: Optional[other.A]
        self.items = None # type: Optional[List[int]]


class B(A):
    def __init__(self) -> None:
        self.extra = 1


class G(Generic[T]):
    def __init__(self, v: T) -> None:
        Ensures(Acc(self.v)) # type: ignore
        self.v = v


@Predicate
def holds(a: A, k: int) -> bool:
    return Acc(a.n) and a.n > k


def m(i: int, flag: bool, a: A, b: A, oa: Optional[A], q: other.A, q2: other.A, xs: List[int], ys: List[int], zs: List[bool], objs: List[A],
      d: Dict[int, int], e: Dict[int, int], s: Set[int], t: Tuple[int, bool], tv: Tuple[int, ...], g: G[int], h: G[bool], p: PSeq[int], oi: Optional[int], st: str) -> int:
    Requires(True)
    loc = i + 1
    loc_b = flag
    loc_a = a
    return loc


@Pure
def f(k: int) -> int:
    return k
