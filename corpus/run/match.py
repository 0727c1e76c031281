from nagini_contracts.contracts import *
from typing import List, Optional, Tuple, Union


class P:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int


class Q(P):
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v + 1)
        self.v = v + 1


class R:
    pass


def match_int(a: int) -> int:
    match a:
        case 0:
            return 10
        case 1 | 2:
            return 20
        case 3:
            return 30
        case _:
            return 40


def match_first(a: int) -> int:
    r = 0
    match a:
        case 1:
            r = r + 1
        case 1 | 2:
            r = r + 10
        case 2:
            r = r + 100
    return r


def match_none(a: int) -> int:
    r = 5
    match a:
        case 7:
            r = 6
    return r


def match_guard(a: int, b: int) -> int:
    match a:
        case 0 if b > 3:
            return 1
        case x if x == b:
            return 2
        case 0:
            return 3
        case y:
            return y


def match_bool(a: bool) -> int:
    match a:
        case True:
            return 1
        case False:
            return 2
    return 3


def match_optional(a: Optional[int]) -> int:
    match a:
        case None:
            return -1
        case 3:
            return 0
        case _:
            return 1


def match_as(a: int) -> int:
    match a:
        case (1 | 2) as x:
            return x * 10
        case _ as z:
            return z


def match_str(a: str) -> int:
    match a:
        case 'ab':
            return 1
        case '':
            return 2
    return 3


def match_class(c: int, v: int) -> int:
    p = P(v)
    if c == 1:
        p = Q(v)
    o = p  # type: object
    if c == 2:
        o = R()
    match o:
        case Q():
            return 1
        case P():
            return 2
        case R():
            return 3
    return 4


def match_order(c: int, v: int) -> int:
    p = P(v)
    if c == 1:
        p = Q(v)
    match p:
        case P():
            return 1
        case Q():
            return 2
    return 3


def match_assert(a: int) -> int:
    r = 0
    match a:
        case 1:
            r = 1
        case 2:
            r = 2
            assert a != 2
        case _:
            pass
    return r


def match_effect(a: int) -> int:
    l = [0]
    match bump(l):
        case 0:
            return 0
        case 1:
            return l[0]
    return 7


def bump(l: List[int]) -> int:
    Requires(Acc(list_pred(l)) and len(l) == 1)
    Ensures(Acc(list_pred(l)) and len(l) == 1)
    Ensures(l[0] == Old(l[0]) + 1)
    Ensures(Result() == l[0])
    l[0] = l[0] + 1
    return l[0]


def match_in_loop(a: int) -> int:
    i = 0
    r = 0
    while i < 4:
        i = i + 1
        match i + a:
            case 2:
                continue
            case 3:
                break
            case _:
                r = r + i
    return r * 10 + i


@Pure
def match_pure(a: int) -> int:
    match a:
        case 0:
            return 1
        case 1 | 2:
            return 2
        case x if x > 10:
            return x
        case _:
            return 3


def match_pure_use(a: int) -> int:
    return match_pure(a)


def match_negative(a: int) -> int:
    match a:
        case -1:
            return 1
        case 1:
            return 2
    return 0


def match_bool_int(a: int) -> int:
    match a:
        case True:
            return 1
        case 1:
            return 2
    return 3


def match_returns(a: int) -> int:
    try:
        match a:
            case 1:
                return 5
            case _:
                raise Exception()
    except Exception:
        return 6


def match_failed_guard_binds(a: int) -> int:
    x = 5
    match a:
        case x if x > 3:
            return 1
        case _:
            return x


def match_attr(c: int, v: int) -> int:
    y = 100
    o = P(v)  # type: object
    if c == 1:
        o = R()
    match o:
        case P(v=0):
            return 1
        case P(v=y):
            return y
        case _:
            return 3


def match_attr_guard(v: int) -> int:
    y = 100
    p = P(v)
    match p:
        case P(v=y) if y > 3:
            return y
        case P() as q:
            return q.v + 1
    return 4


def match_nested_as(a: int) -> int:
    x = 1
    y = 2
    match a:
        case ((1 | 2) as x) as y:
            return x * 10 + y
        case y:
            return x * 100 + y


@Pure
def match_pure_failed_guard(a: int) -> int:
    x = 5
    match a:
        case x if x > 3:
            return 1
        case 0:
            return x + 10
        case _:
            return x


@Pure
def match_pure_capture(a: int, b: int) -> int:
    r = 0
    match a:
        case 3:
            r = 3
        case x if x > b:
            r = x + b
        case y:
            r = y - b
    return r


def match_guard_raises(a: int, b: int) -> int:
    match a:
        case 0:
            return 1
        case 3 if 10 // b > 2: #! fails if a == 3 and b == 0
            return 3
    return 4


class S:
    def __init__(self, v: int, w: int) -> None:
        Ensures(Acc(self.v) and self.v == v and Acc(self.w) and self.w == w)
        self.v = v  # type: int
        self.w = w  # type: int


def match_two_attrs(v: int, w: int) -> int:
    s = S(v, w)
    match s:
        case S(w=1, v=2):
            return 1
        case S(w=5, v=2 | 3 | 4):
            return 2
        case S(w=x, v=y) if x > y:
            return x * 10 + y
        case S(w=0, v=_):
            return 100
    return 0
