from nagini_contracts.contracts import *
from typing import List, Optional, Tuple, Union, cast, Dict, Set












@Pure
def p_ann(a: int) -> int:
    b: int = a + 1
    c: bool = b > 3
    if c:
        return b
    else:
        b = b * 2
    return b


@Pure
def p_nested(a: int, b: int) -> int:
    r = 0
    if a > 0:
        r = 1
        if b > 0:
            r = r + 10
        elif b < -3:
            return -5
        r = r + 100
    elif b == 0:
        r = 7
    return r


def use_pure(a: int, b: int) -> int:
    return p_ann(a) + p_nested(a, b)














def let_expr(a: int, b: int) -> int:
    Ensures(Let(a + b, bool, lambda x: Result() == x * x))
    return (a + b) * (a + b)


def let_wrong(a: int, b: int) -> int:
    Ensures(Let(a + b, bool, lambda x: Result() == x * x))
    return a * a + b * b


def forall_list(a: int, b: int) -> int:
    l = [a, b]
    Assert(Implies(a > 0 and b > 0, Forall(l, lambda x: x > 0)))
    return 1


def exists_list(a: int, b: int) -> int:
    l = [a, b]
    Assert(Implies(a > 0, Exists(l, lambda x: x > 0)))
    return 1


def forall_wrong(a: int, b: int) -> int:
    l = [a, b]
    Assert(Implies(a > 0, Forall(l, lambda x: x > 0)))
    return 1


def refute_stmt(a: int) -> int:
    Requires(a > 0)
    return a




























class C:
    def __init__(self, v: int, w: int) -> None:
        Ensures(Acc(self.v) and self.v == v and Acc(self.w) and self.w == w)
        self.v = v  # type: int
        self.w = w  # type: int

    @Pure
    def total(self) -> int:
        Requires(Acc(self.v, 1/2) and Acc(self.w, 1/2))
        t = self.v
        t = t + self.w
        return t

    @Predicate
    def both(self) -> bool:
        return Acc(self.v) and Acc(self.w) and self.v >= 0

    @Pure
    def first(self) -> int:
        Requires(self.both())
        return Unfolding(self.both(), self.v)

    @Pure
    def second(self) -> int:
        Requires(self.both())
        Unfold(self.both())
        x = self.v
        return x + self.w


def use_total(a: int, b: int) -> int:
    c = C(a, b)
    return c.total()


def use_first(a: int, b: int) -> int:
    Requires(a >= 0)
    c = C(a, b)
    Fold(c.both())
    return c.first() * 10 + c.second()


def perm_third(c: C) -> int:
    Requires(Acc(c.v, 1/3))
    Ensures(Acc(c.v, 1/3))
    return c.v


def perm_sum(a: int) -> int:
    c = C(a, 1)
    r = perm_third(c)
    c.v = 5
    return r + c.v


def conditional_perm(c: C, b: bool) -> int:
    Requires(Implies(b, Acc(c.v)) and Acc(c.w))
    Ensures(Implies(b, Acc(c.v) and c.v == 3) and Acc(c.w) and c.w == Old(c.w) + 1)
    Ensures(Result() == c.w)
    if b:
        c.v = 3
    c.w += 1
    return c.w


def use_conditional(a: int, b: bool) -> int:
    c = C(a, a)
    r = conditional_perm(c, b)
    return c.v * 10 + c.w + r


def old_of_call(c: C) -> int:
    Requires(Acc(c.v) and Acc(c.w))
    Ensures(Acc(c.v) and Acc(c.w))
    Ensures(c.v == Old(c.w) and c.w == Old(c.v))
    Ensures(Result() == Old(c.total()))
    t = c.v
    c.v = c.w
    c.w = t
    return c.v + c.w


def use_swap(a: int, b: int) -> int:
    c = C(a, b)
    r = old_of_call(c)
    return c.v * 10 + c.w + r


@Pure
def p_assert(a: int) -> int:
    Requires(a > 2)
    Assert(a > 1)
    b = a - 1
    Assert(b > 0)
    return b


def use_assert(a: int) -> int:
    Requires(a > 2)
    return p_assert(a)
