from nagini_contracts.contracts import *
from typing import List


class C:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int


def perm_diff(c: C) -> int:
    Requires(Acc(c.v, 1 - 1/4))
    Ensures(Acc(c.v, 3/4) and c.v == Old(c.v))
    Ensures(Result() == c.v)
    return c.v


def use_perm_diff(a: int) -> int:
    c = C(a)
    r = perm_diff(c)
    c.v = 7
    return r + c.v


def perm_mult(c: C) -> int:
    Requires(Acc(c.v, 2 * (1/4)))
    Ensures(Acc(c.v, 1/2) and c.v == Old(c.v))
    Ensures(Result() == c.v)
    return c.v


def use_perm_mult(a: int) -> int:
    c = C(a)
    r = perm_mult(c)
    c.v = 7
    return r + c.v


def perm_halves(c: C) -> int:
    Requires(Acc(c.v, (1/2)/2))
    Ensures(Acc(c.v, 1/4) and c.v == Old(c.v))
    Ensures(Result() == c.v)
    return c.v


def use_perm_halves(a: int) -> int:
    c = C(a)
    r = perm_halves(c)
    c.v = 7
    return r + c.v


def perm_sum(c: C) -> int:
    Requires(Acc(c.v, 1/4 + 1/4))
    Ensures(Acc(c.v, 1/2) and c.v == Old(c.v))
    Ensures(Result() == c.v)
    return c.v


def use_perm_sum(a: int) -> int:
    c = C(a)
    r = perm_sum(c)
    c.v = 7
    return r + c.v


def nested_forall(a: int, b: int) -> int:
    l = [a, b]
    m = [1, 2]
    Assert(Implies(a > 3 and b > 3, Forall(l, lambda x: Forall(m, lambda x: x > 0) and x > 3)))
    return 1


def nested_let(a: int, b: int) -> int:
    Ensures(Let(a + b, bool, lambda x: Let(x + 1, bool, lambda x: x == a + b + 1) and Result() == x))
    return a + b


def forall_shadow(a: int, x: int) -> int:
    Ensures(Implies(x > 3, Forall(int, lambda x: Implies(x > 5, x > 4)) and Result() == x))
    return x


def forall_then_var(a: int, x: int) -> int:
    l = [a]
    Assert(Forall(l, lambda x: x == a) and x == x + 0)
    Assert(Implies(x == 3, Exists(l, lambda x: x == a) and x == 3))
    return x


def old_shadow(a: int) -> int:
    Ensures(Result() == Old(a) + 1)
    a = a + 1
    return a


def forall_two(a: int, b: int) -> int:
    l = [a, b]
    m = [b]
    Assert(Implies(a > b, Forall(l, lambda x: Forall(m, lambda y: x >= y))))
    return 1
