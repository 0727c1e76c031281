from nagini_contracts.contracts import *
from typing import Dict, List, Optional, Set, Tuple, Union


class Box:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v

    def bump(self, by: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v) + by)
        Ensures(Result() == self.v)
        self.v += by
        return self.v

    @Pure
    def get(self) -> int:
        Requires(Acc(self.v))
        return self.v

    @property
    def twice(self) -> int:
        Requires(Acc(self.v))
        return self.v * 2


class Sub(Box):
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v + 1)
        super().__init__(v + 1)


def bump(b: Box, by: int) -> int:
    Requires(Acc(b.v))
    Ensures(Acc(b.v) and b.v == Old(b.v) + by)
    Ensures(Result() == b.v)
    b.v += by
    return b.v


def truthy(b: Box, by: int) -> bool:
    Requires(Acc(b.v))
    Ensures(Acc(b.v) and b.v == Old(b.v) + by)
    Ensures(Result() == (b.v > 3))
    b.v += by
    return b.v > 3


@Pure
def sign(a: int) -> int:
    if a < 0:
        return -1
    if a == 0:
        return 0
    return 1


@Pure
def collatz(a: int) -> int:
    Requires(a > 0)
    return a // 2 if a % 2 == 0 else 3 * a + 1


@Pure
def fact(n: int) -> int:
    Requires(n >= 0 and n < 5)
    return 1 if n == 0 else n * fact(n - 1)


@Pure
def pure_locals(a: int, b: int) -> int:
    x = a
    y = b
    x = x + 10 * y
    y = x - y
    if x > y:
        y = x
        z = y + 1
    else:
        z = x - 1
    return z - y


@Pure
def pure_nested(a: int, b: int) -> int:
    r = 0
    if a > 0:
        if b > 0:
            return 1
        r = 2
    elif b > 5:
        r = 3
    else:
        return r - 1
    r += 10
    return r


@Pure
def pure_default(a: int, b: int = 3, c: int = 5) -> int:
    return a * 100 + b * 10 + c


def arith(a: int, b: int) -> int:
    return a + b * 2 - (a - b) * 3 + -a + +b


def division(a: int, b: int) -> int:
    Requires(b != 0)
    return a // b * 1000 + a % b


def division_zero(a: int, b: int) -> int:
    return a // b


def modulo_zero(a: int, b: int) -> int:
    return a % b


def power(a: int) -> int:
    return a ** 2 + 2 ** 3


def compare(a: int, b: int) -> int:
    r = 0
    if a < b:
        r += 1
    if a <= b:
        r += 2
    if a > b:
        r += 4
    if a >= b:
        r += 8
    if a == b:
        r += 16
    if a != b:
        r += 32
    return r


def chain(a: int, b: int, c: int) -> bool:
    return a < b < c or a == b == c


def chain_mixed(a: int, b: int, c: int) -> bool:
    return a <= b > c != a


def chain_effects(a: int) -> int:
    x = Box(a)
    t = 0 < bump(x, 1) < 5
    return x.v + (100 if t else 0)


def chain_effects_last(a: int) -> int:
    x = Box(a)
    t = 3 < a < bump(x, 1) < bump(x, 10)
    return x.v + (100 if t else 0)


def and_or_value(a: int, b: int) -> int:
    return (a and b) * 10 + (a or b)


def and_or_bool(a: bool, b: bool, c: bool) -> bool:
    return a and b or not c and (b or a)


def and_effects(a: int) -> int:
    x = Box(a)
    r = 0
    if truthy(x, 1) and truthy(x, 10):
        r = 1
    return r * 1000 + x.v


def or_effects(a: int) -> int:
    x = Box(a)
    r = 0
    if truthy(x, 1) or truthy(x, 10):
        r = 1
    return r * 1000 + x.v


def and_three(a: int) -> int:
    x = Box(a)
    t = truthy(x, 1) and truthy(x, -20) and truthy(x, 300)
    return x.v + (10000 if t else 0)


def conditional(a: int, b: int) -> int:
    return a if a > b else b if b > 0 else -1


def conditional_effects(a: int) -> int:
    x = Box(a)
    r = bump(x, 1) if a > 0 else bump(x, 10) + bump(x, 100)
    return r * 1000 + x.v


def not_values(a: int, o: Optional[int]) -> int:
    r = 0
    if not a:
        r += 1
    if not o:
        r += 2
    if o is None:
        r += 4
    if o is not None and o > a:
        r += 8
    return r


def order_args(a: int) -> int:
    x = Box(a)
    return pure_default(bump(x, 1), x.v, bump(x, 10))


def order_binary(a: int) -> int:
    x = Box(a)
    return x.v * 10000 + bump(x, 1) * 100 + x.v


def order_binary_rev(a: int) -> int:
    x = Box(a)
    return bump(x, 1) * 100 + x.v - bump(x, 5)


def order_method(a: int) -> int:
    x = Box(a)
    return x.v * 1000 + x.bump(x.bump(1)) + x.v * 2


def order_compare(a: int) -> bool:
    x = Box(a)
    return x.v + 1 == bump(x, 1)


def order_tuple(a: int) -> Tuple[int, int, int]:
    x = Box(a)
    return x.v, bump(x, 1), x.v


def order_list(a: int) -> int:
    x = Box(a)
    l = [x.v, bump(x, 1), x.v]
    return l[0] * 10000 + l[1] * 100 + l[2]


def order_aug(a: int) -> int:
    x = Box(a)
    x.v += bump(x, 10)
    return x.v


def order_aug_local(a: int) -> int:
    x = Box(a)
    r = 5
    r += bump(x, r)
    return r


def order_subscript(a: int) -> int:
    x = Box(0)
    l = [a, a + 1, a + 2]
    l[bump(x, 1)] = x.v + 50
    return l[0] + l[1] * 100 + l[2] * 10000


def order_assign_sub(a: int) -> int:
    x = Box(0)
    l = [7, 8, 9]
    l[x.v] = bump(x, 2)
    return l[0] + l[1] * 10 + l[2] * 100


def order_aug_sub(a: int) -> int:
    x = Box(0)
    l = [a, a + 1]
    l[0] += bump(x, 3) + l[1]
    return l[0]


def order_store(a: int) -> int:
    x = Box(a)
    y = (x, bump(x, 1))
    y[0].v = x.v + bump(y[0], 2)
    return x.v


def order_keyword(a: int) -> int:
    x = Box(a)
    return pure_default(c=bump(x, 1), a=bump(x, 10), b=x.v)


def keywords(a: int, b: int) -> int:
    return pure_default(a, c=b) + pure_default(b=a, a=b) * 1000


def defaults(a: int) -> int:
    return pure_default(a) + pure_default(a, 7) * 1000


def pure_calls(a: int, b: int) -> int:
    return sign(a) * 10 + sign(b)


def pure_requires(a: int) -> int:
    return collatz(a)


def pure_recursive(n: int) -> int:
    return fact(n)


def pure_local_calls(a: int, b: int) -> int:
    return pure_locals(a, b) * 100 + pure_nested(a, b)


def pure_method(a: int) -> int:
    x = Box(a)
    y = Sub(a)
    return x.get() * 100 + y.get()


def property_get(a: int) -> int:
    x = Box(a)
    x.v += 1
    return x.twice


def is_none(o: Optional[int]) -> int:
    if o is None:
        return -1
    return o + 1


def isinstance_checks(a: int) -> int:
    x = Box(a)
    y = Sub(a)
    z = x if a > 0 else y
    r = 0
    if isinstance(x, Sub):
        r += 1
    if isinstance(y, Box):
        r += 2
    if isinstance(z, Sub):
        r += 4
    return r


def identity(a: int) -> int:
    x = Box(a)
    y = Box(a)
    z = x if a > 0 else y
    r = 0
    if x is y:
        r += 1
    if z is x:
        r += 2
    if z is not y:
        r += 4
    return r


def tuples(a: int, b: int) -> int:
    t = (a, b, a + b)
    x, y, z = t
    return t[0] + t[2] * 10 + t[-1] * 100 + len(t) * 1000 + x - z + y


def tuple_eq(a: int, b: int) -> bool:
    return (a, b) == (b, a)


def tuple_nested(a: int, b: int) -> int:
    t = (a, (b, a))
    x, (y, z) = t
    return x * 100 + y * 10 + z + t[1][0]


def tuple_in(a: int, b: int) -> bool:
    return a in (1, b, 3)


def lists(a: int, b: int) -> int:
    l = [a, b]
    l.append(a + b)
    l[1] = 7
    return l[0] + l[1] * 10 + l[2] * 100 + len(l) * 1000


def list_negative(a: int) -> int:
    l = [a, a + 1, a + 2]
    return l[-1] * 100 + l[-3]


def list_index(a: int) -> int:
    l = [1, 2, 3]
    return l[a]


def list_assign_index(a: int) -> int:
    Requires(a >= 0)
    l = [1, 2, 3]
    l[a] = 10
    return l[0] + l[1] * 10 + l[2] * 100


def list_in(a: int) -> bool:
    l = [1, 2, 3]
    return a in l and a not in [2]


def list_concat(a: int) -> int:
    l = [a, 1] + [2, a]
    return len(l) * 1000 + l[0] * 100 + l[1] * 10 + l[3]


#! weak (elements by a quantifier over a remainder)
def list_repeat(a: int) -> int:
    l = [a, 1] * 2
    return len(l) * 1000 + l[2] * 10 + l[3]


def list_slice(a: int) -> int:
    l = [a, a + 1, a + 2, a + 3]
    m = l[1:3]
    k = l[2:]
    j = l[:1]
    return len(m) * 10000 + m[0] + k[1] * 10 + j[0] * 100


def list_alias(a: int) -> int:
    l = [a]
    m = l
    m.append(2)
    return len(l)


def list_truth(a: int) -> int:
    l = [] # type: List[int]
    if a > 0:
        l.append(a)
    return 1 if l else 2


def dicts(a: int) -> int:
    d = {1: a, 2: a + 1}
    d[3] = 7
    d[1] = d[2] + d[1]
    return d[1] * 100 + d[3] + len(d)


def dict_missing(a: int) -> int:
    d = {1: 5, 2: 6}
    return d[a]


def dict_in(a: int) -> bool:
    d = {1: 5, 2: 6}
    return a in d


def sets(a: int) -> int:
    s = {1, 2, a}
    s.add(3)
    r = len(s)
    if a in s:
        r += 100
    if 3 in s:
        r += 10
    return r


def strings(s: str, t: str) -> bool:
    return s + t == t + s


def string_len(s: str) -> int:
    return len(s) + len("abc" + s)


def string_eq(s: str) -> bool:
    return s == "abc"


def minmax(a: int, b: int) -> int:
    return min(a, b) * 100 + max(a, b)


def abs_(a: int) -> int:
    return abs(a)


def bools(a: bool, b: bool) -> int:
    return int(a) * 2 + b


def bool_arith(a: bool, b: int) -> int:
    return a + b * 2


def bool_of(a: int) -> bool:
    return bool(a)


def bool_cmp(a: bool, b: bool) -> bool:
    return a == b or a is True


def unary(a: int, b: bool) -> int:
    return -a * (1 if not b else 2) - -3


def lambda_let(a: int) -> bool:
    Requires(Let(a + 1, bool, lambda x: x > 3))
    return a > 2


def global_const(a: int) -> int:
    return a + K


K = 12


def nested_calls(a: int) -> int:
    return max(sign(min(a, 3)), sign(-a)) * 10 + abs(sign(a))


def union_value(a: int, b: bool) -> Union[int, bool]:
    if a > 3:
        return a
    return b


def ignored(a: int) -> int:
    x = Box(a)
    bump(x, 3)
    x.bump(4)
    return x.v


def constructor_effects(a: int) -> int:
    x = Box(a)
    y = Box(bump(x, 1))
    return x.v * 100 + y.v


def attribute_chain(a: int) -> int:
    x = Box(a)
    y = (x, 3)
    y[0].v = a + 5
    return x.v


def in_range(a: int) -> bool:
    return a in range(2, 5)


def range_len(a: int) -> int:
    Requires(a >= 0 and a < 4)
    return len(range(0, a))


def multi_compare_none(o: Optional[int], a: int) -> int:
    if o is not None and a < o < a + 3:
        return o
    return a


def shadow(a: int) -> int:
    K = a
    return K


def unused_branch(a: int) -> int:
    return (a if True else a // 0)


def guarded_division(a: int, b: int) -> int:
    return a // b if b != 0 else 0


def guarded_and(a: int, b: int) -> bool:
    return b != 0 and a // b > 1


def guarded_or(a: int, b: int) -> bool:
    return b == 0 or a % b == 0


def unguarded_or(a: int, b: int) -> bool:
    return b == 1 or a % b == 0


def guarded_index(a: int) -> int:
    l = [5, 6]
    if 0 <= a < len(l) and l[a] > 5:
        return l[a]
    return 0
