from nagini_contracts.contracts import *
from typing import List, Optional, Tuple, Union, cast, Dict, Set


def f3(a: int, b: int, c: int) -> int:
    Ensures(Result() == a * 100 + b * 10 + c)
    return a * 100 + b * 10 + c


def fstar(a: int, *args: int) -> int:
    Requires(len(args) >= 2)
    Ensures(Result() == a * 100 + args[0] * 10 + args[1])
    return a * 100 + args[0] * 10 + args[1]


def fdef(a: int, b: int = 7, *, c: int = 3, d: int = 4) -> int:
    Ensures(Result() == a * 1000 + b * 100 + c * 10 + d)
    return a * 1000 + b * 100 + c * 10 + d


def call_star(a: int, b: int, c: int) -> int:
    t = (b, c)
    return f3(a, *t)


def call_star_first(a: int, b: int, c: int) -> int:
    t = (a, b)
    return f3(*t, c)


def call_star_two(a: int, b: int, c: int) -> int:
    t = (a, b)
    u = (c,)
    return f3(*t, *u)


def call_varargs(a: int, b: int, c: int) -> int:
    return fstar(a, b, c)


def call_varargs_star(a: int, b: int, c: int) -> int:
    t = (a, b, c)
    return fstar(*t)


def call_varargs_mixed(a: int, b: int, c: int) -> int:
    t = (b, c)
    return fstar(a, *t)


def call_varargs_short(a: int, b: int) -> int:
    return fstar(a, b)


def call_keywords(a: int, b: int, c: int) -> int:
    return f3(c=c, a=a, b=b)


def call_keyword_mixed(a: int, b: int, c: int) -> int:
    return f3(a, c=b, b=c)


def call_defaults(a: int) -> int:
    return fdef(a) + 2 * fdef(a, 1) + 3 * fdef(a, d=9) + 5 * fdef(a, c=1, b=2)


def ann_assign(a: int) -> int:
    x: int = a + 1
    y: Optional[int] = None
    if x > 3:
        y = x
    if y is None:
        return 0
    return y


def cast_int(c: int) -> int:
    o = 5  # type: object
    if c == 1:
        o = True
    return cast(int, o) + 1


def list_of_list(a: int, b: int) -> int:
    l = [a, b]
    m = list(l)
    m[0] = 5
    return l[0] * 10 + m[1] + len(m)


def list_empty() -> int:
    m = list()  # type: List[int]
    m.append(4)
    return len(m) + m[0]


def list_of_tuple(a: int, b: int) -> int:
    m = list((a, b))
    return m[0] * 10 + m[1]


def list_of_range(a: int) -> int:
    m = list(range(2, 5))
    return m[0] * 100 + m[1] * 10 + m[2] + len(m)


def set_empty(a: int) -> int:
    s = set()  # type: Set[int]
    s.add(a)
    return len(s)


def range_loop(a: int) -> int:
    r = 0
    for i in range(3):
        r = r * 10 + i + a
    return r


def range_start(a: int) -> int:
    r = 0
    for i in range(2, 5):
        r = r * 10 + i
    return r


def int_of_bool(a: bool) -> int:
    return int(a) + 1


def bool_of_int(a: int) -> bool:
    return bool(a)


def min_max(a: int, b: int) -> int:
    return max(a, b) * 10 + min(a, b)


def abs_call(a: int) -> int:
    return abs(a)


class K:
    base = 10

    def __init__(self, v: int = 3) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

    @classmethod
    def make(cls, v: int) -> 'K':
        Ensures(Acc(Result().v) and Result().v == v + 1)
        return cls(v + 1)

    @staticmethod
    def add(a: int, b: int = 2) -> int:
        Ensures(Result() == a + b * 10)
        return a + b * 10

    def get(self, *, k: int = 1) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() == self.v + k)
        return self.v + k


def class_method(a: int) -> int:
    return K.make(a).v


def static_method(a: int, b: int) -> int:
    return K.add(b=a, a=b) + K.add(a, 5)


def static_via_object(a: int) -> int:
    return K(1).add(a, 2)


def static_field(a: int) -> int:
    return K.base + a


def constructor_default(a: int) -> int:
    return K().v * 10 + K(a).v + K(v=a).get(k=2)


def aug_field(a: int) -> int:
    k = K(a)
    k.v += 3
    k.v *= 2
    return k.v


def aug_list(a: int, b: int) -> int:
    l = [a, b]
    l[1] += a
    l[0] -= 1
    return l[0] * 10 + l[1]


def ifexp_effects(a: int) -> int:
    l = [0]
    x = bump(l, 1) if a > 0 else bump(l, 10)
    return l[0] * 100 + x


def bump(l: List[int], n: int) -> int:
    Requires(Acc(list_pred(l)) and len(l) == 1)
    Ensures(Acc(list_pred(l)) and len(l) == 1)
    Ensures(l[0] == Old(l[0]) + n)
    Ensures(Result() == l[0])
    l[0] = l[0] + n
    return l[0]


def arg_order(a: int) -> int:
    l = [0]
    return f3(bump(l, 1), bump(l, 2), l[0])


def kw_order(a: int) -> int:
    l = [0]
    return f3(c=bump(l, 1), a=bump(l, 2), b=l[0])


def nested_function_args(a: int, b: int) -> int:
    return f3(f3(a, b, 1), f3(b, a, 2), 3)


def multi_target(a: int) -> int:
    x = y = a + 1
    x += 1
    return x * 10 + y


def slice_list(a: int, b: int, c: int) -> int:
    l = [a, b, c]
    m = l[1:]
    n = l[:2]
    return m[0] * 100 + n[1] * 10 + len(m) + len(n)


def slice_step(a: int) -> int:
    l = [a, 1, 2, 3]
    m = l[1:3]
    return m[0] * 10 + m[1] + len(m)


def neg_index(a: int, b: int) -> int:
    t = (a, b)
    l = [a, b]
    return t[-1] * 10 + l[-2]


def in_tuple(a: int) -> bool:
    return a in (1, 2, 3)


def not_in_list(a: int) -> bool:
    return a not in [1, 2]


def str_concat(a: str, b: str) -> bool:
    return a + b == b + a


def chained(a: int, b: int, c: int) -> bool:
    return a < b <= c != a


def is_not(a: Optional[int]) -> bool:
    return a is not None and a == 3


def fvk(a: int, *args: int, k: int = 5) -> int:
    Requires(len(args) >= 1)
    Ensures(Result() == a * 100 + args[0] * 10 + k)
    return a * 100 + args[0] * 10 + k


def varargs_keyword(a: int, b: int, c: int) -> int:
    return fvk(a, b, k=c) + fvk(a, b) + fvk(a, b, c)


def varargs_order(a: int) -> int:
    l = [a]
    return fvk(1, l[0], k=bump(l, 2))


def args_order_field(a: int) -> int:
    l = [a]
    return f3(l[0], bump(l, 2), l[0])


def fkw(a: int, **kwargs: int) -> int:
    Requires('x' in kwargs)
    Ensures(Result() == a + Old(kwargs['x']))
    return a + kwargs['x']


def call_kwargs(a: int, b: int) -> int:
    return fkw(a, x=b, y=3)


def call_kwargs_missing(a: int, b: int) -> int:
    return fkw(a, y=3)


def tuple_order(a: int) -> int:
    l = [a]
    t = (l[0], bump(l, 2), l[0])
    return t[0] * 100 + t[1] * 10 + t[2]


def list_order(a: int) -> int:
    l = [a]
    t = [l[0], bump(l, 2), l[0]]
    return t[0] * 100 + t[1] * 10 + t[2]


def dict_order(a: int) -> int:
    l = [a]
    t = {1: l[0], 2: bump(l, 2), 3: l[0]}
    return t[1] * 100 + t[2] * 10 + t[3]


def op_order(a: int) -> int:
    l = [a]
    return l[0] * 10 + bump(l, 3)


def compare_order(a: int) -> bool:
    l = [a]
    return l[0] < bump(l, 3)


def sub_order(a: int) -> int:
    l = [0]
    m = [a, a + 1, a + 2]
    return m[l[0]] * 10 + m[bump(l, 1)] * 100 + m[l[0]]


def store_order(a: int) -> int:
    l = [0]
    m = [a, a + 1, a + 2]
    m[l[0]] = bump(l, 1)
    return m[0] * 10 + m[1]


def aug_order(a: int) -> int:
    l = [a]
    l[0] += bump(l, 3)
    return l[0]


def fakw(a: int, **kwargs: int) -> int:
    Requires('x' in kwargs)
    Ensures(Result() == a * 10 + Old(kwargs['x']))
    return a * 10 + kwargs['x']


def kwargs_order(a: int) -> int:
    l = [a]
    return fakw(x=bump(l, 1), a=bump(l, 2))


def kwargs_order_field(a: int) -> int:
    l = [a]
    return fakw(x=l[0], a=bump(l, 2))


def varargs_then_keyword(a: int, b: int) -> int:
    l = [a]
    return fvk(b, l[0], l[0], k=bump(l, 2))
