from nagini_contracts.contracts import *
from typing import Optional, List, Tuple, Union, Generic, TypeVar, Dict, Set


T = TypeVar('T')
V = TypeVar('V')


class A:
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        self.n = n  # type: int

    def get(self) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and Result() == self.n)
        return self.n

    def twice(self) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and Result() == self.n + self.n)
        return self.n + self.n


class B(A):
    pass


class C(B):
    def __init__(self, n: int, k: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        Ensures(Acc(self.k) and self.k == k)
        super().__init__(n)
        self.k = k  # type: int

    def both(self) -> int:
        Requires(Acc(self.n) and Acc(self.k))
        Ensures(Acc(self.n) and Acc(self.k) and Result() == self.n + self.k)
        return self.get() + self.k


class D(A):
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 7)
        A.__init__(self, 7)


class X:
    def __init__(self) -> None:
        pass


class X2(X):
    pass


class X3(X2):
    pass


class Y:
    pass


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


class E4(E2):
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        self.n = n  # type: int


class Box(Generic[T]):
    def __init__(self, v: T) -> None:
        Ensures(Acc(self.v) and self.v is v)
        self.v = v  # type: T

    def get(self) -> T:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() is self.v)
        return self.v

    def put(self, v: T) -> None:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v is v)
        self.v = v


class IntBox(Box[int]):
    def more(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() == self.v + 1)
        return self.v + 1


class Pair(Generic[T, V]):
    def __init__(self, a: T, b: V) -> None:
        Ensures(Acc(self.a) and self.a is a)
        Ensures(Acc(self.b) and self.b is b)
        self.a = a  # type: T
        self.b = b  # type: V


class S:
    k = 12  # type: int

    @staticmethod
    def add(a: int, b: int) -> int:
        Ensures(Result() == a + b)
        return a + b

    @classmethod
    def make(cls) -> int:
        Ensures(Result() == 3)
        return 3


class S2(S):
    pass


def pick(c: bool, d: bool) -> X:
    Ensures(Implies(c, isinstance(Result(), X2)))
    Ensures(Implies(c and d, isinstance(Result(), X3)))
    if c:
        if d:
            return X3()
        return X2()
    return X()


def pick_wrong(c: bool, d: bool) -> X:
    Ensures(isinstance(Result(), X2))
    if c:
        if d:
            return X3()
        return X2()
    return X()


def own(c: bool) -> bool:
    x = X2() if c else X()
    return isinstance(x, X)


def sub_of(c: bool) -> bool:
    x = X2() if c else X()  # type: X
    return isinstance(x, X2)


def sub_sub(c: bool, d: bool) -> int:
    x = pick(c, d)
    if isinstance(x, X3):
        return 3
    if isinstance(x, X2):
        return 2
    return 1


def parent_of_sub(c: bool, d: bool) -> Tuple[bool, bool, bool]:
    x = pick(c, d)
    return (isinstance(x, X), isinstance(x, X2), isinstance(x, X3))


def unrelated(c: bool) -> bool:
    x = X() if c else Y()  # type: object
    return isinstance(x, Y)


def unrelated2(c: bool) -> int:
    x = X3() if c else Y()  # type: object
    if isinstance(x, X2):
        return 1
    if isinstance(x, Y):
        return 2
    return 3


def of_object(c: bool) -> bool:
    x = X3() if c else Y()  # type: object
    return isinstance(x, object)


def int_or_class(c: bool, i: int) -> int:
    x = i if c else X()  # type: object
    if isinstance(x, int):
        return x + 1
    if isinstance(x, X):
        return 0
    return -1


def bool_is_int(c: bool, i: int) -> bool:
    x = True if c else X()  # type: object
    return isinstance(x, int)


def int_is_bool(c: bool, i: int) -> bool:
    x = i if c else True  # type: object
    return isinstance(x, bool)


def str_is_int(c: bool, i: int) -> bool:
    x = i if c else 'a'  # type: object
    return isinstance(x, int)


def str_or_list(c: bool, i: int) -> int:
    x = [i] if c else 'abc'  # type: object
    if isinstance(x, str):
        return 1
    if isinstance(x, list):
        return 2
    return 3


def tuple_kinds(c: bool, i: int) -> int:
    x = (i, i) if c else [i, i]  # type: object
    if isinstance(x, tuple):
        return 1
    return 2


def none_is(c: bool) -> bool:
    x = None if c else X()  # type: Optional[X]
    return isinstance(x, X)


def none_is_object(c: bool) -> bool:
    x = None if c else X()  # type: Optional[X]
    return isinstance(x, object)


def optional_narrow(i: Optional[int]) -> int:
    if i is None:
        return 0
    return i + 1


def optional_int(i: Optional[int]) -> bool:
    return isinstance(i, int)


def optional_box(c: bool, i: int) -> int:
    b = Box(i)  # type: Box[int]
    x = b if c else None  # type: Optional[Box[int]]
    if x is not None:
        return x.v
    return -1


def optional_deref(c: bool, i: int) -> int:
    b = Box(i)  # type: Box[int]
    x = b if c else None  # type: Optional[Box[int]]
    return x.v  #! fails if x is None


def optional_call(c: bool, i: int) -> int:
    x = A(i) if c else None  # type: Optional[A]
    return x.get()  #! fails if x is None


def inherited_constructor(n: int) -> int:
    b = B(n)
    return b.n


def inherited_method(n: int) -> int:
    b = B(n)
    return b.twice()


def inherited_twice(n: int, k: int) -> int:
    c = C(n, k)
    return c.twice() + c.both()


def explicit_constructor(n: int) -> int:
    d = D()
    return d.get() + n


def super_constructor(n: int, k: int) -> Tuple[int, int]:
    c = C(n, k)
    return (c.n, c.k)


def kinds_of_c(n: int, k: int) -> Tuple[bool, bool, bool, bool]:
    c = C(n, k)
    return (isinstance(c, A), isinstance(c, B), isinstance(c, C), isinstance(c, D))


def kinds_of_d() -> Tuple[bool, bool, bool]:
    d = D()
    return (isinstance(d, A), isinstance(d, B), isinstance(d, C))


def use_a(a: A) -> int:
    Requires(Acc(a.n))
    Ensures(Acc(a.n) and Result() == a.n + 1)
    return a.n + 1


def sub_as_arg(n: int, k: int) -> int:
    c = C(n, k)
    return use_a(c) + c.k


def use_b(a: A) -> int:
    Requires(isinstance(a, B))
    Requires(Acc(a.n))
    Ensures(Acc(a.n) and Result() == a.n)
    return a.n


def sub_required(n: int, c: bool) -> int:
    a = B(n) if c else A(n)  # type: A
    return use_b(a)


def sub_required_c(n: int, c: bool) -> int:
    a = C(n, 1) if c else D()  # type: A
    return use_b(a)


def narrow_and_use(n: int, k: int, c: bool) -> int:
    a = C(n, k) if c else A(n)  # type: A
    if isinstance(a, C):
        return a.both()
    return a.n


def narrow_negated(c: bool, d: bool) -> int:
    x = pick(c, d)
    if not isinstance(x, X2):
        return 1
    return 2


def narrow_and(c: bool, d: bool) -> int:
    x = pick(c, d)
    if isinstance(x, X2) and not isinstance(x, X3):
        return 1
    return 2


def assert_is_own(c: bool) -> int:
    x = X2()
    Assert(isinstance(x, X2))
    Assert(isinstance(x, X))
    return 1


def assert_not_sub(c: bool) -> int:
    x = X2()
    Assert(not isinstance(x, X3))
    return 1


def assert_wrong(c: bool) -> int:
    x = X2() if c else X()
    Assert(isinstance(x, X2))
    return 1


def param_of(x: object) -> int:
    Ensures(Implies(isinstance(x, int), Result() == 1))
    if isinstance(x, int):
        return 1
    return 2


def call_param_of(c: bool, i: int) -> int:
    return param_of(i if c else X())


def exc_hierarchy(n: int) -> int:
    try:
        if n == 0:
            raise E1()
        if n == 1:
            raise E2()
        if n == 2:
            raise E3()
        if n == 3:
            raise E4(n)
    except E2:
        return 10
    except E1:
        return 20
    except Exception:
        return 30
    return 40


def exc_order(n: int) -> int:
    try:
        if n == 0:
            raise E1()
        if n == 1:
            raise E2()
    except E1:
        return 20
    except E2:
        return 10
    return 40


def exc_value(n: int) -> int:
    try:
        raise E4(n)
    except E4 as e:
        return e.n


def exc_sub_declared(n: int) -> int:
    Ensures(n >= 0)
    Exsures(E1, n < 0)
    if n < 0:
        raise E4(n)
    return n


def exc_sub_caught(n: int) -> int:
    try:
        return exc_sub_declared(n)
    except E1:
        return -100


def exc_sub_missed(n: int) -> int:
    Exsures(E1, True)
    try:
        return exc_sub_declared(n)
    except E3:
        return -100


def exc_not_declared(n: int) -> int:
    Exsures(E2, n < 0)
    if n < 0:
        raise E1()
    return n


def box_int(i: int) -> int:
    b = Box(i)  # type: Box[int]
    return b.v + 1


def box_get(i: int) -> int:
    b = Box(i)  # type: Box[int]
    return b.get() + 1


def box_put(i: int, j: int) -> int:
    b = Box(i)  # type: Box[int]
    b.put(j)
    return b.v


def box_of_box(i: int) -> int:
    c = Box(i)  # type: Box[int]
    b = Box(c)  # type: Box[Box[int]]
    return b.v.v


def box_of_class(n: int) -> int:
    b = Box(A(n))  # type: Box[A]
    return b.v.n


def box_of_none(i: Optional[int]) -> int:
    b = Box(i)  # type: Box[Optional[int]]
    v = b.v
    if v is None:
        return 0
    return v


def int_box(i: int) -> int:
    b = IntBox(i)
    return b.more() + b.get()


def int_box_is(i: int) -> Tuple[bool, bool]:
    b = IntBox(i)
    return (isinstance(b, IntBox), isinstance(b, Box))


def box_is(i: int) -> Tuple[bool, bool]:
    b = Box(i)  # type: Box[int]
    return (isinstance(b, IntBox), isinstance(b, Box))


def pair_of(i: int, c: bool) -> int:
    p = Pair(i, c)  # type: Pair[int, bool]
    if p.b:
        return p.a
    return 0


def pair_swap(i: int, c: bool) -> int:
    p = Pair(i, c)  # type: Pair[int, bool]
    q = Pair(p.b, p.a)  # type: Pair[bool, int]
    if q.a:
        return q.b
    return 1


def pair_nested(i: int, j: int) -> int:
    c = Box(i)  # type: Box[int]
    d = Pair(j, True)  # type: Pair[int, bool]
    p = Pair(c, d)  # type: Pair[Box[int], Pair[int, bool]]
    return p.a.v - p.b.a


def static_on_class(a: int, b: int) -> int:
    return S.add(a, b)


def static_on_object(a: int, b: int) -> int:
    s = S()
    return s.add(a, b)


def static_on_subclass(a: int, b: int) -> int:
    return S2.add(a, b)


def class_method(a: int) -> int:
    return S.make() + a


def class_method_subclass(a: int) -> int:
    return S2.make() + a


def static_field() -> int:
    return S.k


#! weak (nothing is said about the field of S2)
def static_field_subclass() -> int:
    return S2.k


class Other:
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n - 1)
        self.n = n - 1  # type: int

    def get(self) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and Result() == self.n)
        return self.n


def union_of(c: bool, i: int) -> int:
    x = Other(i) if c else A(i)  # type: Union[Other, A]
    return x.n


def union_of_three(c: bool, d: bool, i: int) -> int:
    x = C(i, 2) if c else (A(i) if d else Other(i))  # type: Union[C, A, Other]
    return x.n + 1


def union_method(c: bool, i: int) -> int:
    x = Other(i) if c else A(i)  # type: Union[Other, A]
    return x.get()


def union_assign(c: bool, i: int) -> int:
    x = Other(i) if c else A(i)  # type: Union[Other, A]
    x.n = 5
    return x.n + x.get()


def union_other(x: Union[Other, A], y: Union[Other, A]) -> int:
    Requires(Acc(x.n, 1/2) and Acc(y.n, 1/2))
    Ensures(Acc(x.n, 1/2) and Acc(y.n, 1/2) and Result() == y.n + 1)
    z = x
    x = y
    return x.n + 1


def union_params(c: bool, d: bool, i: int, k: int) -> int:
    x = Other(i) if c else A(i)  # type: Union[Other, A]
    y = A(k) if d else Other(k)  # type: Union[Other, A]
    return union_other(x, y)


def union_set(x: Union[Other, A], k: int) -> None:
    Requires(Acc(x.n))
    Ensures(Acc(x.n) and x.n == k)
    x.n = k


def union_sets(c: bool, k: int) -> int:
    x = Other(0) if c else A(1)  # type: Union[Other, A]
    union_set(x, k)
    return x.n


def union_kinds(c: bool, i: int) -> int:
    x = Other(i) if c else i  # type: Union[Other, int]
    if isinstance(x, int):
        return 1
    if isinstance(x, Other):
        return 2
    return 3


def union_param(x: Union[int, str]) -> int:
    Ensures(Implies(isinstance(x, str), Result() == 0))
    if isinstance(x, int):
        return x
    return 0


def union_call(c: bool, i: int) -> int:
    return union_param(i if c else 'abc')


def type_of(c: bool) -> bool:
    x = X2() if c else X()
    return type(x) == X2


def type_not_super(c: bool) -> bool:
    x = X3() if c else X2()
    return type(x) == X


def type_of_same(c: bool) -> bool:
    x = X3() if c else X2()
    y = X2()
    return type(x) == type(y)


def type_of_int(i: int) -> bool:
    return type(i) == int


def type_of_bool(c: bool) -> bool:
    return type(c) == int


def list_of_subs(c: bool, n: int) -> int:
    l = [A(n), C(n, 1)]  # type: List[A]
    if isinstance(l[1], B):
        return l[0].n
    return 0


def list_index_kinds(n: int, k: int) -> bool:
    Requires(0 <= k and k < 3)
    l = [A(n), C(n, 1), D()]  # type: List[A]
    return isinstance(l[k], B)


def tuple_kinds_in(c: bool, n: int) -> bool:
    t = (X2(), X3()) if c else (X2(), X2())
    return isinstance(t[1], X3)


def field_kind(c: bool, n: int) -> bool:
    b = Box(pick(c, n > 0))  # type: Box[X]
    return isinstance(b.v, X3)


def equal_objects(c: bool) -> bool:
    x = X()
    y = x if c else X()
    return x is y


def equal_values(i: int, j: int) -> bool:
    a = A(i)
    b = A(j)
    return a is b


@Pure
def kind(x: X) -> int:
    if isinstance(x, X3):
        return 3
    if isinstance(x, X2):
        return 2
    return 1


def pure_kind(c: bool, d: bool) -> int:
    return kind(pick(c, d))


def pure_kind_assert(c: bool, d: bool) -> int:
    x = pick(c, d)
    Assert(kind(x) < 3)
    return kind(x)


def empty_class() -> bool:
    y = Y()
    return isinstance(y, Y)


def make(c: bool) -> X:
    Ensures(Implies(c, type(Result()) == X3))
    Ensures(Implies(not c, type(Result()) == X2))
    if c:
        return X3()
    return X2()


def type_of_call(c: bool) -> bool:
    return type(make(c)) == X3


def type_of_two_calls(c: bool, d: bool) -> bool:
    return type(make(c)) != type(make(d))


def type_is(c: bool, d: bool) -> bool:
    return type(make(c)) is type(make(d))


class Shadow:
    k = 5  # type: int
    m = 6  # type: int

    def __init__(self, k: int) -> None:
        Requires(k > 0)
        Ensures(Acc(self.v) and self.v == k)
        self.v = k  # type: int

    def add(self, m: int) -> int:
        Requires(Acc(self.v) and m > 0)
        Ensures(Acc(self.v) and Result() == self.v + m)
        return self.v + m

    def own(self, k: int) -> int:
        Ensures(Result() == k - self.k)
        m = k - Shadow.k
        return m

    @staticmethod
    def st(k: int) -> int:
        Requires(k > 0)
        Ensures(Result() == k + 1)
        m = k + 1
        return m

    @staticmethod
    def of_name(k: int) -> int:
        Ensures(Result() == of_name(k) + 1)
        return of_name(k) + 1

    @Pure
    def pur(self, m: int) -> int:
        Requires(m > 1)
        k = m + 1
        return k


@Pure
def of_name(m: int) -> int:
    return m + 4


def shadow_constructor(a: int) -> int:
    s = Shadow(a)
    return s.v


def shadow_method(a: int) -> int:
    s = Shadow(1)
    return s.add(a)


def shadow_own(a: int) -> int:
    s = Shadow(1)
    return s.own(a)


def shadow_static(a: int) -> int:
    return Shadow.st(a)


def shadow_function(a: int) -> int:
    return Shadow.of_name(a)


def shadow_pure(a: int) -> int:
    s = Shadow(1)
    return s.pur(a)


def shadow_local(k: int, m: int) -> int:
    Requires(k > m)
    Ensures(Result() == k - m)
    return k - m


def shadow_default(k: int) -> int:
    return Shadow.m + k


class Kinds:
    @staticmethod
    def of(x: object) -> int:
        Ensures(Implies(isinstance(x, X2), Result() == 2))
        if isinstance(x, X2):
            return 2
        return 1


def kinds_of(c: bool, d: bool) -> int:
    return Kinds.of(pick(c, d))


def same_named(c: bool, d: bool) -> Tuple[bool, bool]:
    x = pick(c, d)
    y = x
    return (x is y, isinstance(y, X2))


def default_arg(a: int, b: int = 4, *, c: int = 5) -> int:
    Ensures(Result() == a + b + c)
    return a + b + c


def call_default(a: int) -> int:
    return default_arg(a) + default_arg(a, c=1) + default_arg(a, 2) + default_arg(a=a, b=7)


class K1:
    z = 1  # type: int

    def m(self, z: int = z) -> int:
        Ensures(Result() == z)
        return z


def class_default(a: int) -> int:
    k = K1()
    return k.m() + k.m(a)


def both_defaults(a: int = 1, *, c: int = 2) -> int:
    Ensures(Result() == a * 10 + c)
    return a * 10 + c


def call_both_defaults(a: int) -> int:
    return both_defaults() + both_defaults(a) * 100 + both_defaults(c=a) * 10000 + both_defaults(a, c=4)


class S3(S2):
    k = 13  # type: int

    @staticmethod
    def add(a: int, b: int) -> int:
        Ensures(Result() == a + b)
        return b + a


class S4(S3):
    pass


def static_grandchild() -> Tuple[int, int]:
    return (S3.k, S.k)


def static_method_grandchild(a: int, b: int) -> int:
    return S3.add(a, b) + S4.add(a, b)


def static_of_object(c: bool) -> int:
    s = S3() if c else S()  # type: S
    return s.k
