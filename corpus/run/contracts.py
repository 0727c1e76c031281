from nagini_contracts.contracts import *
from typing import Optional, List, Tuple


class E(Exception):
    pass


class F(E):
    pass


class G(Exception):
    pass


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)
        self.v = v  # type: int

    def inc(self, n: int) -> int:
        Requires(Acc(self.v) and n > 0)
        Ensures(Acc(self.v) and self.v == Old(self.v) + n)
        Ensures(Result() == Old(self.v))
        r = self.v
        self.v = r + n
        return r

    def get(self) -> int:
        Requires(Acc(self.v, 1/2))
        Ensures(Acc(self.v, 1/2) and Result() == self.v)
        return self.v


class Picky:
    def __init__(self, v: int) -> None:
        Requires(v > 3)
        Ensures(Acc(self.v))
        self.v = v  # type: int


class Raising:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v))
        Ensures(v >= 0)
        Exsures(E, v < 0)
        if v < 0:
            raise E()
        self.v = v  # type: int


def needs_pos(a: int) -> int:
    Requires(a > 0)
    Ensures(Result() > a)
    return a + 1


def needs_two(a: int, b: int) -> int:
    Requires(a > b)
    Requires(b > 0)
    return a - b


@Pure
def half(a: int) -> int:
    Requires(a >= 0)
    Ensures(Result() >= 0)
    return a // 2


@Pure
def bad_pure(a: int) -> int:
    Ensures(Result() > 0)
    return a * 2


def post_of_pure(a: int) -> int:
    return bad_pure(a)


def pre_at_call(a: int) -> int:
    return needs_pos(a)


def pre_at_call_twice(a: int) -> int:
    return needs_pos(a) + needs_pos(a - 1)


def pre_two(a: int, b: int) -> int:
    return needs_two(a, b)


def pre_two_kw(a: int, b: int) -> int:
    return needs_two(b=a, a=b)


def pre_in_condition(a: int, b: bool) -> int:
    if b and needs_pos(a) > 3:
        return 1
    return 2


def pre_short_circuit(a: int) -> bool:
    return a <= 0 or half(a - 3) > 1


def pre_pure(a: int) -> int:
    return half(a) + half(a - 1)


def pre_pure_cond(a: int) -> int:
    return half(a) if a > -2 else 3


def pre_pure_in_contract(a: int) -> int:
    Requires(half(a) > 2)
    Ensures(Result() >= 0)
    return a - 6


def pre_pure_guarded(a: int) -> int:
    Requires(Implies(a >= 0, half(a) > 2))
    return a


def pre_ctor(a: int) -> int:
    p = Picky(a)
    return p.v


def pre_method(a: int) -> int:
    c = Cell(a)
    r = c.inc(a)
    return c.v * 2 + r


def pre_in_loop(a: int) -> int:
    i = a
    while i > -2:
        Invariant(i < 100)
        if i < 3:
            i = i - needs_pos(i) - 1
        else:
            i = 2
    return i


def own_pre(a: int, b: int) -> int:
    Requires(a > b)
    Requires(b > 2 or a == 7)
    Assert(a > 3)
    return a


def own_pre_unused(a: int) -> int:
    Requires(a == 3)
    Requires(a == 4)
    Assert(False)
    return a


def post_simple(a: int) -> int:
    Ensures(Result() > 3)
    return a


def post_two(a: int) -> int:
    Ensures(Result() > 3)
    Ensures(Result() < 8)
    return a + 1


def post_early(a: int, b: bool) -> int:
    Ensures(Result() > 3)
    if b:
        return a
    return 4


def post_end(a: int) -> None:
    Ensures(a > 3)
    b = a


def post_in_loop(a: int) -> int:
    Ensures(Result() != 2)
    i = 0
    while i < 3:
        if i == a:
            return i
        i += 1
    return 7


def post_in_try(a: int) -> int:
    Ensures(Result() > 0)
    try:
        if a > 3:
            raise E()
        return a
    except E:
        return a - 5


def post_finally(a: int) -> int:
    Ensures(Result() > 0)
    r = 0
    try:
        return a
    finally:
        r = 1


def post_finally_return(a: int) -> int:
    Ensures(Result() > 0)
    try:
        return a
    finally:
        if a > 3:
            return -a


def post_param(a: int) -> int:
    Ensures(Result() == a + 1)
    a = a + 1
    return a


def post_param_method(a: int, b: int) -> int:
    Ensures(Result() == a - b)
    c = a - b
    a = 3
    b = 4
    return c


def post_param_exc(a: int) -> int:
    Ensures(Result() == a)
    Exsures(E, a > 3)
    b = a
    a = 17
    if b > 5:
        raise E()
    return b


def post_old(a: int) -> int:
    c = Cell(a)
    return post_old_help(c, a)


def post_old_help(c: Cell, a: int) -> int:
    Requires(Acc(c.v))
    Ensures(Acc(c.v))
    Ensures(c.v > Old(c.v))
    Ensures(Result() == Old(c.v + c.v))
    r = c.v * 2
    c.v = c.v + a
    return r


def old_in_body(a: int) -> int:
    c = Cell(a)
    return old_in_body_help(c, a)


def old_in_body_help(c: Cell, a: int) -> int:
    Requires(Acc(c.v))
    Ensures(Acc(c.v))
    c.v = c.v + 1
    Assert(Old(c.v) == c.v - 1)
    c.v = c.v + a
    Assert(Old(c.v) < c.v)
    return c.v


def old_in_loop(a: int) -> int:
    c = Cell(a)
    return old_in_loop_help(c, a)


def old_in_loop_help(c: Cell, a: int) -> int:
    Requires(Acc(c.v))
    Ensures(Acc(c.v))
    i = 0
    while i < 3:
        Invariant(Acc(c.v))
        Invariant(c.v == Old(c.v) + i * 2)
        Invariant(i <= 3)
        i += 1
        c.v = c.v + (2 if a != 5 else i)
    return c.v


def old_of_two(a: int, b: int) -> int:
    c = Cell(a)
    d = Cell(b)
    swap(c, d)
    return c.v * 2 + d.v


def swap(c: Cell, d: Cell) -> None:
    Requires(Acc(c.v) and Acc(d.v))
    Ensures(Acc(c.v) and Acc(d.v))
    Ensures(c.v == Old(d.v) and d.v == Old(c.v))
    t = c.v
    c.v = d.v
    d.v = t


def old_wrong(a: int, b: int) -> int:
    c = Cell(a)
    d = Cell(b)
    half_swap(c, d)
    return c.v * 2 + d.v


def half_swap(c: Cell, d: Cell) -> None:
    Requires(Acc(c.v) and Acc(d.v))
    Ensures(Acc(c.v) and Acc(d.v))
    Ensures(c.v == Old(d.v))
    Ensures(d.v == Old(c.v))
    c.v = d.v
    d.v = c.v


def old_list(a: int) -> int:
    l = [a, 2]
    app(l, a)
    return l[2]


def app(l: List[int], a: int) -> None:
    Requires(list_pred(l))
    Ensures(list_pred(l))
    Ensures(len(l) == Old(len(l)) + 1)
    if a != 3:
        l.append(a)
    else:
        l.append(4)
        l.append(5)


def exs_declared(a: int) -> int:
    Ensures(a < 3)
    Exsures(E, a >= 3)
    if a >= 3:
        raise E()
    return a


def exs_wrong(a: int) -> int:
    Exsures(E, a > 3)
    if a >= 3:
        raise E()
    return a


def exs_undeclared(a: int) -> int:
    if a > 3:
        raise E()
    return a


def exs_undeclared_other(a: int) -> int:
    Exsures(E, True)
    if a > 3:
        raise G()
    if a > 2:
        raise E()
    return a


def exs_sub(a: int) -> int:
    Exsures(E, a > 2)
    if a > 1:
        raise F()
    return a


def exs_super_undeclared(a: int) -> int:
    Exsures(F, True)
    if a > 3:
        raise E()
    if a > 2:
        raise F()
    return a


def exs_two(a: int) -> int:
    Exsures(E, a > 2)
    Exsures(F, a > 4)
    if a > 3:
        raise F()
    if a > 1:
        raise E()
    return a


def exs_two_same(a: int) -> int:
    Exsures(E, a > 2)
    Exsures(E, a < 7)
    if a > 1:
        raise E()
    return a


def exs_disjoint(a: int) -> int:
    Exsures(E, a == 1)
    Exsures(G, a == 2)
    if a == 1:
        raise E()
    if a < 4 and a > 0:
        raise G()
    return a


def post_not_on_raise(a: int) -> int:
    Ensures(a < 3)
    Exsures(E, True)
    if a > 1:
        raise E()
    return a


def exs_not_on_return(a: int) -> int:
    Ensures(Result() == a)
    Exsures(E, a > 100)
    return a


def propagate_declared(a: int) -> int:
    Exsures(E, a >= 3)
    return exs_declared(a)


def propagate_undeclared(a: int) -> int:
    return exs_declared(a)


def propagate_weaker(a: int) -> int:
    Exsures(E, a >= 4)
    return exs_declared(a)


def propagate_caught(a: int) -> int:
    Ensures(Result() >= 0)
    try:
        return exs_declared(a)
    except E:
        return a - 3


def propagate_other(a: int) -> int:
    Exsures(E, a >= 4)
    try:
        exs_declared(a)
    except G:
        return 1
    return 2


def propagate_finally(a: int) -> int:
    Exsures(E, a >= 4)
    b = 0
    try:
        b = exs_declared(a)
    finally:
        b = b + 1
    return b


def propagate_expr(a: int, b: int) -> int:
    Exsures(E, a >= 3 or b >= 4)
    return exs_declared(a) + exs_declared(b)


def propagate_ctor(a: int) -> int:
    Exsures(E, a < -1)
    r = Raising(a)
    return r.v


def propagate_ctor_caught(a: int) -> int:
    try:
        r = Raising(a)
        return r.v
    except E:
        return -a


def raise_in_handler(a: int) -> int:
    Exsures(G, a > 3)
    try:
        return exs_declared(a)
    except E:
        raise G()


def inv_entry(a: int) -> int:
    i = a
    while i < 3:
        Invariant(i >= 0)
        i += 1
        if i < -2:
            i = 3
    return i


def inv_kept(a: int) -> int:
    i = 0
    while i < 4:
        Invariant(i < 5)
        Invariant(i != a)
        i += 1
    return i


def inv_last(a: int) -> int:
    i = 0
    while i < 3:
        Invariant(i < 3 or a > 2)
        i += 1
    return i


def inv_break(a: int) -> int:
    i = 0
    while True:
        Invariant(i < 3)
        i += 1
        if i == 3:
            break
    return i + a


def inv_continue(a: int) -> int:
    i = 0
    s = 0
    while i < 4:
        Invariant(s <= 7)
        Invariant(i >= 0)
        i += 1
        if i == a:
            s = s + 5
            continue
        s = s + 1
    return s


def inv_zero(a: int) -> int:
    i = 0
    while i > 3:
        Invariant(a > 2)
        i += 1
    return i


def inv_two(a: int, b: int) -> int:
    i = 0
    while i < 2:
        Invariant(a > 2)
        Invariant(b > a)
        i += 1
    return i


def inv_for(a: int) -> int:
    s = 0
    for x in [1, 2, 4]:
        Invariant(s < a)
        s += x
    return s


def inv_for_range(a: int) -> int:
    s = 0
    for x in range(0, 3):
        Invariant(s != a)
        s += x + 1
    return s


def inv_for_empty(a: int) -> int:
    l = []  # type: List[int]
    for x in l:
        Invariant(a > 2)
        a = a + x
    return a


def inv_nested(a: int) -> int:
    i = 0
    s = 0
    while i < 2:
        Invariant(s <= a)
        Invariant(i <= 2)
        j = 0
        while j < 2:
            Invariant(j <= 2)
            Invariant(s < 4 + i)
            s += 1
            j += 1
        i += 1
    return s


def inv_nested_inner(a: int) -> int:
    i = 0
    while i < 2:
        Invariant(i <= 2)
        j = i
        while j < 3:
            Invariant(j != a)
            j += 1
        i += 1
    return i


def inv_pure(a: int) -> int:
    i = a
    while i < 3:
        Invariant(half(i) < 2)
        i += 1
    return i


def inv_previous(a: int) -> int:
    s = 0
    for x in [a, a + 1, 7]:
        Invariant(len(Previous(x)) < 4)
        Invariant(s == 0 or len(Previous(x)) > 0)
        s += x
    return s


def assert_contract(a: int) -> int:
    Assert(a > 3)
    return a


def assert_python(a: int) -> int:
    assert a > 3
    return a


def assert_message(a: int) -> int:
    assert a > 3, 'message'
    return a


def assert_in_branch(a: int, b: bool) -> int:
    if b:
        Assert(a > 3)
    else:
        assert a < 5
    return a


def assert_after_return(a: int) -> int:
    if a > 3:
        return 1
    Assert(a < 3)
    return 2


def assert_in_try(a: int) -> int:
    try:
        if a > 4:
            raise E()
        Assert(a < 3)
    except E:
        Assert(a != 9)
    finally:
        Assert(a != 2)
    return 1


def assert_in_handler_var(a: int) -> int:
    b = 1
    try:
        b = 2
        if a > 3:
            b = 3
            raise E()
        b = 4
    except E:
        Assert(b == 3)
        Assert(a != 8)
    Assert(b != 4 or a <= 3)
    return b


def assert_implies(a: int, b: int) -> int:
    Assert(Implies(a > 0, b > 0))
    return a


def assert_and(a: int, b: int) -> int:
    Assert(a > 0 and b > 0)
    return a


def assert_or(a: int, b: int) -> int:
    Assert(a > 0 or b > 0)
    return a


def assert_not(a: int) -> int:
    Assert(not (a > 3 and a < 7))
    return a


def assert_cond(a: int, b: int) -> int:
    Assert(a > 0 if b > 0 else a < 0)
    return a


def assert_chain(a: int, b: int) -> int:
    Assert(0 < a < b)
    return a


def forall_list(a: int) -> int:
    l = [a, 2, 3]
    Assert(Forall(l, lambda x: x > 1))
    return a


def forall_int(a: int) -> int:
    Assert(Forall(int, lambda x: Implies(x > 0 and x < 3, x + a > 2)))
    return a


def forall_index(a: int) -> int:
    l = [1, a, 3]
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < len(l), l[i] > 0)))
    return a


def forall_two(a: int) -> int:
    Assert(Forall(int, lambda x: Implies(x > 0 and x < 3, Forall(int, lambda y: Implies(y > 0 and y < x, y + a > x)))))
    return a


def exists_int(a: int) -> int:
    Assert(Exists(int, lambda x: x > 0 and x < 3 and x == a))
    return a


def exists_list(a: int) -> int:
    l = [a, 2, 3]
    Assert(Exists(l, lambda x: x == 7))
    return a


def forall_contract(a: int) -> int:
    Requires(Forall(int, lambda x: Implies(x > 0 and x < 3, x < a)))
    Ensures(Result() > 2)
    return a


def call_forall(a: int) -> int:
    return forall_contract(a)


def let_(a: int) -> int:
    Assert(Let(a + 1, bool, lambda x: x * x > 3))
    return a


def result_type(a: int) -> Optional[int]:
    Ensures(Implies(a > 0, Result() is not None))
    Ensures(Implies(a < 5, Result() is None))
    if a > 2:
        return a
    return None


def result_tuple(a: int) -> Tuple[int, int]:
    Ensures(Result()[0] > 3)
    Ensures(Result()[1] == a)
    return a * 2, a


def result_none(a: int) -> None:
    Ensures(a > 2)
    return


def optional_param(a: Optional[int]) -> int:
    Requires(a is not None)
    Ensures(Result() != 4)
    return a + 1


def call_optional(a: Optional[int]) -> int:
    return optional_param(a)


def defaults(a: int, b: int = 3) -> int:
    Requires(a > b)
    Ensures(Result() == a * 2 + b)
    return a * 2 + b


def call_default(a: int) -> int:
    return defaults(a)


def call_default_given(a: int) -> int:
    return defaults(a, 5) + defaults(b=1, a=a)


def contract_calls(a: int) -> int:
    Requires(half(4) == 2)
    Requires(a > half(10))
    Ensures(Result() > half(a + 4))
    return a


def many(a: int, b: int, c: int) -> int:
    Requires(a > 0)
    Requires(b > a)
    Requires(c > b)
    Ensures(Result() > 2)
    Ensures(Result() > a)
    Ensures(Result() != 12)
    return a + b


def call_many(a: int, b: int) -> int:
    return many(a, b, 5)


def requires_and_raises(a: int) -> int:
    Requires(a > -4)
    Ensures(Result() > 0)
    Exsures(E, a <= 0)
    if a < 0:
        raise E()
    return a


def call_rar(a: int) -> int:
    Exsures(E, a < 0)
    return requires_and_raises(a)


def loop_return_post(a: int) -> int:
    Ensures(Result() > 1)
    for x in [1, 2, 3]:
        if x > a:
            return x
    return 5


def loop_raise(a: int) -> int:
    Exsures(E, a > 1)
    for x in [1, 2, 3]:
        if x == a:
            raise E()
    return 5


class Base:
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 1)
        self.n = 1  # type: int

    def m(self, a: int) -> int:
        Requires(Acc(self.n) and a > 3)
        Ensures(Acc(self.n) and self.n > Old(self.n) and Result() > 0)
        self.n = self.n + a - 2
        return self.n - 3

    @property
    def prop(self) -> int:
        Requires(Acc(self.n))
        Ensures(Result() > 0)
        return self.n

    @prop.setter
    def prop(self, v: int) -> None:
        Requires(Acc(self.n) and v > 4)
        Ensures(Acc(self.n) and self.n == v - 4)
        self.n = v - 4

    @staticmethod
    def st(a: int) -> int:
        Requires(a > 2)
        Ensures(Result() > 7)
        return a * 2

    @classmethod
    def cl(cls, a: int) -> int:
        Requires(a > 2)
        Ensures(Result() > 7)
        return a * 2


class Derived(Base):
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 1)
        self.n = 1

    def m(self, a: int) -> int:
        Requires(Acc(self.n) and a > 2)
        Ensures(Acc(self.n) and self.n > Old(self.n) and Result() > 0)
        self.n = self.n + a
        return self.n


def method_contract(a: int) -> int:
    b = Base()
    return b.m(a)


def method_contract_derived(a: int) -> int:
    b = Derived()
    return b.m(a)


def prop_contract(a: int) -> int:
    b = Base()
    b.prop = a
    return b.prop * 2


def prop_get_contract(a: int) -> int:
    b = Base()
    b.n = a
    return b.prop


def static_contract(a: int) -> int:
    return Base.st(a)


def class_contract(a: int) -> int:
    return Base.cl(a)


def static_on_object(a: int) -> int:
    b = Derived()
    return b.st(a)


@Inline
def inl(a: int) -> int:
    Assert(a != 3)
    return a + 1


def inline_assert(a: int) -> int:
    return inl(a) + inl(a + 1)


class Up:
    def __init__(self) -> None:
        Ensures(Acc(self.k) and self.k == 1)
        if isinstance(self, Down):
            self.k = 2  # type: int
        else:
            self.k = 1

    def which(self, a: int) -> int:
        Ensures(Result() == a)
        if isinstance(self, Side):
            return a + 1
        return a


class Down(Up):
    pass


class Side(Up):
    def __init__(self) -> None:
        pass

    def which(self, a: int) -> int:
        Ensures(Result() == a)
        return super().which(a)


def exact_init(a: int) -> int:
    d = Down()
    return d.k + a


def exact_super(a: int) -> int:
    s = Side()
    return s.which(a)
