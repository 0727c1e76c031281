from nagini_contracts.contracts import *
from typing import Optional, List, Set, Dict, Tuple


class C:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and Acc(self.w) and Acc(self.nx))
        Ensures(self.v == v and self.w == 2 and self.nx is None)
        self.v = v  # type: int
        self.w = 2  # type: int
        self.nx = None  # type: Optional[C]


class P:
    def __init__(self, v: int) -> None:
        Ensures(self.inv())
        self.a = v  # type: int
        self.b = v  # type: int
        Fold(self.inv())

    @Predicate
    def inv(self) -> bool:
        return Acc(self.a) and Acc(self.b) and self.a <= self.b

    def up(self, n: int) -> None:
        Requires(self.inv())
        Ensures(self.inv())
        Unfold(self.inv())
        self.b = self.b + n
        Fold(self.inv())


# ------------------------------------------------ what callees take and give back
def reads(c: C) -> int:
    Requires(Acc(c.v, 1/2))
    Ensures(Acc(c.v, 1/2))
    return c.v


def takes(c: C) -> None:
    Requires(Acc(c.v))
    c.v = 4


def takes_half(c: C) -> None:
    Requires(Acc(c.v, 1/2))


def takes_if(c: C, b: bool) -> None:
    Requires(Implies(b, Acc(c.v)))


def takes_one_of(c: C, b: bool) -> None:
    Requires(Acc(c.v) if b else Acc(c.w))


def takes_both(c: C) -> None:
    Requires(Acc(c.v) and Acc(c.w))


def gives_if(c: C, b: bool) -> None:
    Requires(Acc(c.v))
    Ensures(Implies(b, Acc(c.v)))
    c.v = 3


def gives_one(c: C) -> None:
    Requires(Acc(c.v) and Acc(c.w))
    Ensures(Acc(c.w))


def gives_none_but_claims(c: C) -> None:
    Ensures(Acc(c.v))  #! fails


# ------------------------------------------------ fields
def field_rw(a: int) -> int:
    c = C(a)
    c.v = c.v + 1
    c.w = c.v
    return c.w


def after_takes(a: int) -> int:
    c = C(a)
    takes(c)
    x = c.w
    if a > 3:
        x = c.v  #! fails
    return x


def write_after_takes(a: int) -> int:
    c = C(a)
    takes(c)
    c.w = 4
    if a > 3:
        c.v = 2  #! fails
    return c.w


def after_half(a: int) -> int:
    c = C(a)
    takes_half(c)
    x = c.v
    if a > 3:
        c.v = 2  #! fails
    return x


def after_two_halves(a: int) -> int:
    c = C(a)
    takes_half(c)
    takes_half(c)
    if a > 3:
        return c.v  #! fails
    return 1


def third_half(a: int) -> int:
    c = C(a)
    takes_half(c)
    takes_half(c)
    if a > 3:
        takes_half(c)  #! fails
    return 1


def reads_keeps(a: int) -> int:
    c = C(a)
    x = reads(c)
    y = reads(c)
    c.v = 5
    return x + y


def reads_after_takes(a: int) -> int:
    c = C(a)
    takes(c)
    if a > 0:
        return reads(c)  #! fails
    return 2


def cond_taken(a: int, b: bool) -> int:
    c = C(a)
    takes_if(c, b)
    if not b:
        c.v = 4
        return c.v
    if a > 3:
        c.v = 5  #! fails
    return 2


def cond_read(a: int, b: bool) -> int:
    c = C(a)
    takes_if(c, b)
    if a > 3 and b:
        return c.v  #! fails
    return c.w


def one_of(a: int, b: bool) -> int:
    c = C(a)
    takes_one_of(c, b)
    if b:
        c.w = 4
        if a == 1:
            c.v = 3  #! fails
    else:
        c.v = 4
        if a == 2:
            c.w = 3  #! fails
    return a


def both_taken(a: int) -> int:
    c = C(a)
    takes_both(c)
    c.nx = None
    if a == 1:
        return c.v  #! fails
    if a == 2:
        return c.w  #! fails
    return 0


def cond_given(a: int, b: bool) -> int:
    c = C(a)
    gives_if(c, b)
    if b:
        return c.v * 0
    if a > 2:
        c.v = 1  #! fails
    return 3


def one_given(a: int) -> int:
    c = C(a)
    gives_one(c)
    c.w = a
    if a == 3:
        c.v = 1  #! fails
    return c.w


def claims(a: int) -> int:
    c = C(a)
    takes(c)
    if a > 3:
        gives_none_but_claims(c)
    return 3


def claims_too_much(a: int) -> int:
    c = C(a)
    if a > 3:
        too_much(c)
    return c.v


def too_much(c: C) -> None:
    Requires(Acc(c.v, 1/2))
    Ensures(Acc(c.v))  #! fails


def claims_cond(a: int, b: bool) -> int:
    c = C(a)
    cond_too_much(c, b, a)
    return 0


def cond_too_much(c: C, b: bool, a: int) -> None:
    Requires(Implies(b, Acc(c.v)))
    Ensures(Implies(a > 3, Acc(c.w)))  #! fails if a > 3


def aliased_args(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    if a > 3:
        d = c
    if d is not c:
        both_args(c, d)
        return 2
    both_args(c, d)  #! fails
    return 3


def both_args(c: C, d: C) -> None:
    Requires(Acc(c.v) and Acc(d.v))
    Ensures(Acc(c.v) and Acc(d.v))
    c.v = 1
    d.v = 2


def aliased_halves(a: int) -> int:
    c = C(a)
    d = c if a > 2 else C(7)
    half_args(c, d)
    c.v = 8
    return c.v


def half_args(c: C, d: C) -> None:
    Requires(Acc(c.v, 1/2) and Acc(d.v, 1/2))
    Ensures(Acc(c.v, 1/2) and Acc(d.v, 1/2))


def different_objects(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    takes(c)
    d.v = d.v + 1
    if a == 3:
        return c.v  #! fails
    return d.v


def fractions(a: int) -> int:
    c = C(a)
    third(c)
    x = c.v
    two_thirds(c)
    if a > 0:
        return c.v  #! fails
    return x


def third(c: C) -> None:
    Requires(Acc(c.v, 1/3))


def two_thirds(c: C) -> None:
    Requires(Acc(c.v, 2/3))


def fractions_write(a: int) -> int:
    c = C(a)
    third(c)
    if a > 0:
        c.v = 2  #! fails
    return c.v


def fractions_too_much(a: int) -> int:
    c = C(a)
    third(c)
    if a > 0:
        third(c)
        two_thirds(c)  #! fails
    return c.w


def old_needs_permission(a: int) -> int:
    c = C(a)
    old_ok(c)
    return a


def old_ok(c: C) -> None:
    Requires(Acc(c.v))
    Ensures(Old(c.v) == Old(c.v))
    c.v = 3


def contract_needs_permission(a: int) -> int:
    if a > 3:
        c = C(a)
        ill_formed(c)
    return a


def ill_formed(c: C) -> None:
    Requires(c.v > 0)  #! fails


def assert_perm(a: int) -> int:
    c = C(a)
    Assert(Acc(c.v))
    takes_half(c)
    Assert(Acc(c.v, 1/2))
    if a > 3:
        Assert(Acc(c.v))  #! fails
    return a


def assert_perm_cond(a: int, b: bool) -> int:
    c = C(a)
    if b:
        takes(c)
    Assert(Implies(not b, Acc(c.v)))
    if a > 3 and b:
        Assert(Implies(b, Acc(c.v)))  #! fails
    return a


def assert_keeps(a: int) -> int:
    c = C(a)
    Assert(Acc(c.v))
    Assert(Acc(c.v) and c.v == a)
    c.v = 3
    return c.v


def aug_perm(a: int) -> int:
    c = C(a)
    c.v += 2
    takes_half(c)
    if a > 3:
        c.v += 1  #! fails
    return c.v


def linked(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    c.nx = d
    x = c.nx.v
    takes(d)
    if a > 3:
        return c.nx.v  #! fails
    return x


def linked_contract(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    if a > 2:
        c.nx = d
    r = follow(c)
    d.v = 2
    return r


def follow(c: C) -> int:
    Requires(Acc(c.nx, 1/2))
    Requires(Implies(c.nx is not None, Acc(c.nx.v, 1/2)))
    Ensures(Acc(c.nx, 1/2))
    Ensures(Implies(c.nx is not None, Acc(c.nx.v, 1/2)))
    n = c.nx
    if n is not None:
        return n.v
    return 0


# ------------------------------------------------ loops
def loop_keeps(a: int) -> int:
    c = C(a)
    i = 0
    while i < 3:
        Invariant(Acc(c.v))
        c.v = c.v + 1
        i += 1
    c.w = 3
    return c.v


def loop_without(a: int) -> int:
    c = C(a)
    takes(c)
    i = 0
    while i < 2:
        Invariant(Acc(c.w))
        i += 1
        if a > 3:
            c.v = 2  #! fails
    return c.w


def loop_loses(a: int) -> int:
    c = C(a)
    i = 0
    while i < 2:
        Invariant(Implies(i == 0, Acc(c.v)))
        i += 1
        if a > 3:
            takes(c)
    if a <= 3:
        return i
    return c.v  #! fails


def loop_half(a: int) -> int:
    c = C(a)
    i = 0
    while i < 2:
        Invariant(Acc(c.v, 1/2))
        i += c.v - c.v + 1
    c.v = i
    return c.v


def loop_cond(a: int, b: bool) -> int:
    c = C(a)
    takes_if(c, b)
    i = 0
    while i < 2:
        Invariant(Implies(not b, Acc(c.v)))
        i += 1
        if not b:
            c.v = i
    if b and a == 2:
        return c.v  #! fails
    return i


# ------------------------------------------------ lists, sets, dicts
def takes_list(l: List[int]) -> None:
    Requires(list_pred(l))


def reads_list(l: List[int]) -> int:
    Requires(Acc(list_pred(l), 1/2))
    Ensures(Acc(list_pred(l), 1/2))
    return len(l)


def takes_half_list(l: List[int]) -> None:
    Requires(Acc(list_pred(l), 1/2))


def takes_set(s: Set[int]) -> None:
    Requires(set_pred(s))


def takes_dict(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))


def list_perm(a: int) -> int:
    l = [a, 2]
    l.append(3)
    x = reads_list(l)
    l[0] = x
    takes_list(l)
    if a > 3:
        return l[0]  #! fails
    return x


def list_perm_half(a: int) -> int:
    l = [a, 2]
    takes_half_list(l)
    x = l[0]
    if a > 3:
        l.append(4)  #! fails
    if a == 2:
        l[0] = 4  #! fails
    return x


def list_perm_len(a: int) -> int:
    l = [a, 2]
    takes_list(l)
    if a > 3:
        return len(l)  #! fails
    return 2


def list_perm_in(a: int) -> int:
    l = [a, 2]
    takes_list(l)
    if a > 3:
        if 2 in l:  #! fails
            return 1
    return 2


def list_perm_iter(a: int) -> int:
    l = [a, 2]
    s = 0
    takes_list(l)
    if a > 3:
        for x in l:  #! fails
            s += x
    return 2


def set_perm(a: int) -> int:
    s = {a, 2}
    s.add(3)
    takes_set(s)
    if a > 3:
        s.add(4)  #! fails
    if a == 2:
        return len(s)  #! fails
    return 2


def dict_perm(a: int) -> int:
    d = {1: a, 2: 2}
    d[3] = 4
    takes_dict(d)
    if a > 3:
        d[2] = 4  #! fails
    if a == 2:
        return d[2]  #! fails
    return 2


def list_of_objects(a: int) -> int:
    c = C(a)
    l = [c]
    takes_objects(l)
    c.v = 3
    return c.v


def takes_objects(l: List[C]) -> None:
    Requires(list_pred(l))


def iter_perm(a: int) -> int:
    l = [a, 2]
    s = 0
    for x in l:
        if a > 3:
            l.append(2)  #! fails
        s += x
    l.append(1)
    return s


# ------------------------------------------------ predicates
@Predicate
def pair(c: C) -> bool:
    return Acc(c.v) and Acc(c.w) and c.v >= c.w


@Predicate
def maybe(c: C, b: bool) -> bool:
    return Implies(b, Acc(c.v))


@Predicate
def bounded(c: C, n: int) -> bool:
    return Acc(c.v) and c.v < n


@Predicate
def chain(c: C) -> bool:
    return Acc(c.v) and Acc(c.nx) and Implies(c.nx is not None, chain(c.nx))


def takes_pair(c: C) -> None:
    Requires(pair(c))


def half_pair(c: C) -> int:
    Requires(Acc(pair(c), 1/2))
    Ensures(Acc(pair(c), 1/2))
    return Unfolding(Acc(pair(c), 1/2), c.v)


def fold_unfold(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    Unfold(pair(c))
    c.v = c.v + c.w
    return c.v


def fold_value(a: int) -> int:
    c = C(a)
    if a < 2:
        Fold(pair(c))  #! fails
    else:
        Fold(pair(c))
    return a


def fold_takes(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    if a > 5:
        return c.v  #! fails
    if a > 4:
        c.w = 2  #! fails
    return 1


def fold_twice(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    if a > 5:
        Fold(pair(c))  #! fails
    return 1


def unfold_without(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    if a < 5:
        Fold(pair(c))
        Unfold(pair(c))
    else:
        Unfold(pair(c))  #! fails
    return c.v


def unfold_twice(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    Unfold(pair(c))
    if a > 6:
        Unfold(pair(c))  #! fails
    return c.v


def fold_without_permission(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    takes_half(c)
    if a > 3:
        Fold(pair(c))  #! fails
    return c.v


def pred_given(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    takes_pair(c)
    if a > 3:
        Unfold(pair(c))  #! fails
    return 1


def pred_other_object(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    d = C(a)
    Fold(pair(c))
    takes_pair(c)
    Fold(pair(d))
    Unfold(pair(d))
    if a > 3:
        Unfold(pair(c))  #! fails
    return d.v


def pred_half(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    x = half_pair(c)
    Unfold(pair(c))
    c.v = 3
    return x


def fold_half(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(Acc(pair(c), 1/2))
    x = c.v
    if a > 7:
        c.v = 5  #! fails
    Unfold(Acc(pair(c), 1/2))
    c.v = 5
    return x


def fold_half_given(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(Acc(pair(c), 1/2))
    if a > 7:
        takes_pair(c)  #! fails
    return c.v


def unfold_half(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    Unfold(Acc(pair(c), 1/2))
    x = c.v
    if a > 7:
        c.v = 4  #! fails
    return x


def unfolding_expr(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    x = Unfolding(pair(c), c.v + c.w)
    if a > 6:
        return c.v  #! fails
    return x


def unfolding_without(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    if a > 3:
        return Unfolding(pair(c), c.v)  #! fails
    return 1


def unfolding_contract(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    return more(c)


def more(c: C) -> int:
    Requires(pair(c))
    Ensures(pair(c))
    Ensures(Unfolding(pair(c), c.v) == Old(Unfolding(pair(c), c.v)) + 1)
    Unfold(pair(c))
    c.v += 1
    r = c.v
    Fold(pair(c))
    return r


def pred_body_assumed(a: int) -> int:
    Requires(a >= 2)
    c = C(a)
    Fold(pair(c))
    return opened(c)


def opened(c: C) -> int:
    Requires(pair(c))
    Ensures(Result() >= 0)
    Unfold(pair(c))
    return c.v - c.w


def pred_cond(a: int, b: bool) -> int:
    c = C(a)
    takes_if(c, not b)
    Fold(maybe(c, b))
    if b and a > 3:
        c.v = 1  #! fails
    Unfold(maybe(c, b))
    if b:
        c.v = 3
        return c.v
    if a == 5:
        c.v = 3  #! fails
    return 2


def pred_cond_missing(a: int, b: bool) -> int:
    c = C(a)
    takes(c)
    if b and a > 3:
        Fold(maybe(c, b))  #! fails
    if not b:
        Fold(maybe(c, b))
    return 2


def pred_arg(a: int, n: int) -> int:
    c = C(a)
    if a < n:
        Fold(bounded(c, n))
        Unfold(bounded(c, n))
        return c.v
    Fold(bounded(c, n))  #! fails
    return 2


def pred_arg_other(a: int, n: int, m: int) -> int:
    Requires(a < n)
    c = C(a)
    Fold(bounded(c, n))
    if m == n:
        Unfold(bounded(c, m))
        return c.v
    Unfold(bounded(c, m))  #! fails
    return 2


def pred_chain(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    c.nx = d
    Fold(chain(d))
    Fold(chain(c))
    r = second(c)
    Unfold(chain(c))
    if a > 3:
        return d.v  #! fails
    return r


def pred_chain_missing(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    c.nx = d
    if a > 3:
        Fold(chain(c))  #! fails
    else:
        c.nx = None
        Fold(chain(c))
    return d.v


def second(c: C) -> int:
    Requires(chain(c))
    Ensures(chain(c))
    r = 0
    Unfold(chain(c))
    if c.nx is not None:
        Unfold(chain(c.nx))
        r = c.nx.v
        Fold(chain(c.nx))
    Fold(chain(c))
    return r


def method_pred(a: int, n: int) -> int:
    p = P(a)
    if n >= 0:
        p.up(n)
    Unfold(p.inv())
    return p.b - p.a


def method_pred_broken(a: int, n: int) -> int:
    p = P(a)
    Unfold(p.inv())
    p.b = p.b + n
    if n < 0:
        Fold(p.inv())  #! fails
    else:
        Fold(p.inv())
    return 2


def method_pred_field(a: int) -> int:
    p = P(a)
    if a > 3:
        return p.a  #! fails
    return 3


# ------------------------------------------------ pure functions
@Pure
def total(c: C) -> int:
    Requires(Acc(c.v, 1/2) and Acc(c.w, 1/2))
    return c.v + c.w


@Pure
def of_pair(c: C) -> int:
    Requires(Acc(pair(c), 1/2))
    Ensures(Result() >= 0)
    return Unfolding(Acc(pair(c), 1/2), c.v - c.w)


@Pure
def unpermitted(c: C) -> int:
    return c.v  #! fails


def pure_perm(a: int) -> int:
    c = C(a)
    x = total(c)
    c.v = 9
    takes(c)
    if a > 3:
        return total(c)  #! fails
    return x


def pure_half(a: int) -> int:
    c = C(a)
    takes_half(c)
    return total(c)


def pure_pred(a: int) -> int:
    Requires(a > 1)
    c = C(a)
    Fold(pair(c))
    x = of_pair(c)
    Unfold(pair(c))
    if a > 3:
        return of_pair(c)  #! fails
    return x


def pure_unpermitted(a: int) -> int:
    c = C(a)
    if a > 3:
        return unpermitted(c)
    return 2


# ------------------------------------------------ quantified permissions
def takes_all(l: List[C]) -> None:
    Requires(Acc(list_pred(l), 1/2))
    Requires(Forall(l, lambda x: Acc(x.v)))
    Ensures(Acc(list_pred(l), 1/2))


def borrows_all(l: List[C], n: int) -> None:
    Requires(Acc(list_pred(l), 1/2))
    Requires(Forall(l, lambda x: Acc(x.v)))
    Ensures(Acc(list_pred(l), 1/2))
    Ensures(Forall(l, lambda x: Acc(x.v)))


def takes_indexed(l: List[C], n: int) -> None:
    Requires(Acc(list_pred(l), 1/2))
    Requires(Forall(int, lambda i: Implies(i >= 0 and i < n and i < len(l), Acc(l[i].v))))
    Ensures(Acc(list_pred(l), 1/2))


def forall_taken(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    e = C(a + 2)
    takes_all([c, d])
    e.v = 3
    if a == 2:
        return c.v  #! fails
    if a == 3:
        return d.v  #! fails
    return c.w + e.v


def forall_borrowed(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    borrows_all([c, d], a)
    c.v = 3
    d.v = 5
    return c.v + d.v


def forall_missing(a: int) -> int:
    c = C(a)
    d = C(a + 1)
    takes(d)
    if a > 4:
        takes_all([c, d])  #! fails
    else:
        takes_all([c])
    return c.w


def forall_index(a: int, b: bool, e: bool) -> int:
    n = 0 if b else 1 if e else 2
    c = C(a)
    d = C(a + 1)
    takes_indexed([c, d], n)
    if n < 2:
        d.v = 2
    else:
        if a == 4:
            d.v = 3  #! fails
    if n < 1:
        c.v = 2
    else:
        if a == 3:
            c.v = 3  #! fails
    return c.w


# ------------------------------------------------ fields that may not exist yet
class Late:
    def __init__(self, b: bool) -> None:
        Ensures(Implies(b, Acc(self.x) and self.x == 1))
        Ensures(Implies(not b, MaySet(self, 'x')))
        if b:
            self.x = 1  # type: int

    def put(self, v: int) -> None:
        Requires(MaySet(self, 'x'))
        Ensures(Acc(self.x) and self.x == v)
        self.x = v


def late(a: int, b: bool) -> int:
    l = Late(b)
    if not b:
        if a > 4:
            return l.x  #! fails
        l.put(a)
    return l.x


def late_put(a: int, b: bool) -> int:
    l = Late(b)
    l.put(a)
    l.x = l.x + 1
    return l.x


class Missing:
    def __init__(self, b: bool) -> None:
        Ensures(Acc(self.x))
        self.y = 1  # type: int
        if b:
            self.x = 1  # type: int
        else:
            self.x = 2


def missing(b: bool) -> int:
    m = Missing(b)
    if b:
        return m.y  #! fails
    return m.x


# ------------------------------------------------ properties, old, result
class Prop:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.h) and self.h == v)
        self.h = v  # type: int

    @property
    def val(self) -> int:
        Requires(Acc(self.h, 1/2))
        return self.h

    @val.setter
    def val(self, v: int) -> None:
        Requires(Acc(self.h))
        Ensures(Acc(self.h) and self.h == v)
        self.h = v


def takes_h(p: Prop) -> None:
    Requires(Acc(p.h, 1/2))


def prop_perm(a: int) -> int:
    p = Prop(a)
    p.val = p.val + 1
    takes_h(p)
    x = p.val
    if a > 3:
        p.val = 3  #! fails
    takes_h(p)
    if a == 2:
        return p.val  #! fails
    return x


def result_perm(a: int) -> int:
    c = make(a)
    c.v = 3
    if a > 3:
        c.w = 2  #! fails
    return c.v


def make(a: int) -> C:
    Ensures(Acc(Result().v) and Result().v == a)
    return C(a)


def result_cond(a: int) -> int:
    c = make_cond(a)
    if c is not None:
        c.v = c.v + 3
        return c.v
    return 2


def make_cond(a: int) -> Optional[C]:
    Ensures(Implies(a > 3, Result() is not None))
    Ensures(Implies(Result() is not None, Acc(Result().v)))
    if a > 3:
        return C(a)
    return None


def exc_perm(a: int) -> int:
    c = C(a)
    try:
        may_raise(c, a)
        c.v = 2
        if a == 1:
            c.w = 2  #! fails
    except MyError:
        c.w = 3
        if a == 5:
            c.v = 2  #! fails
    return a


class MyError(Exception):
    pass


def may_raise(c: C, a: int) -> None:
    Requires(Acc(c.v) and Acc(c.w))
    Ensures(Acc(c.v))
    Exsures(MyError, Acc(c.w))
    if a > 3:
        raise MyError()
