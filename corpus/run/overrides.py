from nagini_contracts.contracts import *
from typing import Optional


class E(Exception):
    pass


class F(E):
    pass


class A:
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)
        self.n = n  # type: int

    def same(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > k)
        return k + 1

    def weaker_pre(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > k)
        return k + 1

    def stronger_pre(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > k)
        return k + 1

    def stronger_post(self, k: int) -> int:
        Ensures(Result() > k)
        return k + 2

    def weaker_post(self, k: int) -> int:
        Ensures(Result() > k)
        return k + 1

    def other_post(self, k: int) -> int:
        Ensures(Result() >= k)
        return k + 1

    def changes(self, k: int) -> None:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + k)
        self.n = self.n + k

    def changes_wrong(self, k: int) -> None:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + k)
        self.n = self.n + k

    def reads(self, k: int) -> int:
        Requires(Acc(self.n, 1/2))
        Ensures(Acc(self.n, 1/2) and Result() == self.n + k)
        return self.n + k

    def needs_more(self, k: int) -> int:
        Requires(Acc(self.n, 1/2))
        Ensures(Acc(self.n, 1/2))
        return k

    def keeps(self, k: int) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n))
        return k

    def no_pre(self, k: int) -> int:
        return k

    def raises(self, k: int) -> int:
        Ensures(k >= 0 and Result() == k)
        Exsures(E, k < 0)
        if k < 0:
            raise E()
        return k

    def raises_never(self, k: int) -> int:
        Ensures(Result() == k or k > 0)
        Exsures(E, k < 0)
        return k

    def raises_wrong(self, k: int) -> int:
        Ensures(Result() == k)
        Exsures(E, k < 0)
        if k < 0:
            raise E()
        return k

    def raises_sub(self, k: int) -> int:
        Ensures(Result() == k)
        Exsures(E, k < 0)
        if k < 0:
            raise E()
        return k

    def raises_more(self, k: int) -> int:
        Ensures(Result() == k)
        Exsures(E, k < 0)
        Exsures(F, k < -5)
        if k < 0:
            raise E()
        return k

    def default(self, k: int = 3) -> int:
        Ensures(Result() > k)
        return k + 1

    def nothing(self, k: int) -> None:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == k)
        self.n = k

    def inherited(self, k: int) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and Result() == self.n + k)
        return self.n + k

    def later(self, k: int) -> int:
        Requires(k > 10)
        Ensures(Result() >= k)
        return k

    def on_other(self, o: 'A', k: int) -> int:
        Requires(Acc(o.n))
        Ensures(Acc(o.n) and o.n == Old(o.n) + k and Result() == k)
        o.n = o.n + k
        return k

    def hook(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > 0)
        return k

    def calls_hook(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > 1)
        return self.hook(k) + 1

    def hook2(self, k: int) -> int:
        Ensures(Result() == k)
        return k

    def calls_hook2(self, k: int) -> int:
        Ensures(Result() == k + 1)
        return self.hook2(k) + 1

    def default_other(self, k: int = 3) -> int:
        Ensures(Result() == k)
        return k

    def sup(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > k)
        return k + 1

    def kw(self, *, k: int = 3) -> int:
        Requires(k > 2)
        Ensures(Result() == k)
        return k


class B(A):
    def hook(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() == k + k)
        return k + k

    def hook2(self, k: int) -> int:
        Ensures(Result() == k * 2)
        return k * 2

    def default_other(self, k: int = 4) -> int:
        Ensures(Result() == k)
        return k

    def sup(self, k: int) -> int:
        Requires(k > -1)
        Ensures(Result() > k)
        return super().sup(k + 1) + 1

    def kw(self, *, k: int = 3) -> int:
        Requires(k > 1)
        Ensures(Result() == k)
        return k

    def same(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > k)
        return k + 5

    def weaker_pre(self, k: int) -> int:
        Requires(k > -3)
        Ensures(Result() > k)
        return k + 1

    def stronger_pre(self, k: int) -> int:
        Requires(k > 2)
        Ensures(Result() > k)
        return k + 1

    def stronger_post(self, k: int) -> int:
        Ensures(Result() == k + 7)
        return k + 7

    def weaker_post(self, k: int) -> int:
        Ensures(Result() == (k if k == 5 else k + 1))
        return k if k == 5 else k + 1

    def other_post(self, k: int) -> int:
        Ensures(Result() == 0 - k)
        return 0 - k

    def changes(self, k: int) -> None:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + k)
        self.n = k + self.n

    def changes_wrong(self, k: int) -> None:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == k)
        self.n = k

    def reads(self, k: int) -> int:
        Requires(Acc(self.n, 1/4))
        Ensures(Acc(self.n, 1/4) and Result() == k + self.n)
        return k + self.n

    def needs_more(self, k: int) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n))
        return k

    def keeps(self, k: int) -> int:
        Requires(Acc(self.n))
        return k

    def no_pre(self, k: int) -> int:
        Requires(k > 0)
        return k

    def raises(self, k: int) -> int:
        Ensures(k >= 0 and Result() == k)
        Exsures(E, k < 0)
        if k < 0:
            raise E()
        return k

    def raises_never(self, k: int) -> int:
        Ensures(Result() == k)
        return k

    def raises_wrong(self, k: int) -> int:
        Ensures(Result() == k)
        Exsures(E, k < 3)
        if k < 3:
            raise E()
        return k

    def raises_sub(self, k: int) -> int:
        Ensures(Result() == k)
        Exsures(F, k < -3)
        if k < -3:
            raise F()
        return k

    def raises_more(self, k: int) -> int:
        Ensures(Result() == k)
        Exsures(F, k < -2)
        if k < -2:
            raise F()
        return k

    def default(self, k: int = 3) -> int:
        Ensures(Result() == k + 2)
        return k + 2

    def nothing(self, k: int) -> None:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == k)
        self.n = k

    def on_other(self, o: A, k: int) -> int:
        Requires(Acc(o.n))
        Ensures(Acc(o.n) and o.n == Old(o.n) + k and Result() == k)
        o.n = o.n + k
        return k


class C(B):
    def same(self, k: int) -> int:
        Requires(k > -1)
        Ensures(Result() == k + 2)
        return k + 2

    def stronger_post(self, k: int) -> int:
        Ensures(Result() == k + 7)
        return 7 + k

    def later(self, k: int) -> int:
        Requires(k > 11)
        Ensures(Result() == k + 1)
        return k + 1

    def weaker_pre(self, k: int) -> int:
        Requires(k > 0)
        Ensures(Result() > k)
        return k + 1


def via_same(a: A, k: int) -> int:
    Requires(k > 0)
    Ensures(Result() > k)
    return a.same(k)


def same(c: bool, d: bool, k: int) -> int:
    Requires(k > 0)
    a = A(1) if c else (B(2) if d else C(3))  # type: A
    return via_same(a, k)


def via_weaker(a: A, k: int) -> int:
    Requires(k > 0)
    return a.weaker_pre(k)


def weaker_pre(c: bool, k: int) -> int:
    Requires(k > 0)
    a = A(1) if c else B(2)  # type: A
    return via_weaker(a, k)


def via_weaker_b(b: B, k: int) -> int:
    Requires(k > -3)
    return b.weaker_pre(k)


def weaker_pre_b(k: int) -> int:
    Requires(k > -3)
    return via_weaker_b(B(2), k)


def weaker_pre_c(k: int) -> int:
    Requires(k > -3)
    return via_weaker_b(C(2), k)


def via_stronger(a: A, k: int) -> int:
    Requires(k > 0)
    return a.stronger_pre(k)


def stronger_pre(c: bool, k: int) -> int:
    Requires(k > 0)
    a = A(1) if c else B(2)  # type: A
    return via_stronger(a, k)


def via_post(a: A, k: int) -> int:
    Ensures(Result() > k)
    return a.stronger_post(k)


def stronger_post(c: bool, d: bool, k: int) -> int:
    a = A(1) if c else (B(2) if d else C(3))  # type: A
    return via_post(a, k)


def via_weak_post(a: A, k: int) -> int:
    return a.weaker_post(k)


def weaker_post(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_weak_post(a, k)


def via_other_post(a: A, k: int) -> int:
    return a.other_post(k)


def other_post(k: int) -> int:
    return via_other_post(B(2), k)


def via_changes(a: A, k: int) -> int:
    Requires(Acc(a.n))
    Ensures(Acc(a.n) and Result() == a.n)
    a.changes(k)
    return a.n


def changes(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_changes(a, k)


def via_changes_wrong(a: A, k: int) -> int:
    Requires(Acc(a.n))
    Ensures(Acc(a.n))
    a.changes_wrong(k)
    return a.n


def changes_wrong(n: int, k: int) -> int:
    return via_changes_wrong(B(n), k)


def via_reads(a: A, k: int) -> int:
    Requires(Acc(a.n, 1/2))
    Ensures(Acc(a.n, 1/2))
    return a.reads(k)


def reads(n: int, k: int) -> int:
    b = B(n)
    return via_reads(b, k) + b.n


def via_needs_more(a: A, k: int) -> int:
    Requires(Acc(a.n, 1/2))
    Ensures(Acc(a.n, 1/2))
    return a.needs_more(k)  #! fails if isinstance(a, B)


def needs_more(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_needs_more(a, k)


def via_keeps(a: A, k: int) -> int:
    Requires(Acc(a.n))
    Ensures(Acc(a.n))
    return a.keeps(k)  #! fails if isinstance(a, B)


def keeps(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_keeps(a, k)


def via_no_pre(a: A, k: int) -> int:
    return a.no_pre(k)


def no_pre(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_no_pre(a, k)


def via_raises(a: A, k: int) -> int:
    try:
        return a.raises(k)
    except E:
        return -1


def raises(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_raises(a, k)


def via_raises_never(a: A, k: int) -> int:
    try:
        return a.raises_never(k)
    except E:
        return -1


def raises_never(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_raises_never(a, k)


def via_raises_wrong(a: A, k: int) -> int:
    try:
        return a.raises_wrong(k)
    except E:
        return -1


def raises_wrong(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_raises_wrong(a, k)


def via_raises_sub(a: A, k: int) -> int:
    try:
        return a.raises_sub(k)
    except F:
        return -2
    except E:
        return -1


def raises_sub(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_raises_sub(a, k)


def via_raises_more(a: A, k: int) -> int:
    try:
        return a.raises_more(k)
    except F:
        return -2
    except E:
        return -1


def raises_more(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_raises_more(a, k)


def via_default(a: A, k: int) -> int:
    return a.default() + a.default(k)


def default(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_default(a, k)


def via_nothing(a: A, k: int) -> int:
    Requires(Acc(a.n))
    Ensures(Acc(a.n) and Result() == k)
    a.nothing(k)
    return a.n


def nothing(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_nothing(a, k)


def via_inherited(a: A, k: int) -> int:
    Requires(Acc(a.n))
    Ensures(Acc(a.n))
    return a.inherited(k)


def inherited(c: bool, d: bool, k: int) -> int:
    a = A(1) if c else (B(2) if d else C(3))  # type: A
    return via_inherited(a, k)


def via_later(a: A, k: int) -> int:
    Requires(k > 10)
    Ensures(Result() >= k)
    return a.later(k)


def later(c: bool, d: bool, k: int) -> int:
    Requires(k > 10)
    a = A(1) if c else (B(2) if d else C(3))  # type: A
    return via_later(a, k)


def via_later_b(b: B, k: int) -> int:
    Requires(k > 10)
    return b.later(k)


def later_b(d: bool, k: int) -> int:
    Requires(k > 10)
    b = B(2) if d else C(3)  # type: B
    return via_later_b(b, k)


def via_on_other(a: A, o: A, k: int) -> int:
    Requires(Acc(o.n))
    Ensures(Acc(o.n) and Result() == o.n)
    a.on_other(o, k)
    return o.n


def on_other(c: bool, d: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    o = A(1) if d else B(2)  # type: A
    return via_on_other(a, o, k)


def via_hook(a: A, k: int) -> int:
    Requires(k > 0)
    Ensures(Result() > 1)
    return a.calls_hook(k)


def hook(c: bool, d: bool, k: int) -> int:
    Requires(k > 0)
    a = A(1) if c else (B(2) if d else C(3))  # type: A
    return via_hook(a, k)


def via_hook2(a: A, k: int) -> int:
    return a.calls_hook2(k)


def hook2(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_hook2(a, k)


def direct_hook(c: bool, k: int) -> int:
    Requires(k > 0)
    if c:
        b = B(1)
        return b.calls_hook(k)
    a = C(1)
    return a.calls_hook(k)


def via_default_other(a: A, k: int) -> int:
    return a.default_other(k)  #! fails if isinstance(a, B)


def default_other(c: bool, k: int) -> int:
    a = A(1) if c else B(2)  # type: A
    return via_default_other(a, k)


def via_sup(a: A, k: int) -> int:
    Requires(k > 0)
    Ensures(Result() > k)
    return a.sup(k)


def sup(c: bool, d: bool, k: int) -> int:
    Requires(k > 0)
    a = A(1) if c else (B(2) if d else C(3))  # type: A
    return via_sup(a, k)


def direct_sup(k: int) -> int:
    b = B(1)
    return b.sup(k)


def via_kw(a: A, k: int) -> int:
    Requires(k > 2)
    return a.kw(k=k) + a.kw()


def kw(c: bool, k: int) -> int:
    Requires(k > 2)
    a = A(1) if c else B(2)  # type: A
    return via_kw(a, k)
