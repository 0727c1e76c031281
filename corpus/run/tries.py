from nagini_contracts.contracts import *
from typing import List, Optional, Tuple


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    def __init__(self, code: int) -> None:
        Ensures(Acc(self.code) and self.code == code)  # type: ignore
        self.code = code  # type: int


class Log:
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 0)  # type: ignore
        Ensures(Acc(self.seen) and not self.seen)  # type: ignore
        self.n = 0
        self.seen = False

    def __enter__(self) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + 1)
        Ensures(Result() == self.n)
        self.n += 1
        return self.n

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> int:
        Requires(Acc(self.n) and Acc(self.seen))
        Ensures(Acc(self.n) and self.n == Old(self.n) * 10)
        Ensures(Acc(self.seen) and self.seen == (e is not None))
        Ensures(Result() == 0)
        self.n = self.n * 10
        self.seen = e is not None
        return 0


class Swallow:
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 0)  # type: ignore
        self.n = 0

    def __enter__(self) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + 1)
        self.n += 1
        return self.n

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> bool:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) * 10)
        Ensures(Result())
        self.n = self.n * 10
        return True


def thrower(a: int) -> int:
    Requires(True)
    Ensures(a > 0 and Result() == a * 2)
    Exsures(E2, a < 0)
    Exsures(E3, a == 0 and Acc(RaisedException().code) and RaisedException().code == 7)
    if a < 0:
        raise E2()
    if a == 0:
        raise E3(7)
    return a * 2


def with_plain(a: int) -> int:
    l = Log()
    with l as v:
        l.n += v + a
    return l.n


def with_return(a: int) -> int:
    l = Log()
    with l:
        l.n += 1
        if a > 3:
            return l.n
        l.n += 1
    return l.n


def with_return_state(a: int) -> Log:
    Ensures(Acc(Result().n) and Implies(a > 3, Result().n == 20) and Implies(a <= 3, Result().n == 35))
    Ensures(Acc(Result().seen) and not Result().seen)
    l = Log()
    with l:
        l.n += 1
        if a > 3:
            return l
        l.n += 1
    l.n += 5
    return l


def with_break(a: int) -> int:
    l = Log()
    i = 0
    for i in [1, 2, 3]:
        Invariant(Acc(l.n) and Acc(l.seen))
        with l:
            if i == a:
                break
            if i == a + 1:
                continue
            l.n += 1
        l.n += 3
    if l.seen:
        return -1
    return l.n


def with_nested(a: int) -> int:
    l = Log()
    m = Log()
    with l as x:
        with m as y:
            if a == 1:
                return x + y
            m.n += x
        l.n += m.n
    return l.n + m.n


def with_nested_return(a: int) -> Tuple[Log, Log]:
    Ensures(Acc(Result()[0].n) and Acc(Result()[1].n))
    Ensures(Result()[0].n == 10 and Result()[1].n == (10 if a == 1 else 30))
    l = Log()
    m = Log()
    with l as x:
        with m as y:
            if a == 1:
                return l, m
            m.n += 2
    return l, m


def with_in_loop_in_with(a: int) -> int:
    l = Log()
    m = Log()
    s = 0
    with l:
        while s < 3:
            Invariant(Acc(m.n) and Acc(m.seen))
            with m:
                s += 1
                if s == a:
                    break
            s += 1
        l.n += s
    return l.n + m.n


def with_exception(a: int) -> int:
    l = Log()
    r = 0
    try:
        with l:
            r = thrower(a)
        r += 100
    except E2:
        r = -1
    except E3 as e:
        r = e.code
    if l.seen:
        return r + l.n * 1000
    return r


def with_raise(a: int) -> int:
    l = Log()
    try:
        with l:
            if a == 1:
                raise E1()
            if a == 2:
                raise E3(a)
    except E1:
        return l.n
    except E3 as e:
        return l.n + e.code
    finally:
        l.n += 1
    return l.n + 1000


def with_nested_exception(a: int) -> int:
    l = Log()
    m = Log()
    try:
        with l:
            with m:
                thrower(a)
    except E3 as e:
        return l.n + m.n + e.code
    except E2:
        return l.n + m.n
    return -l.n - m.n


def with_catches_inside(a: int) -> int:
    l = Log()
    with l:
        try:
            thrower(a)
        except E3 as e:
            l.n += e.code
        except E2:
            l.n += 2
    if l.seen:
        return -1
    return l.n


def with_finally(a: int) -> int:
    l = Log()
    s = 0
    try:
        with l:
            if a > 0:
                return l.n
            l.n += 3
    finally:
        l.n += 100
        s = l.n
    return s


def with_finally_state(a: int) -> Log:
    Ensures(Acc(Result().n) and Result().n == (110 if a > 0 else 140))
    l = Log()
    try:
        with l:
            if a > 0:
                return l
            l.n += 3
    finally:
        l.n += 100
    return l


def finally_in_with(a: int) -> Log:
    Ensures(Acc(Result().n) and Result().n == (110 if a > 0 else 140))
    l = Log()
    with l:
        try:
            if a > 0:
                return l
            l.n += 3
        finally:
            l.n += 10
    return l


def swallowed(a: int) -> int:
    l = Swallow()
    r = 0
    with l:
        r = thrower(a)
        r += 5
    return r + l.n


def swallowed_in_try(a: int) -> int:
    l = Swallow()
    r = 0
    try:
        with l:
            r = thrower(a)
            r += 5
        r += 1
    except E1:
        r = -100
    except E3:
        r = -200
    return r + l.n


def swallow_return(a: int) -> int:
    l = Swallow()
    with l:
        if a > 0:
            return 5
    return l.n


def swallow_break(a: int) -> int:
    l = Swallow()
    i = 0
    while i < 3:
        Invariant(Acc(l.n))
        with l:
            i += 1
            if i == a:
                break
            if i == a + 1:
                continue
        i += 1
    return l.n + i


def nested_var(a: int) -> int:
    r = 0
    try:
        try:
            r = thrower(a)
        except E2:
            r = -1
    except E3 as e:
        r = e.code
    return r


def nested_finally_var(a: int) -> int:
    r = 0
    f = 0
    try:
        try:
            r = thrower(a)
        finally:
            f = 1
    except E3 as e:
        r = e.code
    except E2:
        r = 3
    return r + f * 100


def nested_handler_raise(a: int) -> int:
    r = 0
    try:
        try:
            r = thrower(a)
        except E2:
            raise E3(9)
        finally:
            r += 1000
    except E3 as e:
        r += e.code
    return r


def nested_three(a: int) -> int:
    r = 0
    f = 0
    try:
        try:
            try:
                r = thrower(a)
            finally:
                f += 1
        finally:
            f *= 3
    except E3 as e:
        r = e.code
    except E2 as e2:
        f += 10
    return r * 100 + f


def nested_uncaught(a: int) -> int:
    Exsures(E3, a == 0 and Acc(RaisedException().code) and RaisedException().code == 7)
    f = 0
    try:
        try:
            f = thrower(a)
        except E2:
            f = 3
    finally:
        f += 1
    return f


def nested_uncaught_two(a: int) -> int:
    Exsures(E3, a == 0 and Acc(RaisedException().code) and RaisedException().code == 7)
    Exsures(E2, a < 0)
    f = 0
    try:
        try:
            f = thrower(a)
        finally:
            f += 5
    finally:
        f += 1
    return f


def raise_in_finally(a: int) -> int:
    try:
        try:
            if a > 0:
                raise E1()
            if a == 0:
                return 4
        finally:
            if a > -5:
                raise E3(a)
    except E3 as e:
        return e.code
    except E1:
        return -1
    return 100


def return_in_finally(a: int) -> int:
    try:
        if a > 0:
            raise E1()
        if a == 0:
            return 4
    finally:
        if a > 3:
            return 5
        if a < -3:
            return 6
        if a > 0:
            return 7
    return 8


def return_overrides(a: int) -> int:
    x = 1
    try:
        return x
    finally:
        x = a + 1


def break_in_else(a: int) -> int:
    s = 0
    for i in [1, 2, 3]:
        for j in [1, 2]:
            if j == a:
                s += 100
                break
        else:
            s += 10
            if i == 2:
                break
            s += 1
            continue
        s += 1000
    return s


def while_else_break(a: int) -> int:
    s = 0
    i = 0
    while i < 3:
        i += 1
        j = 0
        while j < 2:
            j += 1
            if i + j == a:
                break
        else:
            s += 10
            if i == 2:
                break
        s += 1
    return s


def else_after_exception(a: int) -> int:
    s = 0
    i = 0
    while i < 2:
        try:
            i += 1
            if i == a:
                raise E1()
        except E1:
            s += 10
            continue
        else:
            s += 1
        finally:
            s += 100
        s += 1000
    return s


def break_in_handler(a: int) -> int:
    s = 0
    for i in [1, 2, 3]:
        try:
            if i == a:
                raise E3(i)
            s += 1
        except E3 as e:
            s += e.code * 10
            break
        finally:
            s += 100
    return s


def reraise_var(a: int) -> int:
    Exsures(E2, a < 0)
    try:
        return thrower(a)
    except E3 as e:
        return e.code
    except E2 as e2:
        raise e2


def raise_class(a: int) -> int:
    try:
        if a > 0:
            raise E2
        raise E1
    except E2:
        return 1
    except E1:
        return 2


def exc_in_else(a: int) -> int:
    r = 0
    try:
        try:
            r = 1
        except E2:
            r = -100
        else:
            r = thrower(a)
        finally:
            r += 50
    except E2:
        r += 3
    except E3 as e:
        r += e.code
    return r


def exc_handler_order(a: int) -> int:
    try:
        thrower(a)
    except E1:
        return 1
    except E2:
        return 2
    except Exception:
        return 3
    return 4


def many_returns(a: int) -> int:
    try:
        try:
            if a == 0:
                return 1
            if a == 1:
                raise E1()
        finally:
            a += 1
    except E1:
        return a * 10
    finally:
        a += 100
    return a


def loop_try_finally_return(a: int) -> int:
    n = 0
    for i in [1, 2, 3]:
        try:
            if i == a:
                return i + n
        finally:
            n += 10
    return n


def try_in_finally(a: int) -> int:
    r = 0
    try:
        if a > 0:
            return 3
    finally:
        try:
            r = thrower(a)
        except E1:
            r = 1
        except E3:
            r = 2
    return r + 10


def with_in_finally(a: int) -> int:
    l = Log()
    try:
        if a > 0:
            return l.n + 3
    finally:
        with l:
            l.n += 1
    return l.n
