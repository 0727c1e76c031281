from nagini_contracts.contracts import *
from typing import List, Optional, Tuple


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


def if_chain(a: int, b: int) -> int:
    if a > b:
        r = 1
    elif a == b:
        r = 2
    elif a + b == 3:
        r = 3
    else:
        r = 4
    return r


def if_nested(a: int, b: bool) -> int:
    r = 0
    if a > 0:
        if b:
            r = 1
            if a > 10:
                return 5
        else:
            r += a
    elif b:
        r = a
    return r


def while_break(n: int, m: int) -> int:
    Requires(n >= 0 and n < 4)
    i = 0
    s = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        if i == m:
            break
        s = s + i
        i = i + 1
    else:
        s = s + 100
    return s


def while_continue(n: int, m: int) -> int:
    Requires(n >= 0 and n < 4)
    i = 0
    s = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        i = i + 1
        if i == m:
            continue
        s = s * 10 + i
    return s


def while_return(n: int, m: int) -> int:
    Requires(n >= 0 and n < 4)
    i = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        if i == m:
            return 77
        i += 1
    return i


def while_nested(n: int, m: int) -> int:
    Requires(n >= 0 and n < 3)
    i = 0
    c = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        j = 0
        while j < 3:
            Invariant(j >= 0 and j <= 3)
            if i + j == m:
                break
            c = c * 2 + j
            j += 1
        else:
            c += 50
        i += 1
    else:
        c = -c
    return c


def while_nested_continue(n: int, m: int) -> int:
    Requires(n >= 0 and n < 3)
    i = 0
    c = 0
    while i < n:
        Invariant(i >= 0 and i <= n)
        i += 1
        j = 0
        while j < 3:
            Invariant(j >= 0 and j <= 3)
            j += 1
            if j == m:
                continue
            c = c * 2 + j
        if c > 5:
            continue
        c = c + 1000
    return c


def for_range(n: int, m: int) -> int:
    Requires(n >= 0 and n < 4)
    s = 0
    for i in range(0, n):
        if i == m:
            break
        s = s * 10 + i + 1
    else:
        s = -s
    return s


def for_list(a: int, b: int) -> int:
    s = 0
    for x in [a, b, 3]:
        if x == 7:
            continue
        s = s * 2 + x
    return s


def for_return(a: int, b: int) -> int:
    for x in [a, b, a + b]:
        if x > 3:
            return x
    return -1


def for_else_return(a: int) -> int:
    for x in [a, 5]:
        if x == 2:
            break
    else:
        return 9
    return 4


def for_nested(a: int) -> int:
    c = 0
    for x in [1, 2]:
        for y in [10, 20]:
            if x * y == a:
                break
            c += x * y
        else:
            c += 1
    return c


def for_invariant(n: int) -> int:
    Requires(n >= 0 and n < 4)
    s = 0
    for i in range(0, n):
        Invariant(s == 2 * len(Previous(i)))
        s += 2
    Assert(s == 2 * n)
    return s


def for_bad_invariant(a: int) -> int:
    s = 0
    for x in [a, 1, 2]:
        Invariant(s != 3)
        s += x
    return s


def while_bad_invariant(n: int) -> int:
    Requires(n >= 0 and n < 5)
    i = 0
    while i < n:
        Invariant(i < 3)
        i += 1
    return i


def try_simple(a: int) -> int:
    r = 0
    try:
        if a > 3:
            raise E1()
        r = 1
    except E1:
        r = 2
    return r


def try_else(a: int) -> int:
    r = 0
    try:
        if a > 3:
            raise E1()
        r += 1
    except E1:
        r += 2
    else:
        r += 4
    return r


def try_finally(a: int) -> int:
    r = 0
    try:
        if a > 3:
            return 5
        r += 1
    finally:
        r += 2
    return r


def try_all(a: int) -> int:
    r = 0
    try:
        if a == 1:
            raise E1()
        if a == 2:
            raise E2()
        if a == 3:
            return 33
        r += 1
    except E2:
        r += 2
    except E1:
        r += 4
    else:
        r += 8
    finally:
        r += 16
    return r


def try_order(a: int) -> int:
    r = 0
    try:
        if a == 1:
            raise E1()
        if a == 2:
            raise E2()
        if a == 3:
            raise E3()
    except E1:
        r = 1
    except E2:
        r = 2
    except Exception:
        r = 3
    return r


def try_nested(a: int) -> int:
    r = 0
    try:
        try:
            if a == 1:
                raise E1()
            if a == 2:
                raise E3()
            r += 1
        except E1:
            r += 2
        finally:
            r += 4
        r += 8
    except E3:
        r += 16
    return r


def try_nested_finally(a: int) -> int:
    r = 0
    try:
        try:
            if a == 1:
                return 100
            if a == 2:
                raise E1()
            r += 1
        finally:
            r += 2
        r += 4
    except E1:
        r += 8
    finally:
        r += 16
    return r


def try_raise_in_handler(a: int) -> int:
    r = 0
    try:
        try:
            if a > 0:
                raise E1()
            r = 1
        except E1:
            r = 2
            if a > 5:
                raise E3()
            r = 3
        else:
            r = 4
    except E3:
        r = r + 10
    return r


def try_raise_in_else(a: int) -> int:
    r = 0
    try:
        try:
            r = 1
        except E1:
            r = 2
        else:
            if a > 5:
                raise E1()
            r = 3
    except E1:
        r = r + 10
    return r


def try_return_handler(a: int) -> int:
    r = 0
    try:
        if a > 0:
            raise E1()
        r = 1
    except E1:
        return r + 7
    finally:
        r = 50
    return r


def try_loop(a: int) -> int:
    r = 0
    for x in [1, 2, 3]:
        try:
            if x == a:
                raise E1()
            r = r * 10 + x
        except E1:
            r = r * 10 + 9
        finally:
            r = r + 100
    return r


def try_loop_break(a: int) -> int:
    r = 0
    for x in [1, 2, 3]:
        try:
            if x == a:
                break
            r = r * 10 + x
        finally:
            r = r + 100
    return r


def try_loop_continue(a: int) -> int:
    r = 0
    for x in [1, 2, 3]:
        try:
            if x == a:
                continue
            r = r * 10 + x
        finally:
            r = r + 100
        r += 1000
    return r


def loop_in_try_break(a: int) -> int:
    r = 0
    try:
        for x in [1, 2, 3]:
            if x == a:
                break
            r = r * 10 + x
        r = r + 1000
    finally:
        r = r + 1
    return r


def loop_in_try_continue(a: int) -> int:
    r = 0
    try:
        for x in [1, 2, 3]:
            if x == a:
                continue
            r = r * 10 + x
        r = r + 1000
    finally:
        r = r + 1
    return r


def loop_in_try_break_while(a: int) -> int:
    r = 0
    try:
        while r < 3:
            if r == a:
                break
            r = r + 1
        else:
            r = r + 10
        r = r + 1000
    except E1:
        r = 5
    else:
        r = r + 10000
    return r


def loop_in_finally(a: int) -> int:
    r = 0
    try:
        if a > 2:
            return 4
        r = 1
    finally:
        for x in [1, 2]:
            if x == a:
                break
            r += 10
    return r


def return_in_loop_in_try(a: int) -> int:
    r = 0
    try:
        for x in [1, 2]:
            if x == a:
                return x
            r += 1
    finally:
        r += 5
    return r


def raises(a: int) -> int:
    Ensures(Result() == a)
    Exsures(E1, a > 10)
    if a > 10:
        raise E1()
    return a


def raises_sub(a: int) -> int:
    Exsures(E1, a > 10)
    if a > 20:
        raise E2()
    if a > 10:
        raise E1()
    return a


def undeclared(a: int) -> int:
    if a > 10:
        raise E1()
    return a


def undeclared_other(a: int) -> int:
    Exsures(E2, True)
    if a > 10:
        raise E1()
    if a > 5:
        raise E2()
    return a


def calls_raises(a: int) -> int:
    try:
        r = raises(a)
    except E1:
        r = -1
    return r


def calls_raises_finally(a: int) -> int:
    Exsures(E1, a > 10)
    r = 0
    try:
        r = raises(a)
    finally:
        r = r + 1
    return r


def calls_raises_uncaught(a: int) -> int:
    r = raises(a)
    return r + 1


def calls_raises_wrong(a: int) -> int:
    r = 0
    try:
        r = raises(a)
    except E2:
        r = 4
    return r


def calls_sub(a: int) -> int:
    r = 0
    try:
        r = raises_sub(a)
    except E2:
        r = 4
    except E1:
        r = 5
    return r


def bad_exsures(a: int) -> int:
    Exsures(E1, a > 12)
    if a > 10:
        raise E1()
    return a


def reraise(a: int) -> int:
    Exsures(E3, a > 10)
    try:
        if a > 10:
            raise E1()
    except E1:
        raise E3()
    return a


def tuple_unpack(a: int, b: int) -> int:
    x, y = a, b
    return x * 2 + y


def tuple_unpack_call(a: int, b: int) -> int:
    x, y = pair(a, b)
    return x * 2 - y


def pair(a: int, b: int) -> Tuple[int, int]:
    return b, a


def multi_assign(a: int) -> int:
    x = y = a + 1
    y += 3
    return x * 10 + y


def aug(a: int, b: int) -> int:
    x = a
    x += b
    x -= 2
    x *= 3
    return x


def aug_list(a: int) -> int:
    l = [1, 2, a]
    l[1] += a
    l[0] = l[2] + l[1]
    return l[0] * 3 + l[1]


def swap(a: int, b: int) -> int:
    x = a
    y = b
    x, y = y, x
    return x * 3 + y


def param_assign(a: int, b: int) -> int:
    Ensures(Result() == a + b)
    c = a
    a = b
    b = c
    return a + b


def assert_(a: int) -> int:
    Requires(a > 0)
    b = a + 1
    Assert(b > 1)
    assert b != 5
    return b


def unbound(a: int) -> int:
    if a > 0:
        x = 1
    return x


def unbound_loop(n: int) -> int:
    Requires(n < 2)
    i = 0
    while i < n:
        i += 1
        y = i
    return y


def no_return(a: int) -> Optional[int]:
    if a > 0:
        return a
    return None


def recursion(n: int) -> int:
    Requires(n >= 0 and n < 5)
    Ensures(Result() >= 0)
    if n == 0:
        return 0
    return recursion(n - 1) + n


def with_stmt(a: int) -> int:
    s = 0
    while True:
        if s > a:
            break
        if s == 2:
            return -1
        s = s + 1
    return s


def star_last(a: int, b: int, c: int) -> int:
    t = [a, b, c]
    x, *y = t
    return len(y) * 100 + x + y[0] * 10 + y[1]


def star_middle(a: int, b: int, c: int, d: int) -> int:
    t = [a, b, c, d]
    x, *y, z = t
    return len(y) * 1000 + x + y[0] * 10 + z * 100 + y[1]


def star_first(a: int, b: int, c: int) -> int:
    t = [a, b, c]
    *y, z = t
    return len(y) * 100 + y[0] * 10 + z


def star_empty(a: int, b: int) -> int:
    t = [a, b]
    x, *y, z = t
    return len(y) * 100 + x * 10 + z


def unpack_pair(a: int, b: int) -> int:
    t = (a, b)
    x, y = t
    y, x = x, y
    return x * 10 + y


def star_tuple(a: int, b: bool, c: int, d: int) -> int:
    t = (a, c, b, d)
    x, *y, z = t
    return len(y) * 1000 + x + z * 100


def star_too_short(a: int, b: int) -> int:
    t = [a]
    x, *y, z = t
    return x


def star_loop(a: int, b: int, c: int, d: int) -> int:
    r = 0
    for x, *y, z in [(a, b, c, d), (d, c, b, a)]:
        r = r * 10 + x - z + len(y)
    return r
