from nagini_contracts.contracts import *

limit = 7
counter = 0


@Pure
def size(x: int, y: int) -> int:
    return x * y


class K:
    LOW = 2

    def __init__(self, v: int) -> None:
        Ensures(Acc(self.val) and self.val == v)
        self.val = v  # type: int

    @Predicate
    def ok(self) -> bool:
        return Acc(self.val)


def f(x: int) -> int:
    Ensures(Result() == x)
    return x
