from nagini_contracts.contracts import *
from nagini_contracts.io_contracts import *


@Pure
def fine(n: int) -> bool:
    return False


@Pure
def steps(n: int) -> int:
    return n + 7


@IOOperation
def tick(t_pre: Place, n: int, t_post: Place = Result()) -> bool:
    Terminates(fine(n))
    TerminationMeasure(steps(n))


@IOOperation
def tock(t_pre: Place, n: int, t_post: Place = Result()) -> bool:
    Terminates(fine(n))
    TerminationMeasure(steps(n) + 2)
    return IOExists1(Place)(
        lambda t2: (tick(t_pre, steps(n), t2) and tick(t2, n, t_post))
    )


@ContractOnly
def do_tick(t1: Place, n: int) -> Place:
    IOExists1(Place)(
        lambda t2: (
        Requires(token(t1, 1) and tick(t1, n, t2) and fine(n)),
        Ensures(token(t2) and t2 == Result() and steps(n) > n)
        )
    )
