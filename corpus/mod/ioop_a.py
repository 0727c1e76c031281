# with: ioop_b.py
from nagini_contracts.contracts import *
from nagini_contracts.io_contracts import *
from ioop_b import tick, tock, do_tick


@Pure
def fine(n: int) -> bool:
    return True


@Pure
def steps(n: int) -> int:
    return 3


@IOOperation
def ticks(t_pre: Place, n: int, t_post: Place = Result()) -> bool:
    Terminates(n >= 0 and fine(n))
    TerminationMeasure(n + 10)
    return IOExists1(Place)(
        lambda t2: (tick(t_pre, steps(n), t2) and tock(t2, n, t_post))
    )


def run(t1: Place, n: int) -> Place:
    IOExists1(Place)(
        lambda t2: (
        Requires(token(t1, 5) and tock(t1, n, t2) and fine(n)),
        Ensures(token(t2) and t2 == Result() and steps(n) == 3)
        )
    )
    Open(tock(t1, n))
    t = do_tick(t1, steps(n))
    t = do_tick(t, n)
    return t
