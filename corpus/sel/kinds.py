from nagini_contracts.contracts import *
from nagini_contracts.io_contracts import *
from nagini_contracts.adt import ADT
from typing import NamedTuple, Optional
from dataclasses import dataclass
from enum import IntEnum

def free(a: int) -> int:
    Requires(a > 0)
    Ensures(Result() > 0)
    return a

@Pure
def pfree(a: int) -> int:
    Ensures(Result() == a)
    return a

class C:
    k = 3
    def __init__(self) -> None:
        Ensures(Acc(self.f))
        self.f = 1  # type: int

    @property
    def prop(self) -> int:
        Requires(Acc(self.f))
        return self.f

    @prop.setter
    def prop(self, v: int) -> None:
        Requires(Acc(self.f))
        Ensures(Acc(self.f) and self.f == v)
        self.f = v

    @Predicate
    def inv(self) -> bool:
        return Acc(self.f)

    @Pure
    def pm(self) -> int:
        return 4

    def m(self) -> int:
        Ensures(Result() > 0)
        return 1

    @staticmethod
    def st(a: int) -> int:
        Ensures(Result() == a)
        return a

    @classmethod
    def cm(cls, a: int) -> int:
        Ensures(Result() == a)
        return a

    @Pure
    def __eq__(self, other: object) -> bool:
        return True

@Predicate
def pred(c: 'C') -> bool:
    return Acc(c.f)

@Inline
def inl(a: int) -> int:
    return a

class D(C):
    def __init__(self) -> None:
        Ensures(Acc(self.f))
        self.f = 2

    @Predicate
    def inv(self) -> bool:
        return self.f > 1

    def m(self) -> int:
        Ensures(Result() > 1)
        return 2

    @staticmethod
    def st(a: int) -> int:
        Ensures(Result() == a)
        return a

class CM:
    @classmethod
    def mk(cls, a: int) -> int:
        return a
    def __init__(self) -> None:
        pass
class CMD(CM):
    def __init__(self) -> None:
        pass
    @classmethod
    def mk(cls, a: int) -> int:
        return a

@dataclass(frozen=True)
class Dat:
    x: int

class E(IntEnum):
    a = 1
    b = 2

@ContractOnly
def co(a: int) -> int:
    Ensures(Result() == a)

def fst(a: int) -> None:
    x = free(1)
    assert x > 0

y = free(2)
