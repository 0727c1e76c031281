from nagini_contracts.contracts import *


class A:
    def __init__(self) -> None:
        Ensures(Acc(self.z)) # type: ignore
        self.z = 1
