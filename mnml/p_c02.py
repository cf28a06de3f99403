"""C02: no use after release"""
from .p_c01 import collect, ASSUME
from .report import Outcome


def run(tier):
    out = Outcome("Liveness of references: on the abstract states of the ownership analysis, every read, write, call argument, "
                  "store and return of a value is checked: the function still holds a reference to it, or to the value it was "
                  "borrowed from, or has stored it in something that is alive.", ASSUME)
    collect("C02", tier, out)
    return out
