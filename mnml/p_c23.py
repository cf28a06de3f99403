"""C23: value primitives"""
from . import refs
from .p_c16 import table


def run(tier):
    return table("C23", refs.VALUES, tier, "Value primitives: predicates, arithmetic, comparison, list and symbol construction.", 14)
