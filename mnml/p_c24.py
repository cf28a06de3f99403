"""C24: definitions and assignment"""
from . import refs
from .p_c16 import table


def run(tier):
    return table("C24", refs.DEFS, tier, "Definitions, assignment, let, function values and load.", 3)
