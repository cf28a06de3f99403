"""C25: system and stream primitives"""
from . import front, p_c12, refs
from .p_c16 import table


def run(tier):
    out = table("C25", refs.SYSTEM, tier, "System and stream primitives: which system call gets which argument, and what is made of its result.", 6)
    p_c12.names(out, ["core", "bin", "stubs"] + front.modules(), "debug-nosse")
    return out
