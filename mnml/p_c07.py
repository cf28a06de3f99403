"""C07: resources"""
from . import front, res, sem
from .absint import Giveup
from .contracts import API, KEEP
from .p_c01 import GROUPS
from .report import Outcome


def run(tier):
    out = Outcome("Typestate of every operating-system resource and heap buffer: on each path of each function that acquires one (following "
                  "helpers), it is released exactly once by the matching call, handed to the program as a number, returned, or stored in a "
                  "structure that outlives the call; it is not used or released again after its release. A failed acquisition holds nothing.",
                  ["a descriptor handed to the program as a number is the program's to close"])
    seen = set()
    for cfg in ("release-nosse",) if tier == "quick" else ("release-nosse", "debug-nosse"):
        for g in [x for x in GROUPS if x in ("core", "bin", "stubs", "grammar")] + front.modules():
            prog = sem.natives(g, cfg)[0] if g in front.modules() else front.program(g, KEEP, cfg)
            direct, fs = res.acquirers(prog)
            called = {x.callee for f in prog.functions.values() for x in f.insts() if x.o == "call" and x.callee}
            for n in sorted(fs):
                f = prog.functions[n]
                k = (f.relfile(), n, cfg)
                if k in seen or n in called and n not in API and n not in KEEP:
                    continue
                seen.add(k)
                try:
                    pl = res.analyse(prog, f)
                except Giveup as ex:
                    out.undecided["%s (%s)" % (n, cfg)] = str(ex)
                    continue
                out.count("functions")
                out.count("exits", pl.exits)
                out.count("acquisitions", len(pl.acquired))
                for x in pl.found.values():
                    out.add(x)
                out.sample("%s: %s; %d exits" % (n, ", ".join(sorted({"%s at line %s" % (c, l) for (_, l, c) in pl.acquired})), pl.exits))
    out.need("functions", 8)
    return out
