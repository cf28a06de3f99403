"""C01: reference balance"""
from . import front, owner
from .report import Outcome

GROUPS = ["core", "grammar", "bin", "stubs", "io", "logic", "math", "std", "sys", "unix"]


def collect(prop, tier, out):
    groups = [g for g in GROUPS if g in ("core", "grammar", "bin", "stubs")] + front.modules()
    for config in (["debug"] if tier == "quick" else ["debug", "debug-nosse", "release", "release-nosse"]):
        for g in groups:
            prog, res, und = owner.run(g, config)
            for n, pl in res.items():
                out.count("functions analysed")
                out.count("abstract states", pl.states)
                out.count("exits checked", pl.paths)
                out.count("reference events", pl.events)
                if pl.coarse:
                    out.count("functions analysed with merged states")
                for f in pl.found.values():
                    if f.prop == prop:
                        out.add(f)
                if pl.events and len(out.samples) < 12 and hash(n) is not None and pl.paths > 2:
                    out.sample("%s: %s under contract (%s) -> %s: %d exits, %d reference events" % (
                        prog.functions[n].relfile(), n, pl.ct.args, pl.ct.ret, pl.paths, pl.events))
            for n, why in und.items():
                out.undecided[n] = why
    out.need("functions analysed", 250)
    out.need("reference events", 1000)
    if len(out.undecided) > 5:
        raise front.Broken("too many functions left undecided: %s" % sorted(out.undecided))


ASSUME = ["lib/core allocation, counting and symbol-tree surgery follow their contracts (their bodies: C14, C17)",
          "a function pointer is called under the contract of its signature (primitive, consumer, loader, visitor, stage)",
          "trace output (MNML_DEBUG_*) is off"]


def run(tier):
    out = Outcome("Ownership typestate: every function of the core, the reader, the executable, the stubs and all modules is "
                  "interpreted abstractly over its compiled form, with the declared contract of each runtime call; at every "
                  "exit the number of references held beyond what was lent must be exactly what the contract hands over, no "
                  "reference slot is overwritten unreleased, and every decrement is followed by the zero test and the free.", ASSUME)
    collect("C01", tier, out)
    return out
