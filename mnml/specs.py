"""Comparison of every primitive with its reference semantics."""
from . import front, owner, prim, sem, spec
from .absint import Giveup
from .contracts import C, API
from .report import Outcome


class P(prim.Prim):
    symcond = True


_sum = {}


def summaries(group, config):
    """symbol -> (native, plugin or error text)"""
    k = (group, config)
    if k not in _sum:
        prog, ns, tab, end = sem.natives(group, config)
        p, res, und = owner.run(group, config)
        cons = {n: r.ct for n, r in res.items()}
        out = {}
        for n in ns:
            if n.f is None:
                out[n.symbol or n.name] = (n, "no implementation found: %s" % n.err)
                continue
            try:
                out[n.symbol] = (n, prim.summary(prog, n.f, C("-b", "own", "eval"), cons, P))
            except Giveup as ex:
                out[n.symbol] = (n, str(ex))
        _sum[k] = (prog, out)
    return _sum[k]


def local(prog):
    """helpers of the module that deliver no value: neither evaluation nor visible effect of their own"""
    return {n for n, f in prog.functions.items() if n not in API and not f.ty.startswith("ptr")}


def compare(prop, table, groups, out, configs=("debug-nosse",)):
    for cfg in configs:
        for g in groups:
            prog, sums = summaries(g, cfg)
            loc = local(prog)

            class O(spec.Oracle):
                def neutral(self, ev):
                    return ev[0] in spec.NEUTRAL or ev[0] in loc
            for name, reff in table.items():
                if name not in sums:
                    continue
                n, pl = sums[name]
                if isinstance(pl, str):
                    out.undecided["%s (%s)" % (name, cfg)] = pl
                    continue
                out.count("primitives compared")
                N = len(n.params) + (1 if n.rest else 0)
                for row in pl.rets + pl.cuts:
                    r = spec.agree(row, N, reff, cls=O)
                    out.count("paths")
                    if r[0] == "miss":
                        out.add(prop, "reference", "%s (%s)" % (name, n.f.relfile()), row.loc, r[1].split(" expected")[0][:120],
                                "%s: %s; path: %s" % (name, r[1], path(row)))
                    elif r[0] == "unsure":
                        out.count("paths beyond the depth of the summary")
                    else:
                        out.count("cases", r[1])
                out.sample("%s: %d paths agree with the reference" % (name, len(pl.rets)))


def path(row):
    return "%s | when %s" % ("; ".join(prim.show(e) for e in row.trace) or "no evaluation", row.when() or "always")
