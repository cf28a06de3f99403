"""C08: writes into buffers of known size"""
from . import buf, front
from .p_c01 import GROUPS
from .report import Finding, Outcome


def culprits(c, group, f):
    """the calls of f in the group's own code without which the writes of f all stay within bounds"""
    res = []
    for x in c.m.sites.get(f.name, ()):
        if x.fn.name == f.name or not front.own(group, x.fn):
            continue
        d = buf.Check(c.prog, c.m.PATH_MAX, (x,))
        if all(v == "ok" for _, _, _, v, _ in d.run(lambda h: h is f)):
            res.append(x)
    return res


def run(tier):
    out = Outcome("Every write into an object of known size (local and static arrays, allocated buffers, arrays received from callers): by a store "
                  "at a computed place, by a string, memory, formatting or reading function, or by a function of the interpreter given the buffer. "
                  "The place plus the length, as linear forms over the program's values, must stay within the size, given the conditions that "
                  "guard it, intervals, what all callers of the function establish about its arguments, and the lengths of the strings involved.",
                  ["sizes do not wrap around; strings in arrays are terminated; paths from the system are at most PATH_MAX long",
                   "buffers inside the generated scanner and parser are judged only where their place is known"])
    K = front.consts()
    for cfg in ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse", "debug"):
        seen = set()
        for g in ["core"] + [x for x in GROUPS if x not in ("core", "grammar")] + [m for m in front.modules() if m not in GROUPS]:
            prog = front.program(g, set(), cfg, False)
            c = buf.Check(prog, K["PATH_MAX"])
            blamed = set()
            for f, x, how, v, text in c.run(lambda f: True):
                own = front.own(g, f) or g == "core"
                loc = x.loc()
                k = (f.relfile(), f.name.split(".")[0], x.l, x.f, how)
                if own:
                    out.count("writes")
                    if k not in seen:
                        out.count("functions", 0 if (f.relfile(), f.name) in seen else 1)
                        seen |= {k, (f.relfile(), f.name)}
                    if v == "ok":
                        out.sample("%s: %s into %s" % (loc, how, text))
                if v == "bad" and f.relfile().startswith("lib/grammar/") and "any distance" in text:
                    v, text = "unknown", "a place the scanner's tables decide"
                if v == "unknown" and "scanner" in text and own:
                    out.undecided["%s at %s (%s)" % (f.name, loc, cfg)] = text
                elif v == "bad" and own:
                    out.add(Finding("C08", "overrun", "%s (%s)" % (f.name.split(".")[0], f.relfile()), loc, how, text))
                elif v != "ok" and f.name not in blamed and "scanner" not in text:
                    blamed.add(f.name)
                    cs = culprits(c, g, f)
                    for y in cs:
                        out.add(Finding("C08", "overrun", "%s (%s)" % (y.fn.name.split(".")[0], y.fn.relfile()), y.loc(), f.name,
                                        "%s is given a buffer smaller than what it may write there (at %s)" % (f.name, loc)))
                    if not cs and own:
                        out.undecided["%s at %s (%s)" % (f.name, loc, cfg)] = text
    out.need("writes", 100)
    return out
