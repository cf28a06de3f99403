"""C27: library scripts give operations the arguments they take"""
import os
from . import args as manual, front, lispsrc, sem
from .p_c21 import Script
from .report import Finding, Outcome


def run(tier):
    out = Outcome("Every call in the library scripts whose head is a primitive or a library function (not a local of that name): the number of "
                  "arguments written is counted on the parsed source and compared with what the operation takes, from the compiled parameter list and "
                  "the manual's syntax for primitives and from the definition for library functions. Too many arguments make a call of fixed size NIL; "
                  "missing arguments complete an ordinary function later (currying) but are NIL to an operation that reads its arguments raw; "
                  "a stage of |> receives the piped value only if its operation still misses exactly that argument.",
                  ["calls with a dotted or spliced argument list are not counted",
                   "calls whose head is a local or a computed function are not judged"])
    syntax = manual.manual()
    prims = {}
    for g in front.modules():
        prog, nat, table, end = sem.natives(g, "debug-nosse")
        for n in nat:
            if n.err or n.name is None:
                out.undecided["%s" % n.loadfn] = "parameters not known"
                continue
            raw = bool(n.rest)
            least, most, rest = 0, None, raw
            s = [a for h, a in syntax.get(n.name, []) if h == n.name]
            if len(s) == 1:
                least, most, _, rest = manual.arity(s[0])
                rest = rest or s[0].split()[-1:] == ["prg"]     # a body: one or more expressions
            if not raw:
                most, rest, least = len(n.params), False, 0
            prims[n.name] = (least, None if rest else most, raw)
    lib = {n: Script(n, f) for n, f in lispsrc.library().items()}
    funs = {}
    for s in lib.values():
        for k, (n, rest) in s.arity.items():
            funs.setdefault(k, set()).add((0, None if rest else n, rest))
    for n, s in lib.items():
        for name, k, line, how in s.calls:
            own = {(0, None if r else m, r) for x, (m, r) in s.arity.items() if x == name}
            takes = own or funs.get(name) or ({prims[name]} if name in prims else set())
            if len(takes) != 1:
                if takes:
                    out.undecided["%s:%d %s" % (n, line, name)] = "several functions of that name"
                continue
            least, most, raw = next(iter(takes))
            if most is None and how == "call" and name in prims and len(syntax.get(name, [])) != 1:
                continue
            out.count("calls" if how == "call" else "stages")
            loc = "%s:%d" % (lispsrc.path(n), line)

            def bad(rule, text):
                out.add(Finding("C27", rule, lispsrc.path(n), loc, "%s/%d" % (name, k), text))
            if how == "call":
                if most is not None and k > most:
                    bad("too many", "%s is called with %d arguments but takes %d" % (name, k, most))
                elif raw and k < least:
                    bad("too few", "%s is called with %d arguments but needs %d" % (name, k, least))
            elif raw:
                bad("stage", "%s is evaluated before it receives the value piped to it" % name)
            elif most is not None and k >= most:
                bad("stage", "%s has all its %d arguments and cannot take the value piped to it" % (name, most))
        out.sample("%s: %d calls" % (n, len(s.calls)))
    out.need("calls", 400)
    out.need("stages", 10)
    return out
