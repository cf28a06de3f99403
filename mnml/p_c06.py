"""C06: channel redirection"""
from . import front, owner, prim, sem, spec, specs
from .absint import Giveup
from .contracts import C, API, KEEP
from .report import Outcome
from .p_c01 import GROUPS

CH = ("ichan", "ochan")


def writers(prog, K):
    """functions that may store to a channel field, directly or through a helper of the same program"""
    offs = {K["L_ICHAN"], K["L_OCHAN"]}
    direct, calls = set(), {}
    for n, f in prog.functions.items():
        geps = {x.i for x in f.insts() if x.o == "gep" and x.off in offs and (not x.st or x.st[0] == "struct.lisp")}
        calls[n] = {x.callee for x in f.insts() if x.o == "call" and x.callee}
        for x in f.insts():
            if x.o == "store" and x.a[1][0] == "v" and x.a[1][1] in geps:
                direct.add(n)
    out = set(direct)
    while True:
        more = {n for n, cs in calls.items() if n not in out and any(c in out and c not in API and c not in KEEP for c in cs)}
        if not more:
            return direct, out
        out |= more


class K0(prim.Prim):
    native = False


def norm(t):
    return t


def judge(rows, out, fn, what, pair=None):
    for row, full in rows:
        out.count("paths")
        depth = {c: 0 for c in CH}
        stack = {c: [] for c in CH}
        unsure = False
        for ev in row.trace:
            if ev[0] == "set" and ev[1] in CH:
                out.count("channel changes")
                ch, v = ev[1], ev[2]
                if v[0] == "cons" and v[2] == ("L", ch):
                    depth[ch] += 1
                    s = v[1][1] if v[1][0] == "cons" else None
                    stack[ch].append(s[1] if s and s[0] == "num" else None)
                elif v == ("cdr", ("L", ch)):
                    depth[ch] -= 1
                    if stack[ch]: stack[ch].pop()
                elif v == ("L", ch):
                    depth[ch], stack[ch] = 0, []
                elif v[0] == "cons" and v[2][0] in ("L", "nil") or v == spec.nil or v[0] == "cdr" and v[1][0] == "cdr" or v[0] == "L":
                    out.add("C06", "set", fn, row.loc, ch, "%s sets the channel %s to %s, which neither redirects nor restores it; path: %s" % (
                        what, ch, prim.show(v), specs.path(row)))
                    unsure = True
                else:
                    unsure = True
            elif ev[0] in ("fclose", "close") and len(ev) > 1:
                for ch in CH:
                    if ev[1] in [s for s in stack[ch] if s is not None]:
                        out.add("C06", "closed", fn, row.loc, ch, "%s closes the stream %s while it is still the current %s; path: %s" % (
                            what, prim.show(ev[1]), ch, specs.path(row)))
        if unsure or not full:
            continue
        for ch in CH:
            if depth[ch] and not (pair and depth[ch] == pair):
                out.add("C06", "balance", fn, row.loc, "%s %+d" % (ch, depth[ch]), "%s returns with the channel %s %s; path: %s" % (
                    what, ch, "still redirected" if depth[ch] > 0 else "restored once too often", specs.path(row)))


def run(tier):
    out = Outcome("On every path of every operation that changes a channel stack (found by the stores to the channel fields, in the core, the "
                  "executable, the stubs and all modules): each change is a redirection or the restoration of the previous stack, at every return "
                  "as many restorations as redirections have been made, and the stream is not closed while it is current.",
                  ["program code evaluated in between leaves the stacks as it found them (this property, inductively)"])
    seen, scanned = set(), set()
    for cfg in ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"):
        for g in [x for x in GROUPS if x in ("core", "bin", "stubs", "grammar")] + front.modules():
            prog = sem.natives(g, cfg)[0] if g in front.modules() else front.program(g, KEEP, cfg)
            direct, all_ = writers(prog, front.consts())
            scanned.update((f.relfile(), n) for n, f in prog.functions.items())
            if not all_:
                continue
            p, res, und = owner.run(g, cfg)
            cons = {n: r.ct for n, r in res.items()}
            nat = {n.fn for n in sem.natives(g, cfg)[1]} if g in front.modules() else set()
            called = {x.callee for f in prog.functions.values() for x in f.insts() if x.o == "call" and x.callee}
            for n in sorted(all_):
                f = prog.functions[n]
                root = n in nat or n in API or n in KEEP or n == "main" or n not in called
                if (f.relfile(), n, cfg) in seen or not root or n in ("lisp_new", "lisp_delete"):
                    continue
                try:
                    if n in nat:
                        pl = prim.summary(prog, f, C("-b", "own", "eval"), cons, specs.P)
                    else:
                        class K1(K0):
                            def inner(self, nm):
                                return super().inner(nm) if nm in all_ else None
                        pl = prim.summary(prog, f, API.get(n) or cons.get(n) or C("-" * len(f.params)), cons, K1)
                except Giveup as ex:
                    out.undecided["%s (%s)" % (n, cfg)] = str(ex)
                    continue
                seen.add((f.relfile(), n, cfg))
                out.count("functions that change a channel")
                pair = {"lisp_io_push": 1, "lisp_io_pop": -1}.get(n)
                judge([(r, True) for r in pl.rets] + [(r, False) for r in pl.cuts], out, "%s (%s)" % (n, f.relfile()), n, pair)
                out.sample("%s: %d paths" % (n, len(pl.rets)))
    out.count("functions scanned", len(scanned))
    out.need("functions that change a channel", 3)
    return out
