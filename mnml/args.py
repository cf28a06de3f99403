"""C03/C04: what primitives read from their environment, and where they evaluate."""
import os, re
from . import front, prim, spec, specs
from .report import Outcome

CONFIGS = {"quick": ("debug-nosse",), "thorough": ("debug-nosse", "release-nosse")}


def manual():
    """name -> list of argument texts of its manual entry"""
    out = {}
    p = os.path.join(front.REPO, "docs/manual/Reference.md")
    for l in open(p, encoding="utf-8"):
        m = re.match(r"\|\s*`(\S+)`\s*\|\s*`\((\S+)\s*([^`]*)\)`\s*\|", l.replace("`|>`", "`PIPE>`").replace("`(|>", "`(PIPE>"))
        if m:
            nm, head, args = (x.replace("PIPE>", "|>") for x in m.groups())
            out.setdefault(nm, []).append((head, args))
    return out


def arity(args):
    """(least, most or None, evaluated positions, rest?) of a syntax text"""
    toks = args.replace("[", " [ ").replace("]", " ] ").split()
    least = most = 0
    opt = rest = False
    quoted = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == "[": opt = True
        elif t == "]": opt = False
        elif t == "...":
            rest = True
        elif t == ".":
            rest = True
            i += 1
        else:
            most += 1
            quoted.append(t.startswith("'"))
            if not opt: least += 1
        i += 1
    if rest and toks and toks[-1] == "...":
        # the last one is what repeats
        least, most = max(0, least - 1), max(0, most - 1)
        quoted = quoted[:most]
    return least, most, quoted, rest


def terms(row):
    for ev in row.trace:
        yield from ev[1:]
    if row.ret is not None:
        yield row.ret
    for t in row.kinds:
        yield t
    for (w, u) in row.conds:
        yield u


def subs(t):
    if isinstance(t, tuple):
        yield t
        for w in t:
            if isinstance(w, tuple):
                yield from subs(w)


def each(tier, out):
    for cfg in CONFIGS["thorough" if tier == "thorough" else "quick"]:
        for g in front.modules():
            prog, sums = specs.summaries(g, cfg)
            for name, (n, pl) in sums.items():
                if isinstance(pl, str):
                    out.undecided["%s (%s)" % (name, cfg)] = pl
                    continue
                out.count("primitives")
                yield cfg, prog, name, n, pl


def reads(tier):
    out = Outcome("For every primitive of every module: on every path, an environment entry beyond the declared parameters is only used "
                  "after its name was compared; in debug builds the name each entry is checked against is the parameter declared at that "
                  "position; every declared parameter is used on some path; and the number and style of the declared parameters is the one "
                  "of the manual's syntax column.",
                  ["the evaluator binds the declared parameters in order (C26)"])
    man = manual()
    for cfg, prog, name, n, pl in each(tier, out):
        names = list(n.params) + ([n.rest] if n.rest else [])
        N = len(names)
        fn = "%s (%s)" % (name, n.f.relfile())
        used = set()
        rows = pl.rets + pl.cuts
        for row in rows:
            out.count("paths")
            matched, walked = {}, set()
            for (w, u), v in row.conds.items():
                if w == "b" and u[0] == "symeq":
                    for a, b in ((u[1], u[2]), (u[2], u[1])):
                        if a[0] == "key":
                            walked.add(a[1])
                            if v and b[0] == "sym":
                                matched[a[1]] = b[1]
            for k, s in matched.items():
                if k < N and s != names[N - 1 - k]:
                    out.add("C03", "name", fn, row.loc, "position %d" % (N - 1 - k),
                            "%s reads parameter %d as %s, but it is declared as %s" % (name, N - 1 - k, s, names[N - 1 - k]))
                if k < N:
                    out.count("names checked")
            for t in terms(row):
                for s in subs(t):
                    if len(s) == 2 and s[0] in ("p", "ent", "key") and isinstance(s[1], int):
                        used.add(s[1])
                        if s[0] == "p" and s[1] >= N and s[1] not in walked:
                            out.add("C03", "beyond", fn, row.loc, "entry %d" % s[1],
                                    "%s uses the caller's variable at environment entry %d as if it were a parameter (it declares %d); path: %s" % (
                                        name, s[1], N, specs.path(row)))
                    elif s in (("env", j) for j in range(N + 1, 7)) and not any(j in walked for j in range(N, s[1])) and t not in row.kinds:
                        pass
        if rows and not any("'?'" in repr(t) for r in rows for t in terms(r)):
            for i, p in enumerate(names):
                if N - 1 - i not in used and p:
                    out.add("C03", "unused", fn, n.loc, p, "%s declares %s but uses it on no path" % (name, p))
        # the manual
        for head, args in man.get(name, []):
            if head != name:
                continue
            least, most, quoted, rest = arity(args)
            out.count("manual entries")
            f = len(n.params)
            if n.rest is None or n.rest == "":
                ok = least <= f and (rest or f <= most) and all(quoted[:f])
            elif f:
                ok = f <= most and all(quoted[:f]) and (rest or most > f)
            else:
                ok = rest or most > 0
            if not ok:
                out.add("C03", "manual", fn, n.loc, args, "%s declares (%s%s), but the manual's syntax is (%s %s)" % (
                    name, " ".join(n.params), " . " + n.rest if n.rest else "", head, args))
    out.need("primitives", 40)
    return out


def envs(tier):
    out = Outcome("For every evaluation a primitive makes on any path (lisp_eval, lisp_prog, lookup, and whatever else takes an environment), the "
                  "environment is the caller's, or that one extended by bindings the primitive itself lays over it: never an environment that "
                  "still contains the primitive's own parameters, and never one that lacks the caller's.",
                  ["lisp_merge, lisp_bind, lisp_dup and lisp_conc combine environments as their names say (C26)"])
    for cfg, prog, name, n, pl in each(tier, out):
        N = len(n.params) + (1 if n.rest else 0)
        fn = "%s (%s)" % (name, n.f.relfile())
        for row in pl.rets + pl.cuts:
            out.count("paths")
            try:
                o = spec.Oracle(row, N, [])
            except spec.Skip:
                continue
            for i, ev in enumerate(row.trace):
                if ev[0] not in ("lisp_eval", "lisp_prog", "lisp_lookup", "lisp_apply") or len(ev) < 4:
                    continue
                out.count("evaluations")
                try:
                    e = o.envof(ev[2])
                except spec.Unsure:
                    out.count("environments not resolved")
                    continue
                base = e[1]
                binds = [b[1] for b in e[2] if b[0] == "all"]
                if base == ("env", N) or ("env", N) in binds:
                    bad = [b for b in [base] + binds if b[0] == "env" and b[1] < N]
                elif base[0] == "env" and base[1] < N:
                    bad = [base]
                elif base[0] == "env" or base == spec.nil:
                    bad = [base] if base[0] != "env" or not o.isnilknown(("env", N)) else []
                    if base == spec.nil and o.kind(("env", N)) == frozenset([1]):
                        bad = []
                elif base[0] in ("L",):
                    bad = [base]
                else:
                    out.count("environments not resolved")
                    continue
                for b in bad:
                    out.add("C04", "environment", fn, row.loc, "%s in %s" % (ev[0], prim.show(b)),
                            "%s evaluates %s in %s instead of the caller's environment env%d; path: %s" % (
                                name, prim.show(ev[3]), prim.show(ev[2]), N, specs.path(row)))
    out.need("evaluations", 30)
    return out
