"""C13: only self-calls in tail position are turned into loops"""
from . import core, front, owner, prim, refs, sem, spec
from .absint import Giveup
from .contracts import KEEP as KEEPALL
from .report import Outcome, Finding
from .p_c11 import address
from .p_c16 import table
from .p_c26 import A, car, cdr, TABLE

KEPT = {"lisp_collect_tails", "lisp_collect_tails_assoc", "lisp_args_bind", "lisp_may_apply"}
NIL, PAIR = 1, 5
DEPTH = 3
# heads whose last part is not what the whole expression delivers, or not the last thing it does
STRICT = {"|>", "and", "list", "while", "not", "setq", "quote", "lambda", "def", "cons", "conc", "eval", "car", "cdr", "set", "+", "-", "*", "/",
          "<-", "apply", "print", "printl", "prin", "prinl", "load", "in", "out", "append", "fold", "map", "iter", "time"}


class Unnamed(Exception):
    pass


def steps(t, base):
    """k when t is base after k times cdr, else None"""
    k = 0
    while t != base:
        if not (isinstance(t, tuple) and t[0] == "cdr"):
            return None
        t, k = t[1], k + 1
    return k


def tails(row, t):
    """what a list of tails holds: ('one', cell), ('sub', expression), ('assoc', clauses)"""
    if t is None:
        raise Unnamed("no result")
    if t == spec.nil or t == ("nil",):
        return set()
    if t[0] == "cons":
        return {("one", t[1])} | tails(row, t[2])
    if t[0] == "r":
        ev = row.trace[t[1]]
        if ev[0] in ("lisp_conc", "lisp_append"):
            return tails(row, ev[2]) | tails(row, ev[3])
        if ev[0] == "lisp_collect_tails":
            return {("sub", ev[2])}
        if ev[0] == "lisp_collect_tails_assoc":
            return {("assoc", ev[2])}
        if ev[0] == "lisp_cons":
            return {("one", ev[2])} | tails(row, ev[3])
    if t == A[1] and row.kinds.get(t) == frozenset([NIL]):
        return set()
    raise Unnamed("result %s" % prim.show(t))


def kinds(row, t):
    return row.kinds.get(t, frozenset(range(8)))


def last(row, x, base, out):
    """is x the last element of the list base?"""
    if not (isinstance(x, tuple) and x[0] == "car") or "'?'" in repr(x):
        return None
    k = steps(x[1], base)
    if k is None:
        return False
    d, t = 0, x[1]
    while isinstance(t, tuple) and t[0] == "cdr":
        d, t = d + 1, t[1]
    if d >= DEPTH:
        return None
    return PAIR not in kinds(row, cdr(x[1]))


def head(row):
    yes, no = set(), set()
    for (w, u), v in row.conds.items():
        if w == "b" and u[0] == "symeq":
            for a, b in ((u[1], u[2]), (u[2], u[1])):
                if a == car(A[1]) and b[0] == "sym":
                    (yes if v else no).add(b[1])
    return yes, no


def alarm(out, rule, fn, f, row, subject, text):
    out.add(Finding("C13", rule, "%s (%s)" % (fn, f.relfile()), row.loc, subject,
                    "%s; path: %s | when %s" % (text, "; ".join(prim.show(e) for e in row.trace)[:400], row.when()[:400] or "always")))


def collect(out, f, row):
    yes, no = head(row)
    T = tails(row, row.ret)
    for kind, x in sorted(T, key=repr):
        out.count("collected positions")
        if kind == "one":
            if x == A[1]:
                continue
            if not prefix(x):
                raise Unnamed("collects %s" % prim.show(x))
            # a part taken as if it were a tail expression itself
            ok = allowed(row, yes, ("sub", x), out)
        else:
            ok = allowed(row, yes, (kind, x), out)
        if ok is None:
            out.count("positions beyond the depth of the summary")
        elif not ok:
            alarm(out, "collect", "lisp_collect_tails", f, row, "%s of %s" % (prim.show(x), "/".join(sorted(yes)) or "another form"),
                  "in a form headed by %s the part %s is taken for a tail position, though it is not the last thing the form does"
                  % ("/".join(sorted(yes)) or "none of the control forms", prim.show(x)))


def prefix(x):
    while isinstance(x, tuple) and x[0] in ("car", "cdr"):
        x = x[1]
    return x == A[1]


def allowed(row, yes, p, out):
    kind, x = p
    if "'?'" in repr(x):
        return None
    if not prefix(x):
        raise Unnamed("collects from %s" % prim.show(x))
    c1, c2 = cdr(A[1]), cdr(cdr(A[1]))
    if len(yes) > 1:
        raise spec.Skip()
    h = next(iter(yes), None)
    if h == "if":
        return kind == "sub" and x in (car(c2), car(cdr(c2)))
    if h in ("cond", "match"):
        if kind == "assoc":
            return x == c2 or steps(x, c2) is not None
        return x[0] == "cdr" and x[1][0] == "car" and steps(x[1][1], c2) is not None
    if h == "prog":
        return kind == "sub" and (x == car(A[1]) or last(row, x, c1, out))
    if h in ("when", "unless"):
        return kind == "sub" and last(row, x, c2, out)
    if h is None:
        if kinds(row, A[1]) & {PAIR} and PAIR in kinds(row, A[1]):
            return False
        return False
    if h in STRICT:
        return False
    raise Unnamed("form headed by %s" % h)


def assoc(out, f, row):
    for kind, x in sorted(tails(row, row.ret), key=repr):
        out.count("collected positions")
        if kind == "assoc" and x == cdr(A[1]):
            continue
        if kind in ("sub", "one") and x == cdr(car(A[1])):
            continue
        if "'?'" in repr(x) or not prefix(x):
            raise Unnamed("collects %s" % prim.show(x))
        k = None
        if kind in ("sub", "one") and x[0] == "cdr" and x[1][0] == "car":
            k = steps(x[1][1], A[1])
        if kind == "assoc" and steps(x, A[1]):
            k = 1
        if k is None:
            alarm(out, "clauses", "lisp_collect_tails_assoc", f, row, prim.show(x),
                  "of the clauses of a cond or match, %s is taken for a tail position; only the value of each clause is one" % prim.show(x))


def mark(out, f, row):
    symb, args, body = A[1], A[2], A[3]
    for n, ev in enumerate(row.trace):
        if ev[0] == "lisp_collect_tails":
            out.count("collections judged")
            if PAIR not in kinds(row, body) or len(kinds(row, body)) > 1:
                raise Unnamed("body not known to be a list")
            ok = last(row, ev[2], body, out)
            if ok is False and prefix3(ev[2]):
                alarm(out, "last", "lisp_mark_tail_calls", f, row, prim.show(ev[2]),
                      "tail calls are looked for in %s, which is not known to be the last expression of the body" % prim.show(ev[2]))
        if ev[0] != "setflag":
            continue
        out.count("marks judged")
        x = ev[1]
        if "'?'" in repr(x):
            continue
        if not (x[0] == "car" and x[1][0] == "car"):
            raise Unnamed("marks %s" % prim.show(x))
        t, k = x[1][1], 0
        while t[0] == "cdr":
            t, k = t[1], k + 1
        if t[0] != "r" or row.trace[t[1]][0] != "lisp_collect_tails":
            if prefix3(x):
                alarm(out, "mark", "lisp_mark_tail_calls", f, row, prim.show(x), "%s is marked as a tail call without having been found in tail position"
                      % prim.show(x))
                continue
            raise Unnamed("marks %s" % prim.show(x))
        if k == 0:
            same = any(w == "b" and u[0] == "symeq" and {u[1], u[2]} == {x, symb} and v for (w, u), v in row.conds.items())
            if not same:
                alarm(out, "self", "lisp_mark_tail_calls", f, row, prim.show(x),
                      "%s is marked as a tail call of %s without a test that it names that function" % (prim.show(x), prim.show(symb)))
        # does a parameter shadow the function?
        seen = False
        for m, e in enumerate(row.trace[:n]):
            if e[0] == "lisp_args_bind" and e[1:3] == (args, symb):
                seen = True
                if any(w in ("b", "eq") and u == ("r", m) and v for (w, u), v in row.conds.items()):
                    alarm(out, "shadow", "lisp_mark_tail_calls", f, row, prim.show(x),
                          "a call is marked although a parameter has the name of the function")
            elif e[0] != "lisp_may_apply" and args in flat(e):
                seen = True
        if not seen and not any(deep(u, args) for (w, u) in row.conds if u[0] == "symeq"):
            alarm(out, "shadow", "lisp_mark_tail_calls", f, row, prim.show(x),
                  "a call is marked without a look at whether a parameter has the name of the function")


def flat(e):
    for t in e[1:]:
        while isinstance(t, tuple) and t and t[0] in ("car", "cdr"):
            t = t[1]
        yield t


def deep(u, t):
    return u == t or isinstance(u, tuple) and any(deep(w, t) for w in u)


def prefix3(x):
    while isinstance(x, tuple) and x[0] in ("car", "cdr"):
        x = x[1]
    return x == A[3]


def let(out, f, row):
    bind = car(A[3])
    for n, ev in enumerate(row.trace):
        if ev[0] != "lisp_mark_tail_calls":
            continue
        out.count("marks asked by let")
        val = None
        for m, e in enumerate(row.trace[:n]):
            if e[0] == "lisp_eval" and e[3] == cdr(bind):
                val = ("r", m)
        if val is None:
            raise Unnamed("value of the binding")
        want = (car(bind), car(val), cdr(cdr(val)))
        if ev[2:5] != want:
            if "'?'" in repr(ev):
                raise Unnamed("arguments of the mark")
            alarm(out, "let", f.name, f, row, prim.show(ev), "let marks %s, expected the name, the parameters and the body of the function just bound (%s)"
                  % (prim.show(ev), ", ".join(prim.show(w) for w in want)))
            continue
        clos = row.trace[val[1]][2]
        seen = kinds(row, clos) == frozenset([NIL])
        for (w, u), v in row.conds.items():
            if w == "b" and u[0] == "symeq" and car(bind) in u[1:] and not v:
                seen = True
        if any(e[0] not in ("lisp_eval", "lisp_bind", "lisp_merge", "lisp_dup", "lisp_mark_tail_calls", "lisp_let_bind") and car(bind) in e for e in row.trace[:n]):
            seen = True
        if not seen:
            alarm(out, "let", f.name, f, row, prim.show(car(bind)),
                  "the body of a let-bound function is marked without a look at whether its name already means something where it is defined")


def judge(out, fn, f, pl, how):
    for row in pl.rets + pl.cuts:
        out.count("paths")
        try:
            how(out, f, row)
        except spec.Skip:
            pass
        except Unnamed as ex:
            out.undecided["%s %s" % (fn, row.loc)] = str(ex)


def census(out, cfg):
    """who marks cells: the finder of tail calls, and the evaluator on the cell it just made"""
    Kc = front.consts()
    seen = set()
    for g in ["core", "grammar", "bin", "stubs"] + front.modules():
        prog = front.program(g, KEEPALL, cfg)
        for f in prog.functions.values():
            if not front.own(g, f) or (f.file, f.name) in seen:
                continue
            seen.add((f.file, f.name))
            for x in f.insts():
                if x.o == "store" and address(f, x.a[1]) == ("struct.atom", Kc["FLAGS"]):
                    d = f.defs.get(x.a[0][1]) if x.a[0][0] == "v" else None
                    while d is not None and d.o in ("trunc", "zext") and d.a[0][0] == "v":
                        d = f.defs.get(d.a[0][1])
                    if d is not None and (d.o == "or" or (d.o == "bin" and "or" in repr(d.op))) and ["i", Kc["F_TAIL_CALL"]] in [list(w) for w in d.a]:
                        out.count("places that mark a cell")
                        if f.name not in ("lisp_mark_tail_calls", "lisp_eval", "lisp_eval_func"):
                            out.undecided["%s %s" % (f.name, x.loc())] = "marks a cell as a tail call"


def run(tier):
    out = Outcome("Path summaries of the finder of tail calls (every form it recognises, every position it collects from it, what it marks), of let's use of "
                  "it and of the evaluator's loop, each compared with the positions after which a form does nothing more.",
                  ["one-sided: a tail call that is not found is only slower and is not judged",
                   "the mark stays on the expression: marking a body shared by two functions, and redefining the function inside its own body, are not judged",
                   "lists are followed %d elements deep" % DEPTH])
    for cfg in ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"):
        for fn, n, how in (("lisp_collect_tails", 2, collect), ("lisp_collect_tails_assoc", 2, assoc), ("lisp_mark_tail_calls", 4, mark)):
            try:
                f, pl = core.rows(cfg, fn, kept=KEPT, limit=1, parts=3, horizon=lambda tr, n: tr[n][0] == "setflag",
                                  deep={"lisp_collect_tails": ("", "a", "aa", "d")}, budget=200000)
            except Giveup as ex:
                out.undecided["%s (%s)" % (fn, cfg)] = str(ex)
                continue
            if f is None or len(f.params) != n:
                out.undecided["%s (%s)" % (fn, cfg)] = "no such function" if f is None else "%d parameters" % len(f.params)
                continue
            out.count("functions")
            judge(out, fn, f, pl, how)
            out.sample("%s (%s): %d paths, every position collected or marked is a tail position" % (fn, cfg, len(pl.rets) + len(pl.cuts)))
        census(out, cfg)
        # let
        prog, res, und = owner.run("std", cfg)
        f = prog.functions.get("lisp_let_bind")
        if f is None or len(f.params) != 4 or "lisp_let_bind" not in res:
            out.undecided["lisp_let_bind (%s)" % cfg] = "no such function"
        else:
            cons = {n: r.ct for n, r in res.items()}
            try:
                pl = sem.run(prog, f, cons["lisp_let_bind"], core.K, cons,
                             attrs={"LIMIT": 1, "budget": 60000, "deep": {"lisp_merge": ("", "d", "aa", "a")}, "kept": {"lisp_let_bind"}})
                out.count("functions")
                judge(out, "lisp_let_bind", f, pl, let)
                out.sample("lisp_let_bind (%s): %d paths" % (cfg, len(pl.rets) + len(pl.cuts)))
            except Giveup as ex:
                out.undecided["lisp_let_bind (%s)" % cfg] = str(ex)
        # the loop of the evaluator
        n, ref, kw = TABLE["lisp_eval"]
        try:
            f, pl = core.rows(cfg, "lisp_eval", **kw)
        except Giveup as ex:
            out.undecided["lisp_eval (%s)" % cfg] = str(ex)
            continue
        if f is not None and len(f.params) == n:
            out.count("functions")
            for row in pl.rets + pl.cuts:
                if not any(w == "b" and u[0] == "tail" for (w, u) in row.conds):
                    continue
                out.count("paths")
                r = spec.agree(row, 0, ref, limit=400, cls=core.O)
                if r[0] == "miss":
                    alarm(out, "loop", "lisp_eval", f, row, r[1].split(" expected")[0][:120], "evaluation of a call: " + r[1])
                elif r[0] == "unsure":
                    out.undecided["lisp_eval %s" % row.loc] = r[1]
    t = table("C13", {"def": refs.DEFS["def"]}, tier, "", 0)
    t.findings = [x for x in t.findings if "tail calls" in x.text]
    out.take(t)
    out.need("functions", 2)
    return out
