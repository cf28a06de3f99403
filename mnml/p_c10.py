"""C10: equality, inequality and matching agree for every kind of value"""
from . import front, owner, prim, sem, spec
from .absint import Giveup
from .contracts import C, API
from .report import Finding, Outcome
from .spec import CHAR, NIL, NUM, PAIR, SYM, TRUE, WILD

KINDS = (NIL, TRUE, CHAR, NUM, PAIR, SYM, WILD)


class K(prim.Prim):
    native = False
    symcond = True


class O(spec.Oracle):
    fn = None
    syms = None

    def neutral(self, ev):
        return False

    def num(self, t):
        return ("number", self.norm(t))

    # -- a yes/no term of the path under the choices made ----------------------
    def yes(self, t):
        if t[0] == "i":
            return bool(t[1])
        if t[0] == "not":
            return not self.yes(t[1])
        if t[0] == "r":
            return self.truth(t)
        if t[0] == "bin" and t[1] in ("and", "or", "xor"):
            a, b = self.yes(t[2]), self.yes(t[3])
            return (a and b) if t[1] == "and" else (a or b) if t[1] == "or" else a != b
        if t[0] == "cmp" and t[1] in ("eq", "ne"):
            x, y = t[2], t[3]
            if x[0] == "kindof" and y[0] == "kindof":
                for k in KINDS[:-1]:
                    i, j = self.isa(x[1], k), self.isa(y[1], k)
                    if i or j:
                        return (i and j) == (t[1] == "eq")
                return t[1] == "eq"
            if x[0] == "kindof" and y[0] == "i":
                return self.isa(x[1], y[1]) == (t[1] == "eq")
            if y == ("i", 0):
                q = self.bytes(x)
                if q is not None:
                    return self.symeq(*q) == (t[1] == "eq")
                if x[0] in ("r", "cmp", "not"):
                    return self.yes(x) == (t[1] == "ne")
            f = lambda w: ("number", w[2]) if w[0] == "field" and w[1] == self.syms["NUMBER"] else w
            x, y = f(x), f(y)
            if x[0] == "number" and y[0] == "number":
                return self.same_number(x[1], y[1]) == (t[1] == "eq")
        raise spec.Unsure("answer %s" % prim.show(t))

    def bytes(self, x):
        """the two symbols a comparison of texts compares, completely"""
        if x[0] == "r":
            ev = self.row.trace[x[1]]
            x = ev if ev[0] in ("strncmp", "memcmp") else x
        if x[0] in ("memcmp", "strncmp", "bcmp") and len(x) == 4 and x[3][0] == "i":
            P = []
            for w in x[1:3]:
                if w[0] == "at" and w[2] == self.syms["SYMBOL"]:
                    P.append(w[1])
            if len(P) == 2:
                if x[3][1] < self.syms["SYMLEN"]:
                    self.fail("all %d bytes of a symbol are to be compared, but the path compares %d" % (self.syms["SYMLEN"], x[3][1]))
                return P
        return None

    def fact(self, k):
        if k not in self.facts:
            self.facts[k] = self.choose()
        return self.facts[k]

    def pair(self, a, b):
        a, b = self.norm(a), self.norm(b)
        return (a, b) if repr(a) < repr(b) else (b, a)

    def known(self, want):
        """what the path found out about the texts or numbers of two values"""
        for (w, u), v in self.row.conds.items():
            u2 = u
            if w == "b" and u2[0] == "symeq" and want == ("symeq",) + self.pair(*u2[1:]):
                return bool(v)
            if w == "b" and u2[0] == "cmp" and u2[1] in ("eq", "ne"):
                f = lambda t: ("number", t[2]) if t[0] == "field" and t[1] == self.syms["NUMBER"] else t
                x, y = f(u2[2]), f(u2[3])
                if x[0] == "number" and y[0] == "number" and want == ("num",) + self.pair(x[1], y[1]):
                    return (u2[1] == "eq") == bool(v)
        return None

    def symeq(self, a, b):
        k = ("symeq",) + self.pair(a, b)
        v = self.known(k)
        return self.fact(k) if v is None else v

    def same_number(self, a, b):
        k = ("num",) + self.pair(a, b)
        v = self.known(k)
        return self.fact(k) if v is None else v

    # -- the reference -----------------------------------------------------
    def equal(self, a, b, wild, depth=0):
        for n, ev in enumerate(self.row.trace):
            if ev[0] in self.fns and ev[0] in POLARITY:
                pol, w = POLARITY[ev[0]]
                x, y = ev[1], ev[2]
                if w == wild and (self.norm(x), self.norm(y)) == (self.norm(a), self.norm(b)) or \
                        w == wild and not w and (self.norm(y), self.norm(x)) == (self.norm(a), self.norm(b)):
                    if depth == 0 and ev[0] == self.fn:
                        continue
                    return self.truth(("r", n)) == pol
        for (w, u), v in self.row.conds.items():
            # the same cell is equal to itself
            if w == "b" and u[0] == "cmp" and u[1] in ("eq", "ne") and {u[2], u[3]} == {a, b} and (u[1] == "eq") == bool(v):
                return True
        if wild and self.isa(a, WILD):
            return True
        for k in KINDS:
            i = self.isa(a, k)
            if not i:
                continue
            if not self.isa(b, k):
                return False
            if k in (NIL, TRUE, WILD):
                return True
            if k in (CHAR, NUM):
                return self.same_number(a, b)
            if k == SYM:
                return self.symeq(a, b)
            if depth > 3:
                raise spec.Cut()
            return self.equal(("car", a), ("car", b), wild, depth + 1) and self.equal(("cdr", a), ("cdr", b), wild, depth + 1)
        raise spec.Skip()


POLARITY = {"lisp_equ": (True, False), "lisp_neq": (False, False), "atom_match": (True, True)}


def run(tier):
    out = Outcome("Path summaries of the functions that decide equality, inequality and pattern matching: for every path, and every combination of "
                  "kinds, numbers and texts the path leaves open, the answer is compared with structural equality (kind, number or character, all "
                  "bytes of a symbol, both halves of a pair; wildcards of the pattern match anything) and, for inequality, its negation. Recursive "
                  "calls answer by the same rule for the parts.",
                  ["builds without SSE; termination on circular lists is not judged",
                   "paths deeper than the summary are compared up to there"])
    Kc = front.consts()
    for cfg in ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"):
        for g in ["core"] + front.modules():
            try:
                prog, res, und = owner.run(g, cfg)
            except Giveup as ex:
                out.undecided["%s (%s)" % (g, cfg)] = str(ex)
                continue
            cons = {n: r.ct for n, r in res.items()}
            for f in list(prog.functions.values()):
                base = f.name.split(".")[0]
                if not front.own(g, f):
                    continue
                pol = POLARITY.get(base)
                if pol is None or len(f.params) != 2:
                    if not (g == "std" and "match" in base and f.ty.startswith("i1 (") and base not in API):
                        continue
                    pol = (True, True)
                    POLARITY[f.name] = pol
                ct = API.get(base) or cons.get(f.name) or C("bb", "plain")
                try:
                    pl = sem.run(prog, f, ct, K, cons, attrs={"LIMIT": 1, "budget": 20000})
                except Giveup as ex:
                    out.undecided["%s (%s)" % (f.name, cfg)] = str(ex)
                    continue
                out.count("functions")

                class Q(O):
                    fn, syms, fns = f.name, Kc, set(POLARITY)

                def ref(o, pol=pol):
                    want = o.equal(("a", 0), ("a", 1), pol[1])
                    got = o.yes(o.row.ret)
                    if got != (want == pol[0]):
                        o.fail("the answer must be %s" % ("yes" if want == pol[0] else "no"))
                    o.i = len(o.row.trace)
                    return spec.ANY
                for row in pl.rets:
                    out.count("paths")
                    if row.ret is None:
                        continue
                    if any(e[0] in ("...", "deep") for e in row.trace):
                        out.count("paths beyond the depth of the summary")
                        continue
                    r = spec.agree(row, 0, ref, limit=4000, cls=Q)
                    if r[0] == "miss":
                        out.add(Finding("C10", "equality", "%s (%s)" % (f.name, f.relfile()), row.loc, "%s" % r[1][:80],
                                        "%s: %s; path: %s | when %s" % (f.name, r[1], "; ".join(prim.show(e) for e in row.trace), row.when() or "always")))
                    elif r[0] == "unsure":
                        out.undecided["%s (%s)" % (f.name, row.loc)] = r[1]
                    else:
                        out.count("cases", r[1])
                out.sample("%s (%s): %d paths" % (f.name, cfg, len(pl.rets)))
    out.need("functions", 2)
    out.need("cases", 30)
    return out
