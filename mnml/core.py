"""Comparison of functions of the interpreter core with reference semantics."""
from . import front, owner, prim, sem, spec
from .absint import Giveup
from .contracts import API, C
from .report import Finding
from .spec import PAIR, SYM

TAILF = 1               # F_TAIL_CALL
NOLISP = {"lisp_may_apply", "lisp_len", "lisp_is_string", "lisp_equ", "lisp_neq", "lisp_tree_lrot", "lisp_tree_rrot"}


class K(prim.Prim):
    native = False
    symcond = True
    kept = ()           # functions of the core that stay calls although they are not part of the interface
    deep = {}           # event -> parts of its result whose kinds are remembered
    lisp0 = True
    flags = True
    horizon = None      # event after which a path is not followed

    def inner(self, nm):
        return None if nm in self.kept else super().inner(nm)

    def root(self, i):
        if i == 0 and self.lisp0:
            return ("lisp",)
        return ("a", i)

    def noted(self, st, t):
        b, n = self.base(t)
        if b[0] == "r" and n:
            tr = self.trace(st)
            ev = tr[b[1]][0] if b[1] < len(tr) else None
            return shape(t) in self.deep.get(ev, ())
        return super().noted(st, t)

    def keep(self, t):
        # is a value remembered for the name?
        return t[0] == "field" and t[1] == self.K["CACHE"] and t[2][0] == "a"

    def flag(self, t):
        """is this a test of the tail mark of a value?"""
        if t[0] == "bin" and t[1] == "and" and t[3] == ("i", TAILF) and t[2][0] == "field" and t[2][1] == self.K["FLAGS"]:
            return ("tail", t[2][2])
        return None

    def note(self, st):
        super().note(st)
        for k, v in list(st.facts.items()):
            if k[0] in ("eq", "ne", "b") and k[1][0] == "bin":
                q = self.flag(self.nt(st, k[1]))
                if q and (q[1][0] != "r" or self.noted(st, q[1])):
                    on = bool(v) if k[0] in ("eq", "b") else (0 in v if isinstance(v, frozenset) else None)
                    if on is not None:
                        st.x[("b", q)] = on

    def store(self, e, st, x, root, off, cl, v):
        super().store(e, st, x, root, off, cl, v)
        if off == self.K["CACHE"] and v[0] != "null" and cl not in ("lisp",):
            self.push(st, ("setcache", self.nt(st, root), self.nt(st, v)))
        if self.flags and off == self.K["FLAGS"] and v != ("i", 0):
            self.push(st, ("setflag", self.nt(st, root)))
        tr = self.trace(st)
        if self.horizon and tr and self.horizon(tr, len(tr) - 1):
            self.cutrow(st, x)
            st.x[("end",)] = True


def shape(t):
    s = ""
    while t[0] in ("car", "cdr"):
        s += t[0][1]
        t = t[1]
    return s            # outermost first: car(cdr(r)) is "ad"


class O(spec.Oracle):
    quiet = frozenset()

    def neutral(self, ev):
        if ev[0] in ("setcar", "setcdr", "setflag") and self.fresh(ev[1]):
            return True
        return ev[0] in spec.NEUTRAL or ev[0] in self.quiet

    def fresh(self, t):
        return t[0] in ("cons", "num", "chr", "nil", "true")

    def same(self, a, b):
        if isinstance(b, tuple) and b and b[0] == "cons" and "'ENV'" in repr(b):
            a = self.norm(a)
            return a[0] == "cons" and self.same(a[1], b[1]) and self.same(a[2], b[2])
        if isinstance(b, tuple) and b and b[0] == "ENV":
            return self.flat(self.envof(a)) == self.flat(b)
        return super().same(a, b)

    def flat(self, e):
        """bindings to names only: patterns taken apart where the path knows their kinds"""
        L, work = [], list(e[2])
        while work:
            k, v = work.pop(0)
            if k == "all":
                if self.norm(v) != ("nil",):
                    L.append((k, self.norm(v)))
                continue
            q = self.kind(k)
            if not q & {PAIR, SYM}:
                continue
            if q == {PAIR} and len(L) + len(work) < 12:
                work[:0] = [(self.norm(("car", k)), self.norm(("car", v))), (self.norm(("cdr", k)), self.norm(("cdr", v)))]
                continue
            L.append((self.norm(k), self.norm(v)))
        return ("ENV", self.norm(e[1]), tuple(L))

    def tail(self, t):
        t = self.norm(t)
        for (w, u), v in self.row.conds.items():
            if w == "b" and u[0] == "tail" and self.norm(u[1]) == t:
                return bool(v)
        k = ("tail", t)
        if k not in self.facts:
            self.facts[k] = self.choose()
        return self.facts[k]

    def symeq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        for (w, u), v in self.row.conds.items():
            if w == "b" and u[0] == "symeq" and {self.norm(u[1]), self.norm(u[2])} == {a, b}:
                return bool(v)
        k = ("symeq",) + tuple(sorted((a, b), key=repr))
        if k not in self.facts:
            self.facts[k] = self.choose()
        return self.facts[k]


def rows(cfg, name, deep=(), kept=(), limit=2, budget=60000, cls=K, **kw):
    prog, res, und = owner.run("core", cfg)
    f = prog.functions.get(name)
    if f is None:
        return None, None
    cons = {n: r.ct for n, r in res.items()}
    ct = API.get(name) or cons.get(name) or C("-" + "b" * (len(f.params) - 1), "plain")
    return f, sem.run(prog, f, ct, cls, cons, attrs={"LIMIT": limit, "budget": budget, "deep": dict(deep), "kept": set(kept),
                                                    "lisp0": name not in NOLISP, **kw})


def compare(prop, table, out, configs=("debug-nosse",), cls=O):
    """table: function -> (number of parameters, reference, options for the summary)"""
    for cfg in configs:
        for name, (n, ref, kw) in table.items():
            try:
                f, pl = rows(cfg, name, **kw)
            except Giveup as ex:
                out.undecided["%s (%s)" % (name, cfg)] = str(ex)
                continue
            if f is None or len(f.params) != n:
                out.undecided["%s (%s)" % (name, cfg)] = "no such function" if f is None else "%d parameters" % len(f.params)
                continue
            out.count("functions compared")
            for row in pl.rets + pl.cuts:
                out.count("paths")
                r = spec.agree(row, 0, ref, limit=400, cls=cls)
                if r[0] == "miss":
                    out.add(Finding(prop, "reference", "%s (%s)" % (name, f.relfile()), row.loc, r[1].split(" expected")[0][:120],
                                    "%s: %s; path: %s | when %s" % (name, r[1], "; ".join(prim.show(e) for e in row.trace), row.when() or "always")))
                elif r[0] == "unsure":
                    out.undecided["%s %s" % (name, row.loc)] = r[1]
                else:
                    out.count("cases", r[1])
            out.sample("%s (%s): %d paths agree with the reference" % (name, cfg, len(pl.rets)))
