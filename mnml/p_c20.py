"""C20: pair access and function calls on program-supplied values are guarded by a kind check.

Every access of a car or cdr field is classified by where the cell it goes through comes from. A value is structural when
the interpreter itself builds it (environments, the symbol tree, channels, module entry lists) and program-supplied when a
program can choose it (results of evaluation, of lisp_car and lisp_cdr, values of bindings, parameters of the core's
functions). Program-supplied cells must be known to be pairs on the path of the access."""
from . import front, owner
from .absint import addr, roots_of, NULL
from .contracts import PAIR, NUMBER, NIL
from .report import Finding, Outcome

GROUPS = ("core", "bin", "io", "logic", "math", "std", "sys", "unix")
ANY = frozenset([1, 2, 3, 4, 5, 6, 7])

# Parameters of the core's functions that are structural: the interpreter's own association lists and tables.
ENV, TREE = "environment", "table"
STRUCT = {"lisp_lookup": {1: ENV}, "lisp_sss": {1: ENV, 2: "binding"}, "lisp_merge": {1: ENV, 2: ENV}, "lisp_bind": {1: ENV},
          "lisp_eval": {1: ENV}, "lisp_prog": {1: ENV},
          "lisp_setq": {1: TREE}, "lisp_tree_get": {1: TREE}, "lisp_tree_add": {1: TREE}, "lisp_tree_upd": {1: TREE, 2: "binding"},
          "lisp_tree_dfs": {1: TREE}, "module_load_symbols_list": {0: TREE}}
# ... and the results that are
RESULT = {"lisp_lookup": None, "lisp_sss": ENV, "lisp_merge": ENV, "lisp_bind": ENV, "lisp_tree_get": "binding", "lisp_tree_upd": "binding",
          "lisp_setq": TREE, "lisp_tree_add": TREE, "lisp_tree_dfs": TREE}
# the value is (a copy of, or begins with) that of an argument
SAME = {"lisp_dup": 1, "lisp_conc": 1, "lisp_append": 1, "lisp_incref": 0}
NATIVE = "ptr (ptr, ptr)"


def program(kind, path, K):
    """is the cell reached along path, from a structure of that kind, something a program supplies? None: not known"""
    A, D = K["CAR"], K["CDR"]
    if kind is None:
        return True
    if kind == TREE:
        return False
    if kind == "binding":
        path = (A,) + path
    k = 0
    while k < len(path) and path[k] == D:
        k += 1
    rest = path[k:]
    if rest in ((), (A,), (A, A)):
        return False
    return True


class Access(owner.Owner):
    """ownership analysis that also records the pair accesses, the calls and what is known of the cells"""
    LOG = None

    def ret(self, e, st, x):
        if self.fn.name in self.cons and self.fn.name not in owner.API and x.a:
            v = e.val(st, x.a[0])
            a = addr(v)
            if a and v != NULL:
                self.LOG.returned(self, st, x, a[0])
        super().ret(e, st, x)

    def factkey(self, st):
        return tuple(sorted(((k[1], tuple(sorted(v))) for k, v in st.facts.items() if k[0] == "ty"), key=repr))

    def call(self, e, st, x):
        nm = x.callee
        args = [e.val(st, a) for a in x.a]
        roots = [addr(a) if a != NULL else None for a in args]
        st0 = {i: st.types(r[0]) - {0} for i, r in enumerate(roots) if r and r[1] == 0}
        if nm is None and x.c:
            f = e.val(st, x.c)
            self.LOG.calls.add((self.fn.name, x.loc()))
            o = st.org.get(f)
            if o and o[2] != "own" and o[1] == self.K["NUMBER"] and o[0][0] not in ("al", "g"):
                self.LOG.native(self, st, x, o[0])
        elif nm in self.prog.functions or nm in owner.API:
            for i, r in enumerate(roots):
                if r and r[1] == 0 and r[0][0] not in ("al", "g"):
                    self.LOG.passed(self, st, x, nm, i, r[0], st.types(r[0]) - {0})
        tail = nm == "lisp_cdr" and roots[1] and self.flagged(st, roots[1][0])
        out = super().call(e, st, x)
        if tail:
            # the arguments of a tail call, which the evaluator itself wrapped and marked
            for s in out:
                t = s.env.get(x.i)
                if t in s.org:
                    s.org[t] = s.org[t][:2] + ("tail",)
        if nm in ("lisp_conc", "lisp_append") and len(roots) > 2:
            # the first list when it is one, what follows it otherwise
            t0, t1 = (st0.get(i, ANY) for i in (1, 2))
            ts = t0 if t0 == frozenset([PAIR]) else (t0 & {PAIR}) | (t1 if nm == "lisp_conc" else {PAIR})
            for s in out:
                t = s.env.get(x.i)
                if t and t != NULL and t[0] == "v" and frozenset(ts) != ANY:
                    s.facts[("ty", t)] = frozenset(ts)
        elif nm in self.cons and nm not in owner.API and nm in self.LOG.lists:
            for s in out:
                t = s.env.get(x.i)
                if t and t != NULL and t[0] == "v":
                    s.facts[("ty", t)] = frozenset([NIL, PAIR])
        if nm in SAME and SAME[nm] < len(roots) and roots[SAME[nm]] and nm != "lisp_incref":
            for s in out:
                t = s.env.get(x.i)
                a = addr(e.val(s, x.a[SAME[nm]]))
                if t and t != NULL and t[0] == "v" and a and t not in s.org:
                    s.org[t] = (a[0], 0, "same")
        return out

    def flagged(self, st, root):
        """has the mark of a tail call been found on this cell?"""
        f = {v for v, o in st.org.items() if o[0] == root and o[1] == self.K["FLAGS"]}
        for k, v in st.facts.items():
            if k[0] in ("eq", "ne", "b") and roots_of(k[1], set()) & f:
                t = k[1]
                if k[0] == "eq" and v not in (0, False) or k[0] == "ne" and 0 in v:
                    return True
                if k[0] == "b" and v and t[0] == "cmp" and t[1] == "eq" and t[3] != ("i", 0):
                    return True
                if k[0] == "b" and v is False and t[0] == "cmp" and t[1] == "ne" and t[3] != ("i", 0):
                    return True
        return False

    def deref(self, e, st, x, root, off):
        super().deref(e, st, x, root, off)
        if root[0] in ("al", "g") or off not in (self.K["CAR"], self.K["CDR"]) or e.cls(x) not in ("pair", "atom"):
            return
        # a number and the bytes of a symbol lie at the same place as the pair, but are no pointers
        if (x.t if x.o == "load" else e.optype(x.a[0], e.val(st, x.a[0]))) != "ptr":
            return
        self.LOG.access(self, st, x, root, off, st.types(root) - {0})

    def what(self, st, root):
        """the value, named by where it comes from and not by how it was reached"""
        o = self.origin(st, root)
        if o is None:
            return self.describe(st, root)
        t = self.describe(st, o[0])
        for f in o[2]:
            t = "%s of %s" % ("car" if f == self.K["CAR"] else "cdr", t)
        return t

    def origin(self, st, root):
        """(base, kind of the base, path of fields) or None"""
        path, n = [], 0
        while n < 24:
            n += 1
            if root[0] == "arg":
                i = root[1]
                s = STRUCT.get(self.fn.name, {})
                if self.fn.name in owner.API or self.fn.name in STRUCT:
                    return root, s.get(i), tuple(reversed(path))
                if self.fn.name in self.cons and (self.fn.name, i) in self.LOG.envs:
                    return root, ENV, tuple(reversed(path))
                if self.fn.taken and self.fn.ty == NATIVE:
                    return root, ENV if i == 1 else TREE, tuple(reversed(path))
                return root, None, tuple(reversed(path))
            o = st.org.get(root)
            if o:
                if o[2] == "tail":
                    return root, TREE, tuple(reversed(path))
                if o[2] == "lisp" or o[1] == self.K["CACHE"] and o[2] in ("atom",):
                    return root, TREE, tuple(reversed(path))
                if o[0][0] in ("al", "g"):
                    return None
                if o[2] in ("pair", "own", "atom") and o[1] in (self.K["CAR"], self.K["CDR"]):
                    path.append(o[1])
                elif o[2] != "same":
                    return None
                root = o[0]
                continue
            d = self.fn.defs.get(root[1]) if root[0] == "v" else None
            if d is not None and d.o == "call":
                if d.callee is None:
                    return root, None if d.fty == NATIVE else TREE, tuple(reversed(path))
                if d.callee in RESULT:
                    return root, RESULT[d.callee], tuple(reversed(path))
                if d.callee in self.cons and d.callee not in owner.API and (d.callee, "ret") in self.LOG.envs:
                    return root, ENV, tuple(reversed(path))
                if d.callee in owner.API or d.callee in self.cons:
                    return root, None, tuple(reversed(path))
            return None
        return None


class Log:
    """what one pass over a group found"""
    def __init__(self, group, K, envs=(), lists=()):
        self.group, self.K = group, K
        self.envs, self.lists = envs, lists           # helpers' parameters and results taken for environments, lists
        self.sites, self.bad, self.need, self.flow, self.args, self.unknown = set(), {}, {}, {}, {}, {}
        self.calls, self.natives, self.kinds = set(), {}, {}
        self.passes, self.rets, self.coarse = {}, {}, set()

    def access(self, pl, st, x, root, off, ts):
        self.sites.add((pl.fn.name, x.loc(), off))
        if ts == frozenset([PAIR]):
            return
        o = pl.origin(st, root)
        fld = "cdr" if off == self.K["CDR"] else "car"
        if o is None:
            self.unknown.setdefault((pl.fn.name, x.loc(), fld), True)
            return
        base, kind, path = o
        if not program(kind, path, self.K):
            return
        if base[0] == "arg" and not path and (not pl.fn.taken or pl.fn.ncall):
            # what the function asks of its callers
            self.need.setdefault((pl.fn.name, base[1]), []).append((ANY - (ts - {PAIR}), x.loc(), fld))
            return
        self.bad.setdefault((pl.fn.name, "%s of %s" % (fld, pl.what(st, root))), (x.loc(), ts))

    def passed(self, pl, st, x, nm, i, root, ts):
        o = pl.origin(st, root)
        helper = nm not in owner.API and nm not in STRUCT
        if helper and not ts <= {NIL}:
            self.passes.setdefault((nm, i), set()).add(self.isenv(o))
        if o is None:
            return
        base, kind, path = o
        bare = base[0] == "arg" and not path
        if STRUCT.get(nm, {}).get(i) == ENV and program(kind, path, self.K) and ts & {PAIR} and not bare:
            d = pl.fn.defs.get(base[1]) if base[0] == "v" else None
            if d is None or d.callee in owner.API:
                self.kinds.setdefault((pl.fn.name, nm, i, pl.what(st, root)), x.loc())
        if not program(kind, path, self.K):
            return
        if bare and not (pl.fn.taken and not pl.fn.ncall):
            self.flow.setdefault((pl.fn.name, base[1]), {}).setdefault((nm, i), set()).add(ts)
            return
        self.args.setdefault((nm, i), []).append((pl.fn.name, x.loc(), pl.what(st, root), ts))

    def isenv(self, o):
        if o is None:
            return False
        base, kind, path = o
        return kind == ENV and all(c == self.K["CDR"] for c in path)

    def returned(self, pl, st, x, root):
        ts = st.types(root) - {0}
        self.rets.setdefault(pl.fn.name, []).append((ts, ts <= {NIL} or self.isenv(pl.origin(st, root))))

    def native(self, pl, st, x, root):
        o = pl.origin(st, root)
        if o is None or not program(o[1], o[2], self.K):
            return
        self.natives.setdefault((pl.fn.name, pl.what(st, root)), [set(), x.loc()])[0].update(st.types(root) - {0})


def once(g, config, K, envs, lists):
    L = Log(g, K, envs, lists)
    prog, res, u = owner.run(g, config, type("Access", (Access,), {"LOG": L}))
    L.names = sorted(n for n in res)
    L.coarse = {n for n, pl in res.items() if getattr(pl, "coarse", False)}
    return L, u


def scan(groups, config):
    """The logs of the groups. What helper functions (the recursive static ones) take and give is not declared anywhere:
    that it is environments and lists is first assumed of all, and what a pass does not confirm is dropped until all holds."""
    K = front.consts()
    logs, und = [], {}
    for g in groups:
        L, u = once(g, config, K, All(), All())
        for n in range(8):
            envs = {k for k, v in L.passes.items() if v == {True}} | {(n, "ret") for n, r in L.rets.items() if all(e for _, e in r)}
            lists = {n for n, r in L.rets.items() if all(t <= {NIL, PAIR} for t, _ in r)}
            if not isinstance(L.envs, All) and envs == L.envs and lists == L.lists:
                break
            if not isinstance(L.envs, All):
                envs &= L.envs
                lists &= L.lists
            L, u = once(g, config, K, envs, lists)
        logs.append(L)
        und.update(u)
    return logs, und


class All(set):
    def __contains__(self, x):
        return True


RULE = ("Typestate analysis: on every path of every built-in and core function, a car or cdr is only read or written through a cell "
        "that is known there to be a pair, when the program chooses the cell (results of evaluation, values of bindings, elements of "
        "lists, parameters of core functions). What a core function follows unguarded in a parameter is required of every call of it. "
        "A native call goes through a number, and an environment is only ever an environment.")
ASSUME = ["structural lists (environments, the symbol tree, channels, module entry lists) are built by the interpreter only",
          "the argument cells of a built-in are there: it is called with as many values as its parameter list has (C09)"]


def judge(out, logs, config):
    need = {}
    for L in logs:
        for k, v in L.need.items():
            need.setdefault((L.group if k[0] not in owner.API else "", k), []).extend(v)

    def wants(L, k):
        r = need.get(("" if k[0] in owner.API else L.group, k))
        if not r:
            return None
        ok = ANY
        for ts, _, _ in r:
            ok &= ts
        return ok, r[0]
    # a parameter handed on is needed to be what its receiver needs
    for L in logs:
        for _ in range(6):
            ch = False
            for k, v in L.flow.items():
                for k2, tss in v.items():
                    w = wants(L, k2)
                    if w is None or k2 == k:
                        continue
                    for ts in tss:
                        if not ts <= w[0]:
                            nk = ("" if k[0] in owner.API else L.group, k)
                            e = (ANY - (ts - w[0]), w[1][1], w[1][2])
                            if e not in need.setdefault(nk, []):
                                need[nk].append(e)
                                ch = True
            if not ch:
                break
    for L in logs:
        for (fn, what), (loc, ts) in sorted(L.bad.items()):
            if fn in L.coarse:
                out.undecided["%s:%s" % (L.group, fn)] = "states were merged: %s not judged" % what
                continue
            out.add("C20", "pair", fn, loc, what, "%s is read, but the value may be %s here" % (what, kinds(ts - {PAIR})))
        for k, v in sorted(L.args.items()):
            w = wants(L, k)
            out.count("arguments checked against what the callee needs", len(v))
            if w is None:
                continue
            for fn, loc, what, ts in v:
                if not ts <= w[0] and fn not in L.coarse:
                    out.add("C20", "argument", fn, loc, "%s(%d) %s" % (k[0], k[1], what),
                            "%s is passed to %s, which follows it as a pair (%s), but it may be %s" % (what, k[0], w[1][1], kinds(ts - w[0])))
        for (fn, what), (ts, loc) in sorted(L.natives.items()):
            if ts != {NUMBER}:
                out.add("C20", "call-kind", fn, loc, what, "%s is called as a function, but may be %s" % (what, kinds(ts - {NUMBER})))
            else:
                out.add("C20", "call-number", fn, loc, what, "%s is called as a native function because it is a number" % what)
        for (fn, nm, i, what), loc in sorted(L.kinds.items()):
            out.add("C20", "environment", fn, loc, "%s(%d) %s" % (nm, i, what),
                    "%s is passed to %s as an environment, whose elements are followed as pairs" % (what, nm))
        out.count("pair accesses", len(L.sites))
        out.count("functions", len(L.names))
        out.count("indirect calls", len(L.calls))
        if L.unknown:
            out.count("accesses of unknown origin, not judged", len(L.unknown))


NAMES = {1: "NIL", 2: "T", 3: "a character", 4: "a number", 5: "a pair", 6: "a symbol", 7: "_"}


def kinds(ts):
    return ", ".join(NAMES.get(t, str(t)) for t in sorted(ts)) or "nothing"


def run(tier):
    out = Outcome(RULE, ASSUME)
    for cfg in ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"):
        logs, und = scan(GROUPS, cfg)
        out.undecided.update(und)
        judge(out, logs, cfg)
    out.need("pair accesses", 100)
    return out
