"""Path summaries: what a function evaluates, calls and returns, and under which kinds of values, as terms over its inputs.

A term is rootless: ("p", k) value of entry k of the environment a primitive was called with, ("env", k) that environment
after k entries, ("a", i) parameter i, ("car", t), ("cdr", t), ("r", n) result of the n-th event of the path, ("cons", t, t),
("nil",), ("true",), ("sym", text), ("num", t), ("chr", t), ("i", n), ("g", name), ("?",).
"""
from . import front
from .absint import Engine, NULL, UNDEF, addr
from .contracts import API, KEEP
from .absint import Giveup
from . import sem
from .sem import Sem

PURE = {"lisp_make_symbol", "lisp_make_quote", "lisp_make_nil", "lisp_make_true", "lisp_make_wildcard", "lisp_make_number",
        "lisp_make_char", "lisp_make_symbol_from_string", "lisp_cons", "lisp_car", "lisp_cdr", "lisp_incref", "lisp_decref",
        "lisp_allocate", "lisp_deallocate", "strncpy", "memset", "memcpy", "malloc", "calloc", "free", "memcmp", "strcmp",
        "lisp_drop", "strlen", "lisp_symbol_match"}
# take a pointer to a local without writing through it
READONLY = {"lisp_make_string", "lisp_load_file", "setsockopt", "bind", "connect", "open", "unlink", "dlopen", "opendir",
            "strdup", "stat", "strchr", "strrchr", "strstr", "execve", "lisp_get_fullpath", "fopen", "atoi", "access"}


class Prim(Sem):
    sticky = ("pend", "tr", "kind", "eq", "ne", "b", "rng")
    native = True           # argument 1 is the environment of a primitive
    cut = False
    parts = 5               # how deep into a value
    rdepth = 0              # how deep into the result of an event kinds are remembered
    MAXEV = 12              # longer paths are cut there: what came before is still compared

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.cuts = []
        self.inlined = set()

    def nt(self, st, v, d=0):
        if d > 14:
            return ("?",)
        if v[0] == "i":
            return v
        if v[0] == "null":
            return ("null",)
        if v[0] == "undef":
            return ("?",)
        ad = addr(v)
        if not ad:
            if v[0] == "ty":
                return ("kindof", self.nt(st, v[1], d + 1))
            if v[0] in ("cmp", "bin", "tr", "not", "el"):
                return tuple(self.nt(st, w, d + 1) if isinstance(w, tuple) else w for w in v)
            return ("?",)
        r, off = ad
        if off:
            if r[0] == "g":
                t = self.prog.string(["go", ["g", r[1]], off])
                if t is not None:
                    return ("str", t)
            return ("at", self.nt(st, r, d + 1), off)
        if r[0] == "g":
            t = self.prog.string(["g", r[1]])
            return ("str", t) if t is not None else r
        if r[0] == "al":
            s = st.x.get(("str", r))
            return ("buf", s) if s is not None else ("local", self.lname(r))
        if r[0] == "arg":
            return self.root(r[1])
        n = st.x.get(("ev", r))
        if n is not None:
            return ("r", n)
        K = self.K
        df = st.x.get(("def", r))
        if df:
            f = df[0]
            if f == "symbol":
                return ("sym", df[1])
            if f == "lisp_make_quote":
                return ("sym", "quote")
            if f == "lisp_make_nil":
                return ("nil",)
            if f == "lisp_make_true":
                return ("true",)
            if f == "lisp_make_wildcard":
                return ("wild",)
            if f == "lisp_make_number":
                return ("num", self.nt(st, df[2], d + 1))
            if f == "lisp_make_char":
                return ("chr", self.nt(st, df[2], d + 1))
            if f == "lisp_cons":
                a, b = st.mem.get((r, K["CAR"], "ptr"), df[2]), st.mem.get((r, K["CDR"], "ptr"), df[3])
                return ("cons", self.nt(st, a, d + 1), self.nt(st, b, d + 1))
            if f in ("lisp_car", "lisp_cdr"):
                return self.part(f[5:], self.nt(st, df[2], d + 1))
        o = st.org.get(r)
        if o:
            if o[1] == K["CAR"] and o[2] in ("pair", "atom", "own"):
                return self.part("car", self.nt(st, o[0], d + 1))
            if o[1] == K["CDR"] and o[2] in ("pair", "atom", "own"):
                return self.part("cdr", self.nt(st, o[0], d + 1))
            if o[1] == K["NUMBER"] and o[2] != "lisp" and not (o[2] == "int" and o[0] == ("arg", 0)):
                return ("number", self.nt(st, o[0], d + 1))
            if o[2] == "lisp":
                return ("L", self.field(o[1], "lisp"))
            return ("field", o[1], self.nt(st, o[0], d + 1))
        if df:
            return (df[0],) + tuple(self.nt(st, w, d + 1) for w in df[1:])
        return ("?",)

    def element(self, st, x, ptr, v):
        if self.native and v[0] == "v":
            st.x[("def", v)] = ("byte", ptr)

    def lname(self, r):
        d = self.fn.defs.get(r[1])
        return d.n if d is not None and d.n else str(r[1])

    def root(self, i):
        if self.native and i == 1:
            return ("env", 0)
        if i == 0 and (self.native or self.ct.args[:1] == "-"):
            return ("lisp",)
        return ("a", i)

    def part(self, w, t):
        if t[0] == "env" and w == "cdr":
            return ("env", t[1] + 1)
        if t[0] == "env" and w == "car":
            return ("ent", t[1])
        if t[0] == "ent":
            return ("p" if w == "cdr" else "key", t[1])
        if t[0] == "cons":
            return t[1] if w == "car" else t[2]
        if t[0] == "nil":
            return t
        return (w, t)

    # -- trace -------------------------------------------------------------
    def trace(self, st):
        return st.x.get(("tr",), ())

    def push(self, st, ev):
        tr = self.trace(st)
        if len(tr) >= self.MAXEV:
            if tr[-1] != ("...",):
                st.x[("tr",)] = tr + (("...",),)
            return None
        st.x[("tr",)] = tr + (ev,)
        return len(tr)

    def join(self, e, st, b):
        super().join(e, st, b)
        self.note(st)

    def base(self, t):
        n = 0
        while t[0] in ("car", "cdr"):
            t = t[1]; n += 1
        return t, n

    def noted(self, st, t):
        """is what was found out about t worth remembering on the path?"""
        b, n = self.base(t)
        if b[0] in ("?", "nil", "true", "num", "chr", "cons", "sym"):
            return False
        if b[0] == "r" and n > self.rdepth:
            return False
        return n <= self.parts and not (b[0] in ("env", "ent", "key", "p") and b[1] > 5)

    def note(self, st):
        for k, v in list(st.facts.items()):
            if k[0] == "ty":
                t = self.nt(st, k[1])
                if self.noted(st, t):
                    o = st.x.get(("kind", t))
                    st.x[("kind", t)] = v if o is None else (o & v)
            elif k[0] in ("eq", "ne", "b", "rng") and k[1][0] not in ("ty",):
                if k[0] == "b" and k[1][0] == "cmp" and ("ty" in (k[1][2][0], k[1][3][0])):
                    if k[1][2][0] == k[1][3][0]:
                        A, B = self.nt(st, k[1][2][1]), self.nt(st, k[1][3][1])
                        if self.noted(st, A) and self.noted(st, B):
                            st.x[("b", ("cmp", k[1][1], ("kindof", A), ("kindof", B)))] = v
                    continue
                if k[0] == "ne" and addr(k[1]) and st.x.get(("own", addr(k[1])[0])):
                    continue
                t = self.nt(st, k[1])
                if t[0] == "memcmp" and self.symcond:
                    q = self.symcmp(t)
                    if q is not None and not all(w[0] in ("sym", "text", "key") or self.noted(st, w) for w in q[1:]):
                        pass
                    elif q is not None:
                        if k[0] == "eq" and v == 0:
                            self.fact(st, q, True)
                        elif k[0] == "ne" and 0 in v:
                            self.fact(st, q, False)
                        elif k[0] == "rng" and v[1] is not None and v[1] < 0:
                            self.fact(st, q, False)
                            self.fact(st, ("symlt",) + q[1:], True)
                        elif k[0] == "rng" and v[0] is not None and v[0] > 0:
                            self.fact(st, q, False)
                            self.fact(st, ("symlt", q[2], q[1]), True)
                        elif k[0] == "rng" and v[0] == 0:
                            self.fact(st, ("symlt",) + q[1:], False)
                        elif k[0] == "rng" and v[1] == 0:
                            self.fact(st, ("symlt", q[2], q[1]), False)
                elif known(t) or self.keep(t):
                    st.x[(k[0], t)] = v
                elif "'?'" in repr(t):
                    st.x[("b", ("?",))] = True

    def fact(self, st, q, v):
        """symbols do not change: comparing two of them again gives the same answer"""
        if st.x.get(("b", q), v) != v:
            st.x[("end",)] = True
        st.x[("b", q)] = v

    def keep(self, t):
        return False

    symcond = False         # remember which symbols were compared (builds without SSE)

    def symcmp(self, t):
        """comparison of the texts of two symbols as a term"""
        if len(t) != 4 or t[3] != ("i", self.K["SYMLEN"]):
            return None
        L = []
        for w in t[1:3]:
            if w[0] == "at" and w[2] == self.K["SYMBOL"]:
                L.append(w[1])
            elif w[0] in ("buf", "str"):
                L.append(("sym", w[1][:self.K["SYMLEN"]]))
            elif w[0] in ("a", "field"):
                L.append(("text", w))
            else:
                return None
        return ("symeq",) + tuple(L)

    def kinds(self, st):
        return {k[1]: v for k, v in st.x.items() if k[0] == "kind"}

    def store(self, e, st, x, root, off, cl, v):
        super().store(e, st, x, root, off, cl, v)
        if cl == "lisp" and self.slot(root, off, cl):
            self.push(st, ("set", self.field(off, cl), self.nt(st, v)))
            self.atevent(e, st, x, "set", self.trace(st)[-1])
        elif cl in ("pair", "atom") and off in (self.K["CAR"], self.K["CDR"]) and self.slot(root, off, cl):
            self.push(st, ("setcar" if off == self.K["CAR"] else "setcdr", self.nt(st, root), self.nt(st, v)))
            self.atevent(e, st, x, "set", self.trace(st)[-1])

    def isevent(self, nm, x):
        return nm is None or (nm not in PURE and not nm.startswith("llvm."))

    def call(self, e, st, x):
        nm = x.callee
        if nm in ("strncmp", "bcmp") and list(x.a[2]) == ["i", self.K["SYMLEN"]]:
            # symbols are padded with zeros (C12): the comparison of their texts is that of their bytes
            out = super().call(e, st, x)
            for s in out:
                d = s.x.get(("def", s.env.get(x.i)))
                if d and d[0] == nm:
                    s.x[("def", s.env[x.i])] = ("memcmp",) + d[1:]
            return out
        if not self.isevent(nm, x):
            return super().call(e, st, x)
        f = self.inner(nm)
        if f is not None:
            return self.enter(e, st, x, f)
        args = tuple(self.nt(st, e.val(st, a)) for a in x.a)
        ev = ((nm or "indirect",) + args) if nm else ("indirect", self.nt(st, e.val(st, x.c))) + args
        n = self.push(st, ev)
        if n is None:
            self.cutrow(st, x)
            return []
        self.atevent(e, st, x, nm, ev)
        for a in x.a:
            # what a callee may write through a pointer to a local is no longer known
            ad = addr(e.val(st, a))
            if ad and ad[0][0] == "al" and nm not in READONLY:
                for k in [k for k in st.mem if k[0] == ad[0]]:
                    del st.mem[k]
                st.x.pop(("str", ad[0]), None)
        out = super().call(e, st, x)
        for s in out:
            t = s.env.get(x.i)
            if t == ("v", x.i):
                if n is not None:
                    s.x[("ev", t)] = n
                else:
                    s.x.pop(("ev", t), None)
            elif nm == "lisp_tree_upd" and t and addr(t) and n is not None:
                # hands back the pair it was given, now holding the previous value
                s.x[("ev", addr(t)[0])] = n
                s.mem.pop((addr(t)[0], self.K["CDR"], "ptr"), None)
        return out

    # -- recursive helpers: analysed in the context of the call, up to a call string of LIMIT ---------------------
    LIMIT = 3

    def inner(self, nm):
        f = self.prog.functions.get(nm) if nm else None
        return f if f is not None and nm not in API and nm not in KEEP else None

    def instance(self, f, d):
        k = (f.name, d)
        if k not in self.prog.__dict__.setdefault("instances", {}):
            self.prog.instances[k] = front.renumber(f, 1000000 * (1 + len(self.prog.instances)))
        return self.prog.instances[k]

    def enter(self, e, st, x, f):
        if e.depth >= self.LIMIT:
            st.x[("tr",)] = self.trace(st) + (("deep",),)
            self.cut = True
            self.cutrow(st, x)
            return []
        g = self.instance(f, e.depth)
        for p, a in zip(g.params, x.a):
            st.env[p[0]] = e.val(st, a)
        st.env.pop(x.i, None)
        pin = frozenset(k for k in st.env if k not in {p[0] for p in g.params})
        sub = Engine(g, self, pin, e.depth + 1)
        save = self.fn, self.ct
        self.fn = g
        sub.run(st)
        self.fn, self.ct = save
        out = []
        for s, v in sub.outs:
            s.env = {k: w for k, w in s.env.items() if k in pin}
            if v is not None:
                s.env[x.i] = v
            out.append(s)
        self.inlined.add(f.name)
        return out

    def ret(self, e, st, x):
        if e.depth:
            e.outs.append((st.copy(), e.val(st, x.a[0]) if x.a else None))
            return
        super().ret(e, st, x)

    def cutrow(self, st, x):
        """the path is not followed further"""
        self.note(st)
        if ("end",) in st.x:
            return
        row = Row(self.trace(st), self.kinds(st), {k: v for k, v in st.x.items() if k[0] in ("eq", "ne", "b", "rng")}, None, x.loc())
        if row not in self.cuts:
            self.cuts.append(row)

    def atevent(self, e, st, x, nm, ev):
        pass

    def atret(self, e, st, x, v):
        st = st.copy()
        self.note(st)
        if ("end",) in st.x:
            return
        row = Row(self.trace(st), self.kinds(st), {k: v for k, v in st.x.items() if k[0] in ("eq", "ne", "b", "rng")},
                  self.nt(st, v) if v is not None else None, x.loc())
        if row not in self.rets:
            self.rets.append(row)


def summary(prog, f, contract, cons, cls=Prim, **kw):
    """rows of a function, with the longest call strings that stay within the budget"""
    for limit in (3, 2, 1):
        budget = {3: 4000, 2: 12000, 1: 12000}[limit]
        try:
            pl = sem.run(prog, f, contract, cls, cons, attrs={"LIMIT": limit, "budget": budget}, **kw)
            pl.used = limit
            return pl
        except Giveup as ex:
            last = ex
    raise last


class Row:
    """one path: events, kinds of values, other conditions, result"""
    def __init__(self, trace, kinds, conds, ret, loc):
        self.trace, self.kinds, self.conds, self.ret, self.loc = trace, kinds, conds, ret, loc

    def __eq__(self, o):
        return (self.trace, self.kinds, self.conds, self.ret) == (o.trace, o.kinds, o.conds, o.ret)

    def when(self):
        L = ["%s:%s" % (show(t), "".join(map(str, sorted(k)))) for t, k in self.kinds.items()]
        for (w, t), v in self.conds.items():
            L.append("%s %s %s" % (show(t), {"eq": "=", "ne": "!=", "b": "is", "rng": "in"}[w], sorted(v) if isinstance(v, frozenset) else v))
        return ", ".join(sorted(L))


def known(t):
    """a condition on something the path has a name for: an event's result, or a number of an argument"""
    if not isinstance(t, tuple):
        return True
    if t[0] == "byte":
        return "'?'" not in repr(t)
    if t[0] == "field" and t[2][0] == "local":
        return True
    if t[0] in ("?", "local", "field", "key", "nil", "true", "cons", "num", "lisp") or t[0].startswith(("llvm.", "memcmp")):
        return False
    return all(known(w) for w in t[1:])


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "[]"
    if t[0] == "i":
        return str(t[1])
    if t[0] in ("p", "env", "r", "a", "key", "ent"):
        return "%s%s" % t
    if t[0] in ("car", "cdr", "number"):
        return "%s(%s)" % (t[0], show(t[1]))
    if t[0] == "cons":
        return "(%s . %s)" % (show(t[1]), show(t[2]))
    if t and isinstance(t[0], tuple):
        return "[%s]" % ", ".join(show(w) for w in t)
    if len(t) == 1:
        return str(t[0])
    if not t:
        return "[]"
    return "%s(%s)" % (t[0], ", ".join(show(w) for w in t[1:]))
