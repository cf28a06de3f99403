"""Reference semantics of primitives, compared with the path summaries of their implementations.

A reference semantics is a function over an Oracle: it asks for the kind of an argument, says which expression is evaluated
next and in which environment, and returns the value the primitive must deliver. The Oracle answers from one path summary
(what the path found out, what it evaluates, in order, what it returns). Where the path has not established an answer, both
answers are tried and the path must agree with the reference under each.
"""
from .prim import show

ALL = frozenset(range(1, 8))
NIL, TRUE, CHAR, NUM, PAIR, SYM, WILD = range(1, 8)
LIT = {"nil": 1, "true": 2, "chr": 3, "num": 4, "cons": 5, "sym": 6, "wild": 7}
LISP = ("lisp",)
nil, true, wild = ("nil",), ("true",), ("wild",)
ANY = ("any",)          # a result the reference leaves open

# calls that neither evaluate program code nor change anything a program can see
NEUTRAL = {"lisp_is_string", "lisp_len", "lisp_dup", "lisp_merge", "lisp_make_cstring", "lisp_make_string", "strlen", "strcpy", "strcat", "strncat",
           "strchr", "strrchr", "strcmp", "strncmp", "snprintf", "sprintf", "__errno_location", "getenv", "lisp_equ", "lisp_neq", "lisp_bind",
           "lisp_may_apply", "lisp_timestamp", "lisp_get_fullpath", "getpid", "lisp_get_type", "lisp_get_number", "lisp_lookup", "lisp_mark_tail_calls",
           "lisp_tree_get", "strdup", "lisp_symbol_match", "lisp_conc", "lisp_sss", "lisp_append", "inet_ntop", "memmove", "memchr", "strerror", "htons",
           "ntohs", "clock_gettime", "lisp_prefix", "lisp_process_escapes"}
REL = {"slt": "l", "sle": "le", "sgt": "g", "sge": "ge", "eq": "e", "ne": "lg", "ult": "l", "ule": "le", "ugt": "g", "uge": "ge"}


class Miss(Exception):
    """the path contradicts the reference"""


class Unsure(Exception):
    """the path says too little to be compared"""


class Cut(Exception):
    """the summary of the path ends here (a loop or a recursion continues): what was seen agrees"""


class Skip(Exception):
    """no such path"""


def holes(t):
    return isinstance(t, tuple) and (t[:1] == ("?",) or any(holes(w) for w in t if isinstance(w, tuple)))


class Oracle:
    def __init__(self, row, N, choices, env0=True):
        self.row, self.i, self.todo = row, 0, list(choices)
        self.taken = []
        self.kinds = {}
        for t, k in row.kinds.items():
            k = k - {0}
            if not k:
                raise Skip()
            self.kinds[t] = k
        self.facts = {}
        self.alike = []
        for (w, u), v in row.conds.items():
            if w == "b" and u[0] == "cmp" and u[2][0] == "kindof" and u[3][0] == "kindof" and u[1] in ("eq", "ne"):
                self.alike.append((self.norm(u[2][1]), self.norm(u[3][1]), (u[1] == "eq") == bool(v)))
        self.spread()
        self.N = N
        self.env = ("env", N)
        self.P = [("p", N - 1 - i) for i in range(N)]

    # -- choices -----------------------------------------------------------
    def choose(self):
        v = self.todo.pop(0) if self.todo else True
        self.taken.append(v)
        return v

    def kind(self, t):
        t = self.norm(t)
        if t[0] in LIT:
            return frozenset([LIT[t[0]]])
        return self.kinds.get(t, ALL)

    def isa(self, t, *ks):
        want, t = frozenset(ks), self.norm(t)
        k = self.kind(t)
        if k <= want:
            return True
        if not k & want:
            return False
        if len(self.taken) > 24:
            raise Cut()
        v = self.choose()
        self.kinds[t] = (k & want) if v else (k - want)
        self.spread()
        return v

    def spread(self):
        """what the path knows about two values being of the same kind, or not"""
        for _ in range(3):
            for a, b, eq in self.alike:
                ka, kb = self.kind(a), self.kind(b)
                if eq:
                    na = nb = ka & kb
                else:
                    na = ka - kb if len(kb) == 1 else ka
                    nb = kb - ka if len(ka) == 1 else kb
                if not na or not nb:
                    raise Skip()
                for t, o, n in ((a, ka, na), (b, kb, nb)):
                    if n != o and t[0] not in LIT:
                        self.kinds[t] = n

    def isnil(self, t):
        return self.isa(t, NIL)

    def isnilknown(self, t):
        return self.kind(t) == frozenset([NIL])

    def ispair(self, t):
        return self.isa(t, PAIR)

    def norm(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] in ("car", "cdr"):
            x = self.norm(t[1])
            if x[0] == "cons":
                return self.norm(x[1] if t[0] == "car" else x[2])
            if x[0] in LIT:
                return nil
            k = self.kinds.get(x, ALL)
            if PAIR not in k:
                return nil
            t = (t[0], x)
        elif t[0] == "number" and t[1][0] == "num":
            return self.norm(t[1][1])
        else:
            t = tuple(self.norm(w) if isinstance(w, tuple) else w for w in t)
            if t[0] == "bin" and t[1] in ("add", "mul", "and", "or", "xor") and repr(t[2]) > repr(t[3]):
                t = ("bin", t[1], t[3], t[2])
            if t[0] == "lisp_make_symbol" and len(t) == 3:
                t = ("symof", t[2])
            if t[0] == "r" and t[1] < len(self.row.trace):
                ev = self.row.trace[t[1]]
                if ev[0] == "lisp_dup":
                    return ("dup", self.norm(ev[2]))
        k = self.kinds.get(t)
        if k == frozenset([NIL]):
            return nil
        if k == frozenset([TRUE]):
            return true
        return t

    # -- events ------------------------------------------------------------
    def neutral(self, ev):
        return ev[0] in NEUTRAL

    def peek(self, also=None):
        tr = self.row.trace
        i = self.i
        while i < len(tr):
            ev = tr[i]
            if ev[0] in ("...", "deep"):
                raise Cut()
            if not self.neutral(ev) or ev[0] == also:
                self.i = i
                return ev
            i += 1
        return None

    def fail(self, text):
        raise Miss(text)

    def same(self, a, b):
        if b == ANY:
            return True
        if b[0] == "ENV":
            return self.envof(a) == b
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        if b[0] == "anyof":
            return any(self.same(a, w) for w in b[1:])
        if holes(a):
            raise Unsure("unknown part in %s" % show(a))
        if a and b and a[0] == b[0] and len(a) == len(b) and ("anyof" in repr(b) or "'any'" in repr(b)):
            return all(self.same(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y for x, y in zip(a[1:], b[1:]))
        return False

    def match(self, ev, want):
        return ev is not None and ev[0] == want[0] and len(ev) >= len(want) and all(self.same(x, y) for x, y in zip(ev[1:], want[1:]))

    def call(self, *want, what=None):
        ev = self.peek(want[0])
        if not self.match(ev, want):
            if holes(ev):
                raise Unsure("unknown part in %s" % show(ev))
            self.fail("%s expected, but the path %s" % (what or show(want), "does nothing more" if ev is None else "does " + show(ev)))
        self.i += 1
        return ("r", self.i - 1)

    def next(self, *want):
        """consume the next event when it is this one"""
        ev = self.peek(want[0])
        if self.match(ev, want):
            self.i += 1
            return ("r", self.i - 1)
        return None

    def eval(self, env, x, what=None):
        if self.norm(x) == nil:
            # NIL evaluates to itself: evaluating it or not is the same
            r = self.next("lisp_eval", LISP, env, nil)
            if r is None:
                return nil
            self.kinds[r] = frozenset([NIL])
            return r
        return self.call("lisp_eval", LISP, env, x, what=what or "evaluation of %s in %s" % (show(self.norm(x)), show(env)))

    def open(self):
        """the reference says nothing about the rest of this path"""
        raise Cut()

    def prog(self, env, L, init=nil):
        """evaluation of a list of expressions in order, value of the last one"""
        r = self.next("lisp_prog", LISP, env, L, init)
        if r is not None:
            if self.norm(L) == nil and self.norm(init) == nil:
                self.kinds[r] = frozenset([NIL])
            return r
        ev = self.peek()
        if ev is not None and ev[0] == "lisp_prog":
            self.fail("evaluation of the body %s in %s expected, but the path does %s" % (show(self.norm(L)), show(env), show(ev)))
        while self.ispair(L):
            init = self.eval(env, ("car", L), "evaluation of the next body expression %s" % show(self.norm(("car", L))))
            L = ("cdr", L)
            r = self.next("lisp_prog", LISP, env, L, init)
            if r is not None:
                return r
        return init

    def end(self, ret):
        ev = self.peek()
        if ev is not None:
            self.fail("nothing more is to be done, but the path does %s" % show(ev))
        if ret == ANY or ret is None:
            return
        if self.row.ret is None:
            return
        if not self.same(self.row.ret, ret):
            self.fail("result %s expected, but the path returns %s" % (show(self.norm(ret)), show(self.norm(self.row.ret))))

    # -- environments: a base and the bindings laid over it, oldest first --
    def envof(self, t):
        # how it was built says more than that it is known to be empty
        if t[0] != "r" or t[1] >= len(self.row.trace) or self.row.trace[t[1]][0] not in ("lisp_merge", "lisp_bind", "lisp_conc"):
            t = self.norm(t)
        if t[0] == "dup":
            return self.envof(t[1])
        if t == nil:
            return ("ENV", nil, ())
        if t[0] == "r":
            ev = self.row.trace[t[1]] if t[1] < len(self.row.trace) else ("?",)
            if ev[0] == "lisp_merge":
                a, b = self.envof(ev[2]), self.envof(ev[3])
                return ("ENV", a[1], a[2] + (b[2] if b[1] == nil else (("all", b[1]),) + b[2]))
            if ev[0] == "lisp_bind":
                a = self.envof(ev[2])
                return ("ENV", a[1], a[2] + ((self.norm(ev[3]), self.norm(ev[4])),))
            if ev[0] in ("lisp_conc",):
                a, b = self.envof(ev[2]), self.envof(ev[3])
                return ("ENV", b[1], b[2] + (a[2] if a[1] == nil else (("all", a[1]),) + a[2]))
        if t[0] == "cons" and self.norm(t[1])[0] == "cons":
            kv, a = self.norm(t[1]), self.envof(t[2])
            return ("ENV", a[1], a[2] + ((kv[1], kv[2]),))
        if holes(t):
            raise Unsure("environment %s" % show(t))
        return ("ENV", t, ())

    # -- other facts -------------------------------------------------------
    def truth(self, t):
        """outcome of a yes/no term on this path"""
        t = self.norm(t)
        if t[0] == "i":
            return bool(t[1])
        for (w, u), v in self.row.conds.items():
            un = self.norm(u)
            if w == "b" and un == t:
                return v
            if w == "ne" and un == t and 0 in v:
                return True
            if w == "eq" and un == t:
                return bool(v)
            if w == "b" and un == ("not", t):
                return not v
        if t in self.facts:
            return self.facts[t]
        v = self.choose()
        self.facts[t] = v
        return v

    def pred(self, name, *args, sym=False):
        """answer of a predicate call, wherever on the path it was asked"""
        for n, ev in enumerate(self.row.trace):
            if ev[0] == name and (all(self.same(x, y) for x, y in zip(ev[1:], args)) or
                                  sym and len(ev) == 3 and self.same(ev[1], args[1]) and self.same(ev[2], args[0])):
                return self.truth(("r", n))
        return None

    def ask(self, name, *args, sym=False):
        v = self.pred(name, *args, sym=sym)
        if v is None:
            t = (name,) + tuple(self.norm(a) for a in args)
            if t not in self.facts:
                self.facts[t] = self.choose()
            v = self.facts[t]
        return v

    def equal(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a == b:
            return True
        for (w, u), v in self.row.conds.items():
            if w == "b" and u[0] == "cmp" and u[1] in ("eq", "ne") and {self.norm(u[2]), self.norm(u[3])} == {a, b} and (u[1] == "eq") == bool(v):
                return True
        v = self.pred("lisp_neq", a, b, sym=True)
        if v is not None:
            return not v
        return self.ask("lisp_equ", a, b, sym=True)

    def isstring(self, t):
        v = self.pred("lisp_is_string", t)
        if v is not None:
            return v
        if not self.isa(t, PAIR, NIL):
            return False
        return self.ask("lisp_is_string", t)

    def compare(self, p, a, b):
        """a p b for numbers"""
        a, b = self.norm(a), self.norm(b)
        if a[0] == "i" and b[0] == "i":
            from .absint import cmpc
            return cmpc(p, a[1], b[1])
        poss = set("leg")
        FL = {"l": "g", "g": "l", "e": "e"}
        for (w, u), v in self.row.conds.items():
            un = self.norm(u)
            if w == "b" and un[0] == "cmp" and un[1] in REL:
                s = set(REL[un[1]])
                if not v:
                    s = set("leg") - s
                if (un[2], un[3]) == (a, b):
                    poss &= s
                elif (un[2], un[3]) == (b, a):
                    poss &= {FL[x] for x in s}
            for x, y, fl in ((a, b, False), (b, a, True)):
                if un == x and y[0] == "i":
                    s = set("leg")
                    if w == "eq":
                        s = {"e" if v == y[1] else "l" if v < y[1] else "g"}
                    elif w == "ne" and y[1] in v:
                        s = {"l", "g"}
                    elif w == "rng":
                        lo, hi = v
                        if lo is not None and lo > y[1]: s = {"g"}
                        elif lo is not None and lo == y[1]: s = {"e", "g"}
                        if hi is not None and hi < y[1]: s &= {"l"}
                        elif hi is not None and hi == y[1]: s &= {"l", "e"}
                    poss &= {FL[q] for q in s} if fl else s
        if not poss:
            raise Skip()
        k = ("rel", a, b)
        if k in self.facts:
            poss &= self.facts[k]
        want = set(REL[p])
        if poss <= want:
            return True
        if not poss & want:
            return False
        v = self.choose()
        self.facts[k] = poss & want if v else poss - want
        return v


def agree(row, N, ref, limit=64, cls=Oracle, **kw):
    """('ok', n) | ('miss', text) | ('unsure', text): the path against the reference under every open choice"""
    work, n, cut = [[]], 0, False
    while work:
        pre = work.pop()
        n += 1
        if n > limit:
            return ("unsure", "too many cases")
        try:
            o = cls(row, N, pre, **kw)
        except Skip:
            return ("ok", 0, False)
        res = None
        try:
            ret = ref(o)
            o.end(ret)
        except Miss as m:
            res = ("unsure" if any(holes(k[1]) for k in row.conds) else "miss", str(m))
        except Unsure as u:
            res = ("unsure", str(u))
        except Cut:
            cut = True
        except Skip:
            pass
        if res:
            return res
        for j in range(len(pre), len(o.taken)):
            work.append(o.taken[:j] + [not o.taken[j]])
    return ("ok", n, cut)
