"""Sizes: linear forms over program values, guard facts and intervals; writes into objects of known size (C08)."""
from fractions import Fraction
from . import front

INF = float("inf")
ONE = ()


def lc(c):
    return {ONE: c} if c else {}


def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        v = r.get(x, 0) + k * c
        if v:
            r[x] = v
        else:
            r.pop(x, None)
    return r


def lmul(a, k):
    return {x: c * k for x, c in a.items()} if k else {}


def const(a):
    return a.get(ONE, 0) if all(x == ONE for x in a) else None


WIDTH = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
SAME = {"strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "memset", "stpcpy", "fgets", "getcwd"}       # return their first argument
WITHIN = {"strstr", "strchr", "strrchr", "strpbrk", "index", "rindex", "strchrnul", "memchr", "strtok"}           # a place inside the first argument
TERMINATES = {"strcpy", "strcat", "snprintf", "sprintf", "fgets", "getcwd", "realpath", "inet_ntop"}


class FA:
    """one function"""

    def __init__(self, prog, fn, model):
        self.prog, self.fn, self.m = prog, fn, model
        n = len(fn.blocks)
        self.succ = [fn.succs(b) for b in range(n)]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            for s in set(self.succ[b]):
                self.pred[s].append(b)
        self.reach = self.reachable(0)
        self.dominators()
        self.lm, self.pm, self.iv, self.fm, self.ff = {}, {}, {}, {}, {}
        self.pos = {x.i: (x.blk, k) for b in fn.blocks for k, x in enumerate(b)}
        self.loads = {}
        self.closure = {}
        self.ret_memo = None

    def reachable(self, b):
        seen, w = {b}, [b]
        while w:
            for s in self.succ[w.pop()]:
                if s not in seen:
                    seen.add(s); w.append(s)
        return seen

    def dominators(self):
        n = len(self.fn.blocks)
        full = set(range(n))
        self.dom = [full for _ in range(n)]
        self.dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                if b not in self.reach:
                    continue
                ps = [self.dom[p] for p in self.pred[b] if p in self.reach]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != self.dom[b]:
                    self.dom[b] = d
                    ch = True

    # -- values ------------------------------------------------------------
    def lin(self, o):
        if o[0] == "i":
            return lc(o[1])
        if o[0] in ("z", "u", "n"):
            return {}
        if o[0] != "v":
            return {("op", repr(o)): 1}
        v = o[1]
        if v not in self.lm:
            self.lm[v] = {("v", v): 1}              # guards cycles
            self.lm[v] = self.lin1(v)
        return self.lm[v]

    def lin1(self, v):
        x = self.fn.defs.get(v)
        atom = {("v", v): 1}
        if x is None:
            return atom
        if x.o in ("add", "sub"):
            return ladd(self.lin(x.a[0]), self.lin(x.a[1]), 1 if x.o == "add" else -1)
        if x.o == "mul":
            a, b = self.lin(x.a[0]), self.lin(x.a[1])
            if const(b) is not None:
                return lmul(a, const(b))
            if const(a) is not None:
                return lmul(b, const(a))
        if x.o == "shl" and x.a[1][0] == "i":
            return lmul(self.lin(x.a[0]), 1 << x.a[1][1])
        if x.o in ("sext", "trunc", "freeze"):
            return self.lin(x.a[0]) if WIDTH.get(x.t, 64) >= 32 else atom
        if x.o == "zext":
            return self.lin(x.a[0]) if WIDTH.get(x.ft, 64) >= 32 else atom
        if x.o == "ptrtoint":
            b, off = self.ptr(x.a[0])
            return ladd({("base", b): 1}, off)
        if x.o == "call" and x.callee == "llvm.expect.i64":
            return self.lin(x.a[0])
        if x.o == "load":
            return {("v", self.same_load(x)): 1}
        return atom

    def same_load(self, x):
        """an earlier load of the same place with nothing in between that could change it"""
        if x.i in self.loads:
            return self.loads[x.i]
        self.loads[x.i] = x.i
        b, off = self.ptr(x.a[0])
        for y in self.fn.insts():
            if y.o == "load" and y is not x and y.t == x.t and self.before(y, x) and self.ptr(y.a[0]) == (b, off) and not self.killed(y, x, b):
                self.loads[x.i] = self.same_load(y)
                break
        return self.loads[x.i]

    def before(self, y, x):
        return y.blk == x.blk and self.pos[y.i][1] < self.pos[x.i][1] or y.blk != x.blk and y.blk in self.dom[x.blk]

    def killed(self, y, x, base):
        def hits(z):
            if z.o == "call":
                return not (z.callee or "").startswith("llvm.") and z.callee not in PURE
            if z.o == "store":
                zb, _ = self.ptr(z.a[1])
                if zb == base:
                    return True
                yb = self.fn.defs.get(y.a[0][1]) if y.a[0][0] == "v" else None
                zz = self.fn.defs.get(z.a[1][1]) if z.a[1][0] == "v" else None
                ty, tz = (q.st[0] if q is not None and q.o == "gep" and q.st else None for q in (yb, zz))
                if ty is not None and tz is not None:
                    return (ty, yb.st[1]) == (tz, zz.st[1])
                return zb[0] not in ("al", "g") and base[0] not in ("al", "g") and not (ty is not None and zz is not None and zz.vi)
            return False
        (b1, k1), (b2, k2) = self.pos[y.i], self.pos[x.i]
        if b1 == b2:
            return any(hits(z) for z in self.fn.blocks[b1][k1 + 1:k2])
        if any(hits(z) for z in self.fn.blocks[b1][k1 + 1:]) or any(hits(z) for z in self.fn.blocks[b2][:k2]):
            return True
        mid, w = set(), [p for p in self.pred[b2] if p != b1]
        while w:
            p = w.pop()
            if p in mid or p == b1:
                continue
            mid.add(p)
            w += self.pred[p]
        return any(hits(z) for p in mid if p in self.reach for z in self.fn.blocks[p])

    # -- pointers ----------------------------------------------------------
    def ptr(self, o):
        """(base, offset in bytes)"""
        if o[0] == "g":
            return ("g", o[1]), {}
        if o[0] == "go":
            b, off = self.ptr(o[1])
            return b, ladd(off, lc(o[2]))
        if o[0] in ("n", "z", "u"):
            return ("null",), {}
        if o[0] != "v":
            return ("u", repr(o)), {}
        v = o[1]
        if v not in self.pm:
            self.pm[v] = (("cyc",), {("off", v): 1})
            self.pm[v] = self.ptr1(v)
        return self.pm[v]

    def bases(self, o, seen):
        if o[0] == "v":
            x = self.fn.defs.get(o[1])
            if x is not None and x.o in ("phi", "select"):
                if o[1] in seen:
                    return set()
                seen.add(o[1])
                ops = [i[0] for i in x.inc] if x.o == "phi" else x.a[1:]
                return set().union(*[self.bases(i, seen) for i in ops])
            if x is not None and x.o == "gep":
                return self.bases(x.a[0], seen)
            if x is not None and x.o == "call" and x.callee in WITHIN | SAME:
                return self.bases(x.a[0], seen)
        if o[0] in ("n", "z"):
            return set()
        return {self.ptr(o)[0]}

    def starts(self, o, seen):
        """objects the operand may point to the start of; an unknown one if it may point elsewhere"""
        x = self.fn.defs.get(o[1]) if o[0] == "v" else None
        if x is not None and x.o in ("phi", "select"):
            if o[1] in seen:
                return set()
            seen.add(o[1])
            return set().union(*[self.starts(i, seen) for i in ([i[0] for i in x.inc] if x.o == "phi" else x.a[1:])])
        if o[0] in ("n", "z"):
            return set()
        b, off = self.ptr(o)
        return {b} if not off else {("u", o[1])}

    def ptr1(self, v):
        x = self.fn.defs.get(v)
        if x is None:
            for k, p in enumerate(self.fn.params):
                if p[0] == v:
                    return ("p", k), {}
            return ("u", v), {}
        if x.o == "alloca":
            return ("al", v), {}
        if x.o == "gep":
            b, off = self.ptr(x.a[0])
            if b == ("cyc",):
                bs = self.bases(x.a[0], set())
                if len(bs) == 1:
                    b = next(iter(bs))
                    off = self.offset_atom(x.a[0])
            off = ladd(off, lc(x.off or 0))
            for op, scale in x.vi or ():
                off = ladd(off, lmul(self.lin(op), scale))
            return b, off
        if x.o in ("phi", "select"):
            bs = self.bases(("v", v), set())
            if x.o == "phi" and len(bs) > 1 and self.sized(v):
                return ("ph", v), {}
            if len(bs) == 1:
                return next(iter(bs)), {("off", v): 1}
            return ("u", v), {}
        if x.o == "call":
            if x.callee in SAME or x.callee == "realpath" and x.a[1][0] not in ("n", "z"):
                return self.ptr(x.a[1 if x.callee == "realpath" else 0])
            if x.callee in WITHIN:
                bs = self.bases(x.a[0], set())
                if len(bs) == 1:
                    return next(iter(bs)), {("off", v): 1}
            if x.callee in ("malloc", "calloc", "strdup", "strndup", "realloc"):
                return ("h", v), {}
            r = self.m.returns(x.callee) if x.callee else None
            if r is not None:
                return (r, {}) if r[0] == "g" else self.ptr(x.a[r[1]])
        if x.o == "inttoptr":
            l = self.lin(x.a[0])
            for a in l:
                if a and a[0] == "base" and l[a] == 1:
                    r = dict(l); r.pop(a)
                    return a[1], r
        if x.o == "load":
            return ("u", self.same_load(x)), {}
        return ("u", v), {}

    def offset_atom(self, o):
        return {("off", o[1]): 1}

    def sized(self, v):
        """counters that hold the allocated size whenever v holds the allocated block"""
        x = self.fn.defs[v]
        return [y.i for y in self.fn.blocks[x.blk] if y.o == "phi" and y.t == "i64" and self.goes(x, y, frozenset())]

    def goes(self, x, y, seen):
        if (x.i, y.i) in seen:
            return True
        seen = seen | {(x.i, y.i)}
        size = {p: o for o, p in y.inc}
        for o, p in x.inc:
            n = size.get(p)
            d = self.fn.defs.get(o[1]) if o[0] == "v" else None
            if n is None or d is None:
                return False
            if d.o == "call" and d.callee in ("malloc", "realloc"):
                if self.lin(n) != self.lin(d.a[d.callee == "realloc"]):
                    return False
                continue
            e = self.fn.defs.get(n[1]) if n[0] == "v" else None
            if d.o != "phi" or e is None or e.o != "phi" or e.blk != d.blk or not self.goes(d, e, seen):
                return False
        return True

    def caps(self, base):
        """lower bounds of the object's size in bytes"""
        if base[0] == "al":
            x = self.fn.defs[base[1]]
            return [lmul(self.lin(x.a[0]) if x.a else lc(1), x.sz)]
        if base[0] == "g":
            g = self.prog.globals.get(base[1])
            return [lc(g["sz"])] if g and g.get("def") and g.get("sz") else []
        if base[0] == "h":
            x = self.fn.defs[base[1]]
            if x.callee in ("malloc", "realloc"):
                return [self.lin(x.a[x.callee == "realloc"])]
            return []
        if base[0] == "ph":
            return [{("v", k): 1} for k in self.sized(base[1])]
        if base[0] == "p":
            return self.m.pcaps(self, base[1])
        return []

    # -- facts -------------------------------------------------------------
    def cond(self, o, truth, depth=0):
        """linear facts (form <= 0, or form != 0) that hold when o has this truth"""
        if depth > 6 or o[0] != "v":
            return []
        x = self.fn.defs.get(o[1])
        if x is None:
            return []
        if x.o in ("zext", "sext", "trunc", "freeze"):
            return self.cond(x.a[0], truth, depth + 1)
        if x.o == "call" and x.callee == "llvm.expect.i64":
            return self.cond(x.a[0], truth, depth + 1)
        if x.o == "xor" and x.a[1] in (["i", 1], ["i", -1], ("i", 1), ("i", -1)):
            return self.cond(x.a[0], not truth, depth + 1)
        if x.o == "and" and truth and x.t == "i1" or x.o == "or" and not truth and x.t == "i1":
            return self.cond(x.a[0], truth, depth + 1) + self.cond(x.a[1], truth, depth + 1)
        if x.o == "select" and x.t == "i1":
            c, a, b = x.a
            if truth and b[0] == "i" and b[1] == 0:
                return self.cond(c, True, depth + 1) + self.cond(a, True, depth + 1)
            if not truth and a[0] == "i" and a[1] != 0:
                return self.cond(c, False, depth + 1) + self.cond(b, False, depth + 1)
            return []
        if x.o == "phi":
            ways = [i for i in x.inc if not (i[0][0] == "i" and bool(i[0][1]) != truth)]
            if len(ways) == 1 and ways[0][1] in self.dom[x.blk] | set(self.pred[x.blk]):
                return self.cond(ways[0][0], truth, depth + 1) + self.edge_facts(ways[0][1], x.blk)
            return []
        if x.o != "icmp":
            return []
        p, a, b = x.p, x.a[0], x.a[1]
        if b[0] == "i" and b[1] == 0 and p in ("eq", "ne"):
            y = self.fn.defs.get(a[1]) if a[0] == "v" else None
            if y is not None and (y.o in ("zext", "sext") and y.ft == "i1" or y.o == "call" and y.callee == "llvm.expect.i64"
                                  or y.o == "xor" and y.t == "i1"):
                return self.cond(a, truth == (p == "ne"), depth + 1)
        isp = (self.fn.defs.get(a[1]).t if a[0] == "v" and self.fn.defs.get(a[1]) is not None else "") == "ptr" or a[0] in ("g", "go") or b[0] in ("n", "g", "go")
        if isp:
            (ba, la), (bb, lb) = self.ptr(a), self.ptr(b)
            if ba != bb:
                return []
        else:
            la, lb = self.lin(a), self.lin(b)
        if not truth:
            p = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt",
                 "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[p]
        d = ladd(la, lb, -1)                         # a - b
        nd = lmul(d, -1)
        if p == "eq":
            return [("le", d), ("le", nd)]
        if p == "ne":
            return [("ne", d)]
        one = lc(1)
        if p[0] == "u" and not isp:
            if p in ("ugt", "uge"):
                d, nd, la, lb = nd, d, lb, la
            # la <u lb: if lb is not negative, neither is la, and they compare as integers
            # what is left of a size is not taken to wrap unless it is known to
            if self.low(lb) < 0 and not (self.low(lb) == -INF and lb.get(ONE, 0) > 0 and sum(1 for k, c in lb.items() if k != ONE and c < 0) == 1
                                         and all(c < 0 for k, c in lb.items() if k != ONE)):
                return []
            return [("le", ladd(d, one) if p in ("ult", "ugt") else d), ("le", lmul(la, -1))]
        if p[1:] == "lt":
            return [("le", ladd(d, one))]
        if p[1:] == "le":
            return [("le", d)]
        if p[1:] == "gt":
            return [("le", ladd(nd, one))]
        return [("le", nd)]

    def low(self, l):
        s = 0
        for a, c in l.items():
            if a == ONE:
                s += c
            else:
                lo, hi = self.interval(a)
                s += c * (lo if c > 0 else hi)
        return s

    def edge_facts(self, p, s):
        k = (p, s)
        if k in self.fm:
            return self.fm[k]
        self.fm[k] = []
        t = self.fn.blocks[p][-1]
        r = list(self.block_facts(p))
        if t.o == "br" and len(t.s) == 2 and t.s[0] != t.s[1]:
            r += self.cond(t.a[0], s == t.s[0])
        if t.o == "switch":
            vals = [c[0] for c in t.cs if c[1] == s]
            if s != t.d and len(vals) == 1:
                d = ladd(self.lin(t.a[0]), lc(-vals[0])) if isinstance(vals[0], int) else None
                if d is not None:
                    r += [("le", d), ("le", lmul(d, -1))]
        self.fm[k] = r
        return r

    def block_facts(self, b):
        if b in self.ff:
            return self.ff[b]
        self.ff[b] = []
        r = list(self.m.pfacts(self)) if b == 0 else []
        if b:
            ps = [p for p in self.pred[b] if p in self.reach]
            if len(ps) == 1:
                r = self.edge_facts(ps[0], b)
            else:
                idom = [d for d in self.dom[b] if d != b]
                if idom:
                    d = max(idom, key=lambda q: len(self.dom[q]))
                    r = list(self.block_facts(d))
                    # what every way in agrees on
                    ways = [self.edge_facts(p, b) for p in ps if b not in self.dom[p]]
                    if len(ways) == len(ps) and ways:
                        for f in ways[0]:
                            if f not in r and all(f in w for w in ways[1:]):
                                r.append(f)
        self.ff[b] = r
        return r

    # -- intervals ---------------------------------------------------------
    def interval(self, a):
        if a in self.iv:
            return self.iv[a]
        self.iv[a] = (-INF, INF)
        self.iv[a] = self.interval1(a)
        return self.iv[a]

    def interval1(self, a):
        if a[0] in ("op", "base"):
            return (-INF, INF)
        v = a[1]
        x = self.fn.defs.get(v)
        if x is None:
            return self.m.prange(self, v)
        if a[0] == "off" and x.o == "call" and x.callee in WITHIN:
            b, off = self.ptr(x.a[0])
            lo = -self.bound(lmul(off, -1), x.blk)
            hi = min([self.bound(ladd(c, lc(-1)), x.blk) for c in self.caps(b)] or [INF])
            return (lo, hi)
        if x.o == "phi":
            return self.phi(a, x)
        if x.o == "select":
            get = (lambda o: self.ptr(o)[1]) if a[0] == "off" else self.lin
            ls = [(get(o), self.cond(x.a[0], t) + self.block_facts(x.blk)) for o, t in ((x.a[1], True), (x.a[2], False))]
            return (min(-self.best(lmul(l, -1), f) for l, f in ls), max(self.best(l, f) for l, f in ls))
        w = WIDTH.get(x.t, 64)
        if x.o in ("icmp", "fcmp"):
            return (0, 1)
        if x.o == "zext":
            return (0, (1 << WIDTH.get(x.ft, 64)) - 1)
        if x.o == "sext" or x.o == "trunc":
            w = WIDTH.get(x.ft if x.o == "sext" else x.t, 64)
            return (-(1 << (w - 1)), (1 << w) - 1 if x.o == "trunc" else (1 << (w - 1)) - 1)
        if x.o == "and":
            cs = [o[1] for o in x.a if o[0] == "i" and o[1] >= 0]
            if cs:
                return (0, min(cs))
        if x.o in ("sdiv", "udiv") and x.a[1][0] == "i" and x.a[1][1] > 0:
            l = self.lin(x.a[0])
            lo, hi = -self.bound(lmul(l, -1), x.blk), self.bound(l, x.blk)
            d = x.a[1][1]
            if x.o == "udiv" and lo < 0:
                return (0, INF)
            return (lo if lo == -INF else int(lo / d), hi if hi == INF else int(hi / d))
        if x.o in ("lshr", "ashr") and x.a[1][0] == "i":
            l = self.lin(x.a[0])
            lo, hi = -self.bound(lmul(l, -1), x.blk), self.bound(l, x.blk)
            if lo >= 0:
                return (int(lo) >> x.a[1][1], hi if hi == INF else int(hi) >> x.a[1][1])
        if x.o in ("srem", "urem") and x.a[1][0] == "i":
            c = abs(x.a[1][1]) - 1
            lo = -self.bound(lmul(self.lin(x.a[0]), -1), x.blk)
            return (0 if lo >= 0 or x.o == "urem" else -c, c)
        if x.o == "call":
            if x.callee in ("strlen", "strnlen"):
                hi = self.slen(x.a[0], x)
                h = self.bound(hi, x.blk) if hi is not None else INF
                if x.callee == "strnlen":
                    h = min(h, self.bound(self.lin(x.a[1]), x.blk))
                return (0, h)
            r = self.m.par.get(x.callee, {}).get("ret")
            if r is not None:
                return r
            if x.callee in ("read", "recv", "fread"):
                return (-1, self.bound(self.lin(x.a[2]), x.blk))
        if x.o == "load":
            b, off = self.ptr(x.a[0])
            if b[0] == "al":
                sts = [y for y in self.fn.insts() if y.o == "store" and self.ptr(y.a[1]) == (b, off)]
                esc = any(self.ptr(o)[0] == b for y in self.fn.calls() if not (y.callee or "").startswith("llvm.") for o in y.a)
                if sts and not esc:
                    return (min(-self.bound(lmul(self.lin(y.a[0]), -1), y.blk) for y in sts),
                            max(self.bound(self.lin(y.a[0]), y.blk) for y in sts))
            return (-INF, INF)
        return (-INF, INF)

    def phi(self, a, x):
        """interval of a value that several ways bring: grown from below, widened, then narrowed"""
        get = (lambda o: self.ptr(o)[1]) if a[0] == "off" else self.lin
        memo = dict(self.iv)
        fm, ff = dict(self.fm), dict(self.ff)
        def step(cur):
            self.iv = dict(memo); self.fm = dict(fm); self.ff = dict(ff)
            self.iv[a] = cur if cur else (INF, -INF)
            lo, hi = INF, -INF
            for o, p in x.inc:
                if p not in self.reach:
                    continue
                l = get(o)
                if a in l and cur is None:
                    continue
                if o[0] in ("n", "z") and a[0] == "off":
                    continue
                f = self.edge_facts(p, x.blk)
                h, w = self.best(l, f), -self.best(lmul(l, -1), f)
                if a in l or cur is not None:
                    pass
                hi, lo = max(hi, h), min(lo, w)
            return (lo, hi)
        cur = None
        for k in range(8):
            n = step(cur)
            if cur is not None:
                n = (min(cur[0], n[0]), max(cur[1], n[1]))
                if n == cur:
                    break
                if k >= 3:
                    n = (n[0] if n[0] == cur[0] else -INF, n[1] if n[1] == cur[1] else INF)
            cur = n
        for k in range(2):
            n = step(cur)
            cur = (max(cur[0], n[0]), min(cur[1], n[1]))
        self.iv, self.fm, self.ff = memo, fm, ff
        return cur

    # -- bounds ------------------------------------------------------------
    def bound(self, l, blk):
        s = self.best(l, self.block_facts(blk))
        if s <= 0 or len(l) < 2:
            return s
        for a, c in list(l.items()):
            x = self.fn.defs.get(a[1]) if a and a[0] in ("v", "off") else None
            if x is None or x.o != "phi" or x.blk not in self.dom[blk]:
                continue
            rest = ladd(l, {a: c}, -1)
            if any(q != ONE and q[0] in ("v", "off") and (y := self.fn.defs.get(q[1])) is not None and y.blk not in self.dom[x.blk] - {x.blk} for q in rest):
                continue
            m = -INF
            for o, p in x.inc:
                if p in self.reach:
                    v = self.ptr(o)[1] if a[0] == "off" else self.lin(o)
                    m = max(m, self.best(ladd(rest, v, c), self.edge_facts(p, x.blk)))
            s = min(s, m)
        return s

    def best(self, l, facts, depth=3):
        """least upper bound found for a linear form"""
        s = 0
        for a, c in l.items():
            if a == ONE:
                s += c
                continue
            lo, hi = self.interval(a)
            v = hi if c > 0 else lo
            if v in (INF, -INF) or s == INF:
                s = INF
            else:
                s += c * v
        if depth == 0:
            return s
        for kind, f in facts:
            if kind != "le":
                continue
            for a, c in l.items():
                if a == ONE or a not in f or f[a] * c <= 0:
                    continue
                k = Fraction(c, f[a])
                r = ladd(l, f, -k)
                if len([q for q in r if q != ONE]) <= len([q for q in l if q != ONE]) + (1 if depth == 3 else 0):
                    s = min(s, self.best(r, facts, depth - 1))
        if s == 0:
            for kind, f in facts:
                if kind == "ne" and (f == l or lmul(f, -1) == l):
                    return -1
        if s != INF and depth == 3:
            # l <= s, and l != s is known: the last step
            for kind, f in facts:
                if kind == "ne":
                    for g in (f, lmul(f, -1)):
                        if const(ladd(g, l, -1)) is not None and const(ladd(g, l, -1)) == -s:
                            return s - 1
        return s

    # -- strings -----------------------------------------------------------
    def slen(self, o, at, seen=()):
        """an upper bound (linear form) of the length of the string at o, or None"""
        s = self.prog.string(o)
        if s is not None:
            return lc(len(s))
        if o[0] == "v" and o[1] in seen:
            return {ONE: -10 ** 9}
        x = self.fn.defs.get(o[1]) if o[0] == "v" else None
        if x is not None and x.o in ("phi", "select"):
            ops = [i[0] for i in x.inc] if x.o == "phi" else x.a[1:]
            ls = [self.slen(q, at, seen + (o[1],)) for q in ops if q[0] not in ("n", "z")]
            cs = [const(l) if l is not None else None for l in ls]
            if any(c is None for c in cs):
                return ls[0] if ls and all(l == ls[0] for l in ls) else None
            return lc(max(cs)) if cs else None
        if x is not None and x.o == "call":
            if x.callee in ("dirname", "basename", "__xpg_basename"):
                l = self.slen(x.a[0], at, seen)
                c = const(l) if l is not None else None
                return lc(max(c, 1)) if c is not None else None
            if x.callee in ("strdup",):
                return self.slen(x.a[0], at, seen)
        b, off = self.ptr(o)
        best = None
        cont = self.content(b, at) if b[0] in ("al", "g") else None
        if cont is not None and not off:
            return cont
        for c in self.caps(b):
            l = ladd(ladd(c, off, -1), lc(-1))
            best = l if best is None or self.bound(ladd(l, best, -1), at.blk) <= 0 else best
        if b[0] == "p":
            c = self.m.plen(self, b[1])
            if c is not None and not off and (best is None or const(c) is not None and (const(best) is None or const(c) < const(best))):
                best = c
            if best is None and not off:
                best = {("slen", b): 1}
                self.iv.setdefault(("slen", b), (0, INF))
        if best is not None:
            for a in best:
                if a and a[0] == "off":
                    lo = self.interval(a)[0]
        if best is None and b[0] in ("u", "h"):
            return None
        return best

    def content(self, base, at, sym=False):
        """length of the string in an array at a program point, from the writes before it; None when not known"""
        if (base, sym) not in self.closure:
            self.closure[base, sym] = self.flow(base, sym)
        st = self.closure[base, sym]
        cur = st.get(at.blk)
        for x in self.fn.blocks[at.blk]:
            if x is at:
                break
            cur = self.wr(base, cur, x, sym)
        return cur if isinstance(cur, dict) else None

    def flow(self, base, sym):
        ins = {0: "cap"}
        self.closure[base, sym] = ins
        work = [0]
        for _ in range(400):
            if not work:
                break
            b = work.pop(0)
            cur = ins[b]
            for x in self.fn.blocks[b]:
                cur = self.wr(base, cur, x, sym)
            for s in self.succ[b]:
                n = cur if s not in ins else self.joinlen(ins[s], cur)
                if s not in ins or n != ins[s]:
                    ins[s] = n
                    work.append(s)
        return ins

    def joinlen(self, a, b):
        if a == b:
            return a
        if isinstance(a, dict) and isinstance(b, dict):
            d = const(ladd(a, b, -1))
            if d is not None:
                return a if d >= 0 else b
        return "cap"

    def wr(self, base, cur, x, sym=False):
        if x.o == "store":
            return cur if self.ptr(x.a[1])[0] != base else "cap"
        if x.o != "call":
            return cur
        c = x.callee or ""
        if c.startswith("llvm.memset") or c == "memset":
            b, off = self.ptr(x.a[0])
            return {} if b == base and not off and x.a[1] in (["i", 0], ("i", 0)) else "cap" if b == base else cur
        if c.startswith("llvm."):
            return cur
        if not any(o[0] in ("v", "g", "go") and self.isptr(o) and self.ptr(o)[0] == base for o in x.a):
            return cur
        if c in READS:
            return cur
        b, off = self.ptr(x.a[0])
        if b == base and not off:
            others = [o for o in x.a[1:] if o[0] in ("v", "g", "go") and self.isptr(o) and self.ptr(o)[0] == base]
            if c == "strcpy" and not others:
                l = sym and self.measured(x.a[1], x) or self.slen(x.a[1], x)
                return l if l is not None else "cap"
            if c == "strcat" and not others:
                l = sym and self.measured(x.a[1], x) or self.slen(x.a[1], x)
                return ladd(cur, l) if l is not None and isinstance(cur, dict) else "cap"
        if c in ("strcpy", "strcat", "strncpy", "snprintf", "fprintf", "printf", "memcpy", "memcmp", "strncmp") and b != base:
            return cur                       # only read
        return "cap"

    def measured(self, o, x):
        """a strlen of the very string at o, taken before x, with nothing in between that changes it"""
        b, off = self.ptr(o)
        for y in self.fn.insts():
            if y.o == "call" and y.callee == "strlen" and self.ptr(y.a[0]) == (b, off) and self.before(y, x) and not self.written(y, x, b):
                return {("v", y.i): 1}
        return None

    def written(self, y, x, base):
        def hits(z):
            return z.o in ("call", "store") and self.wr(base, {}, z) != {}
        (b1, k1), (b2, k2) = self.pos[y.i], self.pos[x.i]
        if b1 == b2:
            return any(hits(z) for z in self.fn.blocks[b1][k1 + 1:k2])
        if any(hits(z) for z in self.fn.blocks[b1][k1 + 1:]) or any(hits(z) for z in self.fn.blocks[b2][:k2]):
            return True
        mid, w = set(), [p for p in self.pred[b2] if p != b1]
        while w:
            p = w.pop()
            if p not in mid and p != b1:
                mid.add(p)
                w += self.pred[p]
        return any(hits(z) for p in mid if p in self.reach for z in self.fn.blocks[p])

    def isptr(self, o):
        if o[0] in ("g", "go", "n"):
            return True
        x = self.fn.defs.get(o[1])
        if x is not None:
            return x.t == "ptr"
        return any(p[0] == o[1] and p[2] == "ptr" for p in self.fn.params)


PURE = {"strlen", "strnlen", "strcmp", "strncmp", "memcmp", "strstr", "strchr", "strrchr", "__errno_location", "getenv", "__ctype_b_loc"}
READS = PURE | {"strdup", "strndup", "fprintf", "printf", "puts", "fputs", "open", "fopen", "opendir", "dlopen", "stat", "mkdir", "unlink", "execve",
                "getaddrinfo", "strtoll", "strtol", "__isoc23_strtoll", "lisp_make_string", "access"}


class Model:
    """what is known of the parameters of each function, from its call sites (greatest set of facts that all sites keep)"""

    def __init__(self, prog, without=()):
        self.prog = prog
        self.fa = {}
        self.sites = {}
        for f in prog.functions.values():
            for x in f.calls():
                if x not in without and x.callee in prog.functions and len(x.a) == len(prog.functions[x.callee].params):
                    self.sites.setdefault(x.callee, []).append(x)
        self.par = {}               # fn -> {"cap": {k: [templates]}, "rng": {k: (lo, hi)}, "rel": set((i, j, c)), "len": {k: c}}
        self.rets = {}

    def get(self, f):
        if f.name not in self.fa:
            self.fa[f.name] = FA(self.prog, f, self)
        return self.fa[f.name]

    def returns(self, name):
        """("g", array) or ("p", k): the one object a function's result always points to the start of (or NULL)"""
        f = self.prog.functions.get(name)
        if f is None or f.ty.split(" ")[0] != "ptr":
            return None
        if name not in self.rets:
            self.rets[name] = None
            fa = self.get(f)
            bs = set()
            for b in f.blocks:
                if b[-1].o == "ret" and b[-1].a:
                    bs |= fa.starts(b[-1].a[0], set())
            if len(bs) == 1 and next(iter(bs))[0] in ("g", "p"):
                self.rets[name] = next(iter(bs))
        return self.rets[name]

    def own(self, fa):
        return self.par.get(fa.fn.name, {})

    def plin(self, fa, tpl):
        """a template (constant, {param: coefficient}) as a linear form of the function's own values"""
        r = lc(tpl[0])
        for k, c in tpl[1]:
            r = ladd(r, fa.lin(["v", fa.fn.params[k][0]]), c)
        return r

    def pcaps(self, fa, k):
        return [self.plin(fa, t) for t in self.own(fa).get("cap", {}).get(k, ())]

    def plen(self, fa, k):
        c = self.own(fa).get("len", {}).get(k)
        return lc(c) if c is not None else None

    def prange(self, fa, v):
        for k, p in enumerate(fa.fn.params):
            if p[0] == v:
                return self.own(fa).get("rng", {}).get(k, (-INF, INF))
        return (-INF, INF)

    def pfacts(self, fa):
        r = []
        for i, j, c in self.own(fa).get("rel", ()):
            d = ladd(fa.lin(["v", fa.fn.params[i][0]]), fa.lin(["v", fa.fn.params[j][0]]), -1)
            r.append(("le", ladd(d, lc(-c))))
        return r

    # -- inference ---------------------------------------------------------
    def infer(self):
        fs = [f for f in self.prog.functions.values() if self.sites.get(f.name) and not f.taken]
        fs = [f for f in fs if any(p[2] == "ptr" or p[2] in WIDTH for p in f.params)]
        # non-recursive first: initial candidates from sites outside the function
        for f in fs:
            self.par[f.name] = {"cap": {}, "rng": {}, "rel": set(), "len": {}, "ret": (0, INF)}
        for rnd in range(6):
            self.fa = {}
            changed = False
            for f in fs:
                n = self.candidates(f, self.par[f.name], rnd)
                if n != self.par[f.name]:
                    self.par[f.name] = n
                    changed = True
            if not changed:
                break
        # drop what is not kept
        for rnd in range(12):
            self.fa = {}
            changed = False
            new = {}
            for f in fs:
                n = self.keep(f)
                new[f.name] = n
                if n != self.par[f.name]:
                    changed = True
            self.par.update(new)
            if not changed:
                break
        self.fa = {}

    def outer(self, f):
        s = [x for x in self.sites[f.name] if x.fn.name != f.name]
        return s or self.sites[f.name]

    def candidates(self, f, old, rnd):
        n = {"cap": {}, "rng": {}, "rel": set(), "len": {}, "ret": old["ret"]}
        sites = self.outer(f)
        ints = [k for k, p in enumerate(f.params) if p[2] in ("i64", "i32")]
        for k in ints:
            hs, ws = [], []
            for x in sites:
                fa = self.get(x.fn)
                l = fa.lin(x.a[k])
                hs.append(fa.bound(l, x.blk))
                ws.append(-fa.bound(lmul(l, -1), x.blk))
            # what is not known yet is hoped for, and dropped later where it does not hold
            n["rng"][k] = (min([w for w in ws if w != -INF] or [-INF]), max([h for h in hs if h != INF] or [INF]))
        for i in ints:
            for j in ints:
                if i != j:
                    n["rel"] |= {(i, j, -1), (i, j, 0)}
        for k, p in enumerate(f.params):
            if p[2] != "ptr":
                continue
            cs, ls, known = [], [], True
            for x in sites:
                fa = self.get(x.fn)
                b, off = fa.ptr(x.a[k])
                c = [-fa.bound(ladd(off, q, -1), x.blk) for q in fa.caps(b)]
                if not c and b[0] == "p" and x.callee != x.fn.name and x.fn.name in self.par:
                    continue
                cs.append(max(c) if c else None)
                known = known and bool(fa.caps(b))
                sl = fa.slen(x.a[k], x)
                ls.append(fa.bound(sl, x.blk) if sl is not None else INF)
            t = []
            if cs and known and all(c is not None for c in cs):
                if all(c not in (INF, -INF) for c in cs):
                    t.append((int(min(cs)), ()))
                for s in (1, 8):
                    for i in ints:
                        t += [(0, ((i, s),)), (s, ((i, s),))]
                        for j in ints:
                            if i != j:
                                t += [(0, ((i, s), (j, -s)))]
            n["cap"][k] = t
            if ls and max(ls) < INF:
                n["len"][k] = int(max(ls))
        return n

    def keep(self, f):
        o = self.par[f.name]
        n = {"cap": {k: list(t) for k, t in o["cap"].items()}, "rng": dict(o["rng"]), "rel": set(o["rel"]), "len": dict(o["len"]), "ret": o["ret"]}
        fa = self.get(f)
        if n["ret"] is not None:
            for b in f.blocks:
                t = b[-1]
                if t.o == "ret" and t.blk in fa.reach and not (t.a and f.ty.split(" ")[0] in WIDTH and fa.bound(lmul(fa.lin(t.a[0]), -1), t.blk) <= 0):
                    n["ret"] = None
        for x in self.sites[f.name]:
            fa = self.get(x.fn)
            if x.blk not in fa.reach:
                continue
            def sub(t):
                r = lc(t[0])
                for k, c in t[1]:
                    r = ladd(r, fa.lin(x.a[k]), c)
                return r
            for k, (lo, hi) in list(n["rng"].items()):
                l = fa.lin(x.a[k])
                if hi != INF and fa.bound(l, x.blk) > hi:
                    hi = INF
                if lo != -INF and -fa.bound(lmul(l, -1), x.blk) < lo:
                    lo = -INF
                n["rng"][k] = (lo, hi)
            for r in list(n["rel"]):
                d = ladd(fa.lin(x.a[r[0]]), fa.lin(x.a[r[1]]), -1)
                if fa.bound(ladd(d, lc(-r[2])), x.blk) > 0:
                    n["rel"].discard(r)
            for k, ts in n["cap"].items():
                b, off = fa.ptr(x.a[k])
                caps = fa.caps(b)
                n["cap"][k] = [t for t in ts if any(fa.bound(ladd(ladd(off, sub(t)), q, -1), x.blk) <= 0 for q in caps)]
            for k, c in list(n["len"].items()):
                sl = fa.slen(x.a[k], x)
                if sl is None or fa.bound(ladd(sl, lc(-c)), x.blk) > 0:
                    n["len"].pop(k)
        return n


FORMAT = {"d": 11, "i": 11, "u": 10, "x": 8, "ld": 20, "lu": 20, "lld": 20, "llu": 20, "zu": 20, "zd": 20, "lx": 16, "c": 1, "p": 20, "%": 1, "hd": 6, "hu": 5, "hhu": 3}


def formatted(fa, x, fmt, args):
    """an upper bound of the text printf makes of a format, or None"""
    import re
    n, k, total = 0, 0, {}
    for m in re.finditer(r"%([-+ #0]*)(\d*)(?:\.(\d+|\*))?([hlzj]*)([a-zA-Z%])|([^%])", fmt):
        if m.group(6) is not None:
            total = ladd(total, lc(1))
            continue
        width = int(m.group(2) or 0)
        if m.group(5) == "%":
            total = ladd(total, lc(1))
            continue
        if m.group(3) == "*":
            k += 1
        if m.group(5) == "s":
            if m.group(3) and m.group(3) != "*":
                b = lc(int(m.group(3)))
                l = fa.slen(args[k], x) if k < len(args) else None
                if l is not None and fa.bound(l, x.blk) < const(b):
                    b = l
            else:
                b = fa.slen(args[k], x) if k < len(args) else None
        else:
            c = FORMAT.get(m.group(4) + m.group(5))
            b = lc(c + (int(m.group(3)) if m.group(3) and m.group(3) != "*" else 0)) if c else None
        k += 1
        if b is None:
            return None
        if const(b) is not None:
            b = lc(max(const(b), width))
        total = ladd(total, b)
    return total


def writes(fa, x):
    """(destination operand, bytes written as a linear form or None for no bound, how) for one instruction"""
    if x.o == "store":
        t = x.a[0]
        y = fa.fn.defs.get(t[1]) if t[0] == "v" else None
        return [(x.a[1], lc(stored(fa, x)), "store")]
    if x.o != "call":
        return []
    c, a = x.callee or "", x.a
    lin = fa.lin
    if c in ("strcpy", "stpcpy"):
        l = fa.slen(a[1], x)
        return [(a[0], ladd(l, lc(1)) if l is not None else None, c)]
    if c in ("strcat", "strncat"):
        d = [q for q in (fa.measured(a[0], x), fa.content(fa.ptr(a[0])[0], x), fa.content(fa.ptr(a[0])[0], x, True)) if q is not None]
        l = [q for q in (fa.measured(a[1], x), fa.slen(a[1], x)) if q is not None]
        if c == "strncat":
            l.append(lin(a[2]))
        return [(a[0], [ladd(ladd(p, q), lc(1)) for p in d for q in l] or None, c)]
    if c in ("strncpy", "memcpy", "memmove", "memset", "stpncpy") or c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
        return [(a[0], lin(a[2]), c.split(".p0")[0])]
    if c == "sprintf":
        f = fa.prog.string(a[1])
        l = formatted(fa, x, f, a[2:]) if f is not None else None
        return [(a[0], ladd(l, lc(1)) if l is not None else None, c)]
    if c in ("snprintf", "fgets", "getcwd", "vsnprintf", "gethostname", "strftime"):
        return [(a[0], lin(a[1]), c)]
    if c in ("read", "recv", "readlink"):
        return [(a[1], lin(a[2]), c)]
    if c == "fread":
        s = fa.lin(a[1])
        if const(s) is not None:
            return [(a[0], lmul(lin(a[2]), const(s)), c)]
        return [(a[0], None, c)]
    if c == "realpath" and a[1][0] not in ("n", "z"):
        return [(a[1], lc(fa.m.PATH_MAX), c)]
    if c == "inet_ntop":
        return [(a[2], lin(a[3]), c)]
    if c == "pipe":
        return [(a[0], lc(8), c)]
    return []


def stored(fa, x):
    sz = getattr(x, "sz", None)
    if sz:
        return sz
    o = x.a[0]
    if o[0] == "v":
        y = fa.fn.defs.get(o[1])
        t = y.t if y is not None else next((p[2] for p in fa.fn.params if p[0] == o[1]), "ptr")
        return {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}.get(t, 1)
    d = x.a[1]
    y = fa.fn.defs.get(d[1]) if d[0] == "v" else None
    if y is not None and y.o == "gep":
        return {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}.get(y.rt, 1)
    return 1


class Check:
    """every write of a group's functions into an object of known size"""

    def __init__(self, prog, path_max, without=()):
        self.prog = prog
        self.m = Model(prog, without)
        self.m.PATH_MAX = path_max
        self.m.infer()

    def run(self, own):
        """yields (function, instruction, how, verdict, text); verdict: ok, bad, unknown"""
        for f in self.prog.functions.values():
            if not own(f):
                continue
            fa = self.m.get(f)
            for x in f.insts():
                if x.blk not in fa.reach:
                    continue
                for d, n, how in writes(fa, x):
                    v = self.judge(fa, x, d, n, how)
                    if v:
                        yield (f, x, how) + v

    def judge(self, fa, x, d, n, how):
        b, off = fa.ptr(d)
        if b[0] in ("u", "null", "cyc"):
            return None
        if b[0] == "h" and fa.fn.defs[b[1]].callee != "malloc":
            return None
        caps = fa.caps(b)
        if not caps:
            if b[0] == "p" and (not self.m.sites.get(fa.fn.name) or fa.fn.taken):
                return None if how == "store" else ("unknown", "no call of %s is known" % fa.fn.name)
            if b[0] == "p":
                return None if how == "store" and self.plain(fa, x) else ("unknown", "no size fits all calls of %s" % fa.fn.name)
            return None
        if how == "store" and const(off) is not None and b[0] in ("p", "h"):
            if b[0] == "p" and self.plain(fa, x):
                return None
        lo = -fa.bound(lmul(off, -1), x.blk)
        name = self.name(fa, b)
        if lo < 0 and lo != -INF:
            return ("bad", "%s may write %d bytes before the start of %s" % (how, -lo, name))
        if n is None:
            return ("bad", "nothing limits what %s writes to the size of %s" % (how, name))
        ends = [fa.bound(ladd(ladd(off, k), c, -1), x.blk) for k in (n if isinstance(n, list) else [n]) for c in caps]
        if min(ends) <= 0:
            return ("ok", name)
        m = min(ends)
        return ("bad", "%s may write %s past the end of %s" % (how, "%d bytes" % m if m != INF else "any distance", name))

    def plain(self, fa, x):
        """a store to a member of a structure"""
        y = fa.fn.defs.get(x.a[1][1]) if x.a[1][0] == "v" else None
        return y is not None and y.o == "gep" and y.st and not y.vi

    def name(self, fa, b):
        if b[0] == "al":
            return fa.fn.defs[b[1]].n or "a local buffer"
        if b[0] == "g":
            return b[1]
        if b[0] == "p":
            return "%s's %s" % (fa.fn.name.split(".")[0], fa.fn.params[b[1]][1])
        return "the allocated buffer"
