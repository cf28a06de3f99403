"""Disjunctive abstract interpreter over SSA (property simulation).

Each program point carries a finite set of abstract states. A state maps SSA names to must-alias value numbers, keeps
what is known of heap slots, value kinds and null-ness, and carries the property state of the analysis (counts of held
references, resources, events). States that agree on the property state and on the live names are merged at joins
(their facts are intersected), loops are iterated to a fixpoint. No path is executed or handed to a solver.
"""
from . import front


class Giveup(Exception):
    """too many abstract states: this function is left undecided (reported as such)"""


ALLT = frozenset(range(8))
NULL = ("null",)
UNDEF = ("undef",)


def is_root(v):
    return v[0] in ("arg", "al", "g", "v")


def addr(v):
    """(root, offset) of a pointer term, or None"""
    k = v[0]
    if k == "P":
        return v[1], v[2]
    if k in ("arg", "al", "g", "v"):
        return v, 0
    return None


def mkptr(root, off):
    return root if off == 0 else ("P", root, off)


def roots_of(v, acc):
    k = v[0]
    if k in ("arg", "al", "g", "v"):
        acc.add(v)
    elif k == "P":
        acc.add(v[1])
    elif k in ("i", "null", "undef"):
        pass
    else:
        for x in v[1:]:
            if isinstance(x, tuple):
                roots_of(x, acc)
    return acc


def subst(v, m):
    k = v[0]
    if k in ("arg", "al", "g", "v"):
        return m.get(v, v)
    if k == "P":
        r = m.get(v[1], v[1])
        return ("P", r, v[2]) if r is not v[1] else v
    if k in ("i", "null", "undef"):
        return v
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)


# entries of State.x that name no roots
ROOTLESS = frozenset(["tr", "kind", "eq", "ne", "b", "rng"])


class State:
    __slots__ = ("env", "mem", "own", "facts", "org", "dead", "x", "trace")

    def __init__(self):
        self.env = {}; self.mem = {}; self.own = {}; self.facts = {}; self.org = {}; self.dead = {}; self.x = {}; self.trace = ()

    def copy(self):
        s = State()
        s.env = dict(self.env); s.mem = dict(self.mem); s.own = dict(self.own); s.facts = dict(self.facts)
        s.org = dict(self.org); s.dead = dict(self.dead); s.x = dict(self.x); s.trace = self.trace
        return s

    def rename(self, m):
        """substitute roots throughout"""
        self.env = {k: subst(v, m) for k, v in self.env.items()}
        self.mem = {(m.get(k[0], k[0]),) + k[1:]: subst(v, m) for k, v in self.mem.items()}
        self.own = {m.get(k, k): v for k, v in self.own.items()}
        self.dead = {m.get(k, k): v for k, v in self.dead.items()}
        self.facts = {(k[0], subst(k[1], m)): v for k, v in self.facts.items()}
        self.org = {m.get(k, k): (m.get(v[0], v[0]),) + v[1:] for k, v in self.org.items()}
        self.x = {(k if k[0] in ROOTLESS else subst_any(k, m)): (v if k[0] in ROOTLESS else subst_any(v, m)) for k, v in self.x.items()}

    # -- kinds ------------------------------------------------------------
    def types(self, root):
        return self.facts.get(("ty", root), ALLT)

    def add(self, root, n):
        c = self.own.get(root, 0) + n
        if c:
            self.own[root] = c
        else:
            self.own.pop(root, None)
        return c


def subst_any(v, m):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and v[0] in ("arg", "al", "g", "v", "P"):
            return subst(v, m)
        return tuple(subst_any(x, m) for x in v)
    if isinstance(v, frozenset):
        return frozenset(subst_any(x, m) for x in v)
    return v


def roots_any(v, acc):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and v[0] in ("arg", "al", "g", "v", "P"):
            roots_of(v, acc)
        else:
            for x in v:
                roots_any(x, acc)
    elif isinstance(v, frozenset):
        for x in v:
            roots_any(x, acc)
    return acc


NEG = {"eq": "ne", "ne": "eq", "ugt": "ule", "ule": "ugt", "uge": "ult", "ult": "uge", "sgt": "sle", "sle": "sgt",
       "sge": "slt", "slt": "sge"}
SWAP = {"eq": "eq", "ne": "ne", "ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge", "sgt": "slt", "slt": "sgt",
        "sge": "sle", "sle": "sge"}


def cmpc(p, a, b):
    M = (1 << 64) - 1
    ua, ub = a & M, b & M
    return {"eq": a == b, "ne": a != b, "ugt": ua > ub, "uge": ua >= ub, "ult": ua < ub, "ule": ua <= ub,
            "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[p]


class Engine:
    """Runs one function. Subclass hooks: call(), store(), ret(), load()."""
    MAXSTATES = 400
    SOFT = 60
    coarsened = False
    MAXGEN = 3
    WIDEN = 3

    def __init__(self, fn, plugin, pin=frozenset(), depth=0):
        self.fn = fn
        self.pl = plugin
        self.pin = pin          # names of the callers' frames, kept alive
        self.depth = depth      # length of the call string
        self.outs = []          # states at the returns of an inner frame
        self.C = front.consts()
        if not hasattr(fn, "flow"):
            fn.flow = (self.liveness(), self.loopheads())
        self.live_in, self.heads = fn.flow
        self.visits = 0
        self.phivals = {}

    def loopheads(self):
        """targets of back edges (depth first)"""
        fn, heads, state = self.fn, set(), {}
        stack = [(0, iter(fn.succs(0)))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    heads.add(s)
                elif s not in state:
                    state[s] = 1
                    stack.append((s, iter(fn.succs(s))))
                    break
            else:
                state[b] = 2
                stack.pop()
        return heads

    # -- liveness ---------------------------------------------------------
    def liveness(self):
        fn = self.fn
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [[] for _ in range(n)]  # (pred, id)

        def ops(x):
            def rec(o):
                if o and o[0] == "v":
                    yield o[1]
                elif o and o[0] == "go":
                    yield from rec(o[1])
            for o in x.a or ():
                yield from rec(o)
            if x.c:
                yield from rec(x.c)
            if x.vi:
                for o in x.vi:
                    yield from rec(o[0])
        for b, blk in enumerate(fn.blocks):
            for x in blk:
                if x.o == "phi":
                    for o, p in x.inc:
                        if o[0] == "v":
                            phiuse[p].append(o[1])
                else:
                    for u in ops(x):
                        if u not in dfn[b]:
                            use[b].add(u)
                dfn[b].add(x.i)
        live_in = [set() for _ in range(n)]
        live_out = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(range(n)):
                o = set(phiuse[b])
                for s in fn.succs(b):
                    o |= live_in[s]
                i = use[b] | (o - dfn[b])
                # phi defs of b are defined on entry
                if o != live_out[b] or i != live_in[b]:
                    live_out[b], live_in[b] = o, i
                    ch = True
        # live at block start including phis defined there
        return [live_in[b] | {x.i for x in fn.blocks[b] if x.o == "phi"} for b in range(n)]

    # -- terms ------------------------------------------------------------
    def val(self, st, o):
        k = o[0]
        if k == "v":
            return st.env.get(o[1], UNDEF)
        if k == "i":
            return ("i", o[1])
        if k == "n" or k == "z":
            return NULL
        if k == "g":
            return ("g", o[1])
        if k == "go":
            b = self.val(st, o[1])
            a = addr(b)
            return mkptr(a[0], a[1] + o[2]) if a else b
        return UNDEF

    def fresh(self, st, i):
        r = ("v", i)
        used = self.roots_in(st)
        if r in used:
            gens = []
            g = r
            while g in used:
                gens.append(g)
                g = ("v", i, 1) if len(g) == 2 else ("v", i, g[2] + 1)
            if len(gens) > self.MAXGEN:
                self.pl.overflow(self, st, i, gens[-1])
                self.drop(st, gens[-1])
                gens.pop()
            m = {}
            for g in gens:
                m[g] = ("v", i, 1) if len(g) == 2 else ("v", i, g[2] + 1)
            st.rename(m)
        return r

    def drop(self, st, r):
        st.own.pop(r, None); st.dead.pop(r, None)
        st.org = {k: v for k, v in st.org.items() if k != r and v[0] != r}
        st.env = {k: (UNDEF if r in roots_of(v, set()) else v) for k, v in st.env.items()}
        st.x = {k: v for k, v in st.x.items() if k[0] in ROOTLESS or r not in roots_any(k, set()) and r not in roots_any(v, set())}
        st.mem = {k: v for k, v in st.mem.items() if k[0] != r and r not in roots_of(v, set())}
        st.facts = {k: v for k, v in st.facts.items() if r not in roots_of(k[1], set())}

    def roots_in(self, st):
        acc = set(st.own) | set(st.dead)
        for v in st.env.values():
            roots_of(v, acc)
        for k, v in st.mem.items():
            acc.add(k[0]); roots_of(v, acc)
        for k, v in st.org.items():
            acc.add(k); acc.add(v[0])
        for k in st.facts:
            roots_of(k[1], acc)
        for k, v in st.x.items():
            if k[0] not in ROOTLESS:
                roots_any(k, acc); roots_any(v, acc)
        return acc

    # -- conditions -------------------------------------------------------
    def simp_cmp(self, p, a, b):
        if a[0] in ("i", "null") and b[0] not in ("i", "null"):
            a, b, p = b, a, SWAP[p]
        if a[0] == "i" and b[0] == "i":
            return ("i", int(cmpc(p, a[1], b[1])))
        if a[0] in ("cmp", "not", "b1") and b[0] in ("i", "null"):
            n = b[1] if b[0] == "i" else 0
            if (p == "ne" and n == 0) or (p == "eq" and n == 1) or (p == "ne" and n == -1 and False):
                return a
            if (p == "eq" and n == 0) or (p == "ne" and n == 1):
                return self.neg(a)
        if a == b and a[0] != "undef":
            if p in ("eq", "uge", "ule", "sge", "sle"):
                return ("i", 1)
            return ("i", 0)
        if a[0] == "null" and b[0] == "null":
            return ("i", int(p in ("eq", "uge", "ule", "sge", "sle")))
        return ("cmp", p, a, b)

    def neg(self, c):
        if c[0] == "i":
            return ("i", 0 if c[1] else 1)
        if c[0] == "not":
            return c[1]
        if c[0] == "cmp":
            return ("cmp", NEG[c[1]], c[2], c[3])
        return ("not", c)

    def truth(self, st, c):
        if c[0] == "i":
            return bool(c[1])
        if c[0] == "not":
            t = self.truth(st, c[1])
            return None if t is None else not t
        if c[0] == "null":
            return False
        if c[0] == "cmp":
            p, a, b = c[1:]
            if a[0] == "ty" and b[0] == "i":
                ts = st.types(a[1])
                r = {cmpc(p, t, b[1]) for t in ts}
                return r.pop() if len(r) == 1 else None
            if a[0] == "ty" and b[0] == "ty":
                ta, tb = st.types(a[1]), st.types(b[1])
                r = {cmpc(p, t, u) for t in ta for u in tb}
                return r.pop() if len(r) == 1 else None
            bn = 0 if b[0] == "null" else (b[1] if b[0] == "i" else None)
            if bn is not None:
                f = st.facts.get(("eq", a))
                if f is not None:
                    return cmpc(p, f, bn)
                if p in ("eq", "ne") and bn in st.facts.get(("ne", a), ()):
                    return p == "ne"
                if bn == 0 and p in ("eq", "ne"):
                    ad = addr(a)
                    if ad and (ad[1] != 0 or ad[0][0] in ("al", "g")):
                        return p == "ne"
                lo, hi = self.rng(st, a)
                if lo is not None or hi is not None:
                    t = rcmp(p, lo, hi, bn)
                    if t is not None:
                        return t
            f = st.facts.get(("b", c))
            if f is None:
                f2 = st.facts.get(("b", self.neg(c)))
                return None if f2 is None else not f2
            return f
        return st.facts.get(("b", c))

    def rng(self, st, a):
        r = st.facts.get(("rng", a))
        return r if r else (None, None)

    def assume(self, st, c, t):
        """refine st with cond c == t; returns False when infeasible"""
        cur = self.truth(st, c)
        if cur is not None:
            return cur == t
        if c[0] == "not":
            return self.assume(st, c[1], not t)
        if c[0] == "cmp":
            p, a, b = c[1:]
            if not t:
                p = NEG[p]
            if a[0] == "ty" and b[0] == "i":
                ts = frozenset(x for x in st.types(a[1]) if cmpc(p, x, b[1]))
                if not ts:
                    return False
                st.facts[("ty", a[1])] = ts
                for k in [k for k, v in st.facts.items() if v is True and k[0] == "b" and k[1][0] == "cmp" and k[1][1] == "eq" and a in k[1][2:]]:
                    o = k[1][3] if k[1][2] == a else k[1][2]
                    if o[0] == "ty":
                        ts2 = st.types(o[1]) & ts
                        if not ts2:
                            return False
                        st.facts[("ty", o[1])] = ts2
                return True
            if a[0] == "ty" and b[0] == "ty" and p == "eq":
                ts = st.types(a[1]) & st.types(b[1])
                if not ts:
                    return False
                st.facts[("ty", a[1])] = ts
                st.facts[("ty", b[1])] = ts
                # remember the equality itself
                st.facts[("b", ("cmp", "eq", a, b))] = True
                return True
            bn = 0 if b[0] == "null" else (b[1] if b[0] == "i" else None)
            if bn is not None:
                if p == "eq":
                    st.facts[("eq", a)] = bn
                    return True
                if p == "ne":
                    st.facts[("ne", a)] = st.facts.get(("ne", a), frozenset()) | {bn}
                    return True
                lo, hi = self.rng(st, a)
                lo, hi = rref(p, lo, hi, bn)
                if lo is not None and hi is not None and lo > hi:
                    return False
                st.facts[("rng", a)] = (lo, hi)
                return True
            st.facts[("b", ("cmp", p, a, b))] = True
            return True
        st.facts[("b", c)] = t
        return True

    # -- memory -----------------------------------------------------------
    def cls(self, x):
        """alias class and field tag of the address operand of a load/store"""
        o = x.a[0] if x.o == "load" else x.a[1]
        while o[0] == "v" and o[1] in self.fn.defs:
            d = self.fn.defs[o[1]]
            if d.o == "gep":
                if d.st:
                    n = d.st[0]
                    n = n.split(".")[1] if "." in n else n
                    # the linker unifies structures of the same shape: two pointers are a pair
                    return "pair" if n == "module_entry" else n
                o = d.a[0]
                if not d.vi and d.off == 0:
                    continue
                return "array"
            if d.o in ("bitcast",):
                o = d.a[0]
                continue
            break
        # the count is the first field: its accesses carry no field selection
        if self.C["REFS"] == 0 and x.o == "load" and x.t == "i32":
            return "atom"
        if self.C["REFS"] == 0 and x.o == "store" and self.incr(x):
            return "atom"
        return "raw"

    def incr(self, x):
        """store of (load of the same address) plus or minus a constant, as a 32-bit number"""
        d = self.fn.defs.get(x.a[0][1]) if x.a[0][0] == "v" else None
        if d is None or d.o not in ("add", "sub") or d.t != "i32" or d.a[1][0] != "i" or d.a[0][0] != "v":
            return False
        l = self.fn.defs.get(d.a[0][1])
        return l is not None and l.o == "load" and l.a[0] == x.a[1]

    def size(self, t):
        if t == "ptr":
            return 8
        if t[0] == "i" and t[1:].isdigit():
            return (int(t[1:]) + 7) // 8
        if t.startswith("<2 x i64>"):
            return 16
        return 8

    def do_load(self, st, x):
        v = self.val(st, x.a[0])
        ad = addr(v)
        if not ad:
            st.env[x.i] = self.mk(st, x)
            if v[0] == "el":
                self.pl.element(st, x, self.val(st, x.a[0]), st.env[x.i])
            return
        root, off = ad
        cl = self.cls(x)
        C = self.C
        if cl == "atom" and off == C["TYPE"] and x.t == "i16" or cl == "atom" and off == C["TYPE"] and x.t in ("i32",):
            self.pl.deref(self, st, x, root, off)
            st.env[x.i] = ("ty", root)
            return
        self.pl.deref(self, st, x, root, off)
        key = (root, off, x.t)
        if key in st.mem and not self.volatile(root, off, cl):
            st.env[x.i] = st.mem[key]
            return
        t = self.pl.load(self, st, x, root, off, cl)
        if t is None:
            t = self.mk(st, x)
            # fresh() may have renamed the base
            ad = addr(self.val(st, x.a[0]))
            root, off = ad
            if t[0] == "v":
                st.org[t] = (root, off, cl if x.t == "ptr" else "int")
        st.env[x.i] = t
        st.mem[(root, off, x.t)] = t

    def volatile(self, root, off, cl):
        return cl == "atom" and off == self.C["REFS"] and root[0] != "al"

    def mk(self, st, x):
        st.env.pop(x.i, None)
        return self.fresh(st, x.i)

    def do_store(self, st, x):
        v = self.val(st, x.a[0])
        p = self.val(st, x.a[1])
        ad = addr(p)
        if not ad:
            self.pl.wildstore(self, st, x, v)
            return
        root, off = ad
        cl = self.cls(x)
        self.pl.deref(self, st, x, root, off)
        self.pl.store(self, st, x, root, off, cl, v)
        ty = self.optype(x.a[0], v)
        sz = self.size(ty)
        dead = []
        for k in st.mem:
            ks = self.size(k[2])
            if k[0] == root:
                if k[1] < off + sz and off < k[1] + ks:
                    dead.append(k)
            elif k[1] == off and root[0] != "al" and k[0][0] != "al" and not self.pl.distinct(self, st, root, k[0], cl):
                dead.append(k)
        for k in dead:
            # a slot that may be the same one keeps what it held when that is what is stored
            if k[0] != root and k[2] == ty and st.mem[k] == v:
                continue
            del st.mem[k]
        if not self.volatile(root, off, cl):
            st.mem[(root, off, ty)] = v

    def optype(self, o, v):
        if o[0] == "v":
            d = self.fn.defs.get(o[1])
            if d is not None:
                return d.t
            for p in self.fn.params:
                if p[0] == o[1]:
                    return p[2]
        if o[0] in ("n", "g", "go"):
            return "ptr"
        if o[0] == "z":
            return "<2 x i64>"
        return "i64?"

    # -- transfer ---------------------------------------------------------
    def step(self, st, x):
        """one non-terminator instruction; returns the list of successor states"""
        o = x.o
        E = st.env
        if o == "load":
            self.do_load(st, x)
        elif o == "store":
            self.do_store(st, x)
        elif o == "gep":
            b = self.val(st, x.a[0])
            ad = addr(b)
            if ad and not x.vi:
                E[x.i] = mkptr(ad[0], ad[1] + x.off)
            elif ad and len(x.vi) == 1:
                iv = self.val(st, x.vi[0][0])
                if iv[0] == "i":
                    E[x.i] = mkptr(ad[0], ad[1] + x.off + iv[1] * x.vi[0][1])
                else:
                    t = ("el", b, iv, x.vi[0][1], x.off)
                    E[x.i] = t if depth(t) < 6 else self.mk(st, x)
            elif b == UNDEF:
                E[x.i] = UNDEF
            else:
                E[x.i] = mkptr(self.mk(st, x), x.off if x.st else 0)
        elif o == "alloca":
            r = ("al", x.i)
            for k in [k for k in st.mem if k[0] == r]:
                del st.mem[k]
            E[x.i] = r
        elif o in ("bitcast", "ptrtoint", "inttoptr", "zext", "sext", "freeze"):
            E[x.i] = self.val(st, x.a[0])
        elif o == "trunc":
            v = self.val(st, x.a[0])
            if x.t == "i1":
                if v[0] == "i":
                    v = ("i", v[1] & 1)
            elif v[0] == "i":
                w = int(x.t[1:])
                n = v[1] & ((1 << w) - 1)
                v = ("i", n - (1 << w) if n >> (w - 1) else n)
            elif v[0] not in ("ty", "cmp", "not"):
                v = ("tr", x.t, v) if depth(v) < 6 else self.mk(st, x)
            E[x.i] = v
        elif o == "icmp":
            E[x.i] = self.simp_cmp(x.p, self.val(st, x.a[0]), self.val(st, x.a[1]))
        elif o == "xor" and x.a[1] == ["i", 1] or o == "xor" and x.t == "i1" and x.a[1] == ["i", -1]:
            a = self.val(st, x.a[0])
            E[x.i] = self.neg(a) if a[0] in ("cmp", "not", "i", "v", "b1") and x.t == "i1" else ("bin", o, a, ("i", 1))
        elif o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b = self.val(st, x.a[0]), self.val(st, x.a[1])
            self.pl.arith(self, st, x, a, b)
            if a[0] == "i" and b[0] == "i" and o in ("add", "sub", "mul", "and", "or", "xor"):
                E[x.i] = ("i", {"add": a[1] + b[1], "sub": a[1] - b[1], "mul": a[1] * b[1], "and": a[1] & b[1],
                                "or": a[1] | b[1], "xor": a[1] ^ b[1]}[o])
            elif o == "and" and a[0] == "ty" and b == ("i", 0xFFFF):
                E[x.i] = a
            elif o == "add" and b == ("i", 0):
                E[x.i] = a
            else:
                t = ("bin", o, a, b)
                E[x.i] = t if depth(t) < 6 and UNDEF not in (a, b) else self.mk(st, x)
        elif o == "select":
            c = self.val(st, x.a[0])
            out = []
            for t, k in ((True, 1), (False, 2)):
                s = st.copy()
                if self.assume(s, c, t):
                    s.env[x.i] = self.val(s, x.a[k])
                    out.append(s)
            return out
        elif o == "call":
            nm = x.callee
            if nm and nm.startswith("llvm."):
                if nm.startswith("llvm.expect"):
                    E[x.i] = self.val(st, x.a[0])
                elif nm.startswith("llvm.lifetime"):
                    self.pl.life(self, st, x)
                elif nm.startswith(("llvm.dbg", "llvm.stacksave", "llvm.stackrestore", "llvm.va_")):
                    pass
                else:
                    r = self.pl.call(self, st, x)
                    if r is not None:
                        return r
                    if x.t != "void":
                        E[x.i] = self.mk(st, x)
                return [st]
            r = self.pl.call(self, st, x)
            if r is None:
                if x.t != "void":
                    E[x.i] = self.mk(st, x)
                return [st]
            return r
        elif x.t != "void":
            E[x.i] = self.mk(st, x)
        return [st]

    # -- fixpoint ---------------------------------------------------------
    def key(self, st, b):
        live = self.live_in[b]
        env = tuple(sorted((k, v) for k, v in st.env.items() if k in live or k in self.pin))
        return (env, tuple(sorted(st.own.items(), key=repr)), tuple(sorted(st.dead.items(), key=repr)),
                tuple(sorted(st.x.items(), key=repr)), self.pl.factkey(st))

    def gc(self, st, b):
        live = self.live_in[b]
        st.env = {k: v for k, v in st.env.items() if k in live or k in self.pin}
        keep = set()
        for v in st.env.values():
            roots_of(v, keep)
        keep |= set(st.own)
        for k, v in st.x.items():
            if k[0] in ROOTLESS:
                continue
            roots_any(v, keep)
            if k[0] in self.pl.sticky:
                roots_any(k, keep)
        keep |= {("arg", i) for i in range(max(8, len(self.fn.params)))}
        work = True
        while work:
            work = False
            for k, v in st.mem.items():
                if k[0] in keep or k[0][0] in ("al", "g"):
                    for r in roots_of(v, set()):
                        if r not in keep:
                            keep.add(r); work = True
            for k, v in st.org.items():
                if k in keep and v[0] not in keep:
                    keep.add(v[0]); work = True
        st.mem = {k: v for k, v in st.mem.items() if k[0] in keep or k[0][0] in ("al", "g")}
        st.org = {k: v for k, v in st.org.items() if k in keep}
        st.x = {k: v for k, v in st.x.items() if k[0] in ROOTLESS or all(r in keep or r[0] in ("al", "g") for r in roots_any(k, set()))}
        st.dead = {k: v for k, v in st.dead.items() if k in keep}
        st.facts = {k: v for k, v in st.facts.items() if roots_of(k[1], set()) <= keep | {r for r in roots_of(k[1], set()) if r[0] in ("al", "g")}}
        return st

    def merge(self, a, b):
        """intersect the knowledge of b into a; returns True when a changed"""
        ch = False
        for k in list(a.mem):
            if b.mem.get(k) != a.mem[k]:
                del a.mem[k]; ch = True
        for k in list(a.facts):
            fv = a.facts[k]
            gv = b.facts.get(k)
            if gv is None:
                del a.facts[k]; ch = True
            elif gv != fv:
                if k[0] == "ty":
                    n = fv | gv
                    if n != fv:
                        ch = True
                        if n == ALLT:
                            del a.facts[k]
                        else:
                            a.facts[k] = n
                elif k[0] == "ne":
                    n = fv & gv
                    if n != fv:
                        ch = True
                        if n:
                            a.facts[k] = n
                        else:
                            del a.facts[k]
                elif k[0] == "rng":
                    lo = None if fv[0] is None or gv[0] is None else min(fv[0], gv[0])
                    hi = None if fv[1] is None or gv[1] is None else max(fv[1], gv[1])
                    # widen: give up a bound that moves
                    if lo != fv[0]:
                        lo = None
                    if hi != fv[1]:
                        hi = None
                    n = (lo, hi)
                    if n != fv:
                        ch = True
                        if n == (None, None):
                            del a.facts[k]
                        else:
                            a.facts[k] = n
                else:
                    del a.facts[k]; ch = True
        for k in list(a.org):
            if b.org.get(k) != a.org[k]:
                if k in b.org:
                    del a.org[k]; ch = True
        return ch

    def run(self, init):
        fn = self.fn
        for i, p in enumerate(fn.params):
            init.env.setdefault(p[0], ("arg", i))
        table = [dict() for _ in fn.blocks]
        work = []
        self.enter(table, work, 0, init)
        steps = 0
        while work:
            b, k = work.pop()
            st0 = table[b].get(k)
            if st0 is None:
                continue
            steps += 1
            self.pl.steps += 1
            if steps > 60000 or self.pl.steps > self.pl.budget:
                raise Giveup("no fixpoint for %s" % fn.name)
            for st, blk, term in self.block(b, st0.copy()):
                if term.o == "ret":
                    self.pl.ret(self, st, term)
                    continue
                if term.o == "unreachable":
                    self.pl.stop(self, st, term)
                    continue
                for succ, s2 in self.branch(st, term):
                    self.edge(table, work, b, succ, s2)
        self.visits = steps
        return table

    def block(self, b, st):
        states = [st]
        blk = self.fn.blocks[b]
        for x in blk[:-1]:
            if x.o == "phi":
                continue
            nxt = []
            for s in states:
                nxt += self.step(s, x)
            states = nxt
        return [(s, b, blk[-1]) for s in states]

    def branch(self, st, t):
        if t.o == "br":
            if len(t.s) == 1:
                return [(t.s[0], st)]
            c = self.val(st, t.a[0])
            out = []
            for truth, s in ((True, t.s[0]), (False, t.s[1])):
                n = st.copy()
                if self.assume(n, c, truth):
                    out.append((s, n))
            return out
        if t.o == "switch":
            v = self.val(st, t.a[0])
            out = []
            rest = st.copy()
            ok = True
            for cv, s in t.cs:
                n = st.copy()
                c = self.simp_cmp("eq", v, ("i", cv))
                if self.assume(n, c, True):
                    out.append((s, n))
                if ok:
                    ok = self.assume(rest, c, False)
            if ok:
                out.append((t.d, rest))
            return out
        raise front.Broken("terminator %s in %s" % (t.o, self.fn.name))

    def edge(self, table, work, pred, succ, st):
        vals = {}
        for x in self.fn.blocks[succ]:
            if x.o != "phi":
                break
            for o, p in x.inc:
                if p == pred:
                    vals[x.i] = self.val(st, o)
        if succ in self.heads:
            # loop-carried numbers, offsets and computed terms are widened to an unknown
            wide = []
            for i, v in list(vals.items()):
                if v[0] in ("v", "arg", "al", "g", "null", "undef"):
                    continue
                seen = self.phivals.setdefault(i, set())
                seen.add(v)
                if len(seen) > self.WIDEN:
                    wide.append(i)
                    del vals[i]
            for i in wide:
                st.env.pop(i, None)
            for i, v in vals.items():
                st.env[("in", i)] = v      # travels through the renaming below
            for i in wide:
                r = self.fresh(st, i)
                st.facts = {k: w for k, w in st.facts.items() if r not in roots_of(k[1], set())}
                st.env[("in", i)] = r
            for k in [k for k in st.env if isinstance(k, tuple)]:
                vals[k[1]] = st.env.pop(k)
        st.env.update(vals)
        self.enter(table, work, succ, st)

    def coarse(self, st, b):
        """names that do not touch the property state are left out of the key"""
        rel = set(st.own) | set(st.dead)
        for k, v in st.x.items():
            if k[0] not in ROOTLESS:
                roots_any(k, rel); roots_any(v, rel)
        env = tuple(sorted((k, v) for k, v in st.env.items() if roots_of(v, set()) & rel))
        return ("coarse", env, tuple(sorted(st.own.items(), key=repr)), tuple(sorted(st.dead.items(), key=repr)),
                tuple(sorted(st.x.items(), key=repr)), self.pl.factkey(st))

    def enter(self, table, work, b, st):
        self.pl.join(self, st, b)
        if ("end",) in st.x:
            return              # the property does not follow this path further
        self.gc(st, b)
        k = self.key(st, b)
        t = table[b]
        if k not in t and len(t) > self.SOFT:
            k = self.coarse(st, b)
            self.coarsened = True
        if k in t:
            o = t[k]
            ch = False
            if o.env != st.env:
                for n in set(o.env) | set(st.env):
                    if o.env.get(n, UNDEF) != st.env.get(n, UNDEF) and o.env.get(n, UNDEF) != UNDEF:
                        o.env[n] = UNDEF
                        ch = True
            if self.merge(o, st) or ch:
                work.append((b, k))
        else:
            if len(t) > self.MAXSTATES:
                raise Giveup("too many abstract states in %s" % self.fn.name)
            t[k] = st
            work.append((b, k))


def depth(t):
    return 1 + max((depth(x) for x in t[1:] if isinstance(x, tuple)), default=0)


def rcmp(p, lo, hi, n):
    if p in ("slt", "ult"):
        if hi is not None and hi < n and (p == "slt" or (lo is not None and lo >= 0)): return True
        if lo is not None and lo >= n and n >= 0: return False
    if p in ("sle", "ule"):
        if hi is not None and hi <= n and (p == "sle" or (lo is not None and lo >= 0)): return True
        if lo is not None and lo > n and n >= 0: return False
    if p in ("sgt", "ugt"):
        r = rcmp("sle" if p == "sgt" else "ule", lo, hi, n)
        return None if r is None else not r
    if p in ("sge", "uge"):
        r = rcmp("slt" if p == "sge" else "ult", lo, hi, n)
        return None if r is None else not r
    if p == "eq":
        if (lo is not None and n < lo) or (hi is not None and n > hi): return False
    if p == "ne":
        if (lo is not None and n < lo) or (hi is not None and n > hi): return True
    return None


def rref(p, lo, hi, n):
    mx = lambda a, b: b if a is None else max(a, b)
    mn = lambda a, b: b if a is None else min(a, b)
    if p == "slt": return lo, mn(hi, n - 1)
    if p == "sle": return lo, mn(hi, n)
    if p == "sgt": return mx(lo, n + 1), hi
    if p == "sge": return mx(lo, n), hi
    if p == "ult" and n >= 0: return mx(lo, 0), mn(hi, n - 1)
    if p == "ule" and n >= 0: return mx(lo, 0), mn(hi, n)
    if p == "ugt" and lo is not None and lo >= 0: return mx(lo, n + 1), hi
    if p == "uge" and lo is not None and lo >= 0: return mx(lo, n), hi
    return lo, hi


class Plugin:
    """default hooks: no property"""
    steps, budget = 0, 10 ** 9
    sticky = ()     # kinds of entries of State.x that outlive the names they speak of
    def call(self, e, st, x): return None
    def load(self, e, st, x, root, off, cl): return None
    def element(self, st, x, ptr, v): pass
    def store(self, e, st, x, root, off, cl, v): pass
    def wildstore(self, e, st, x, v): pass
    def deref(self, e, st, x, root, off): pass
    def arith(self, e, st, x, a, b): pass
    def life(self, e, st, x): pass
    def ret(self, e, st, x): pass
    def stop(self, e, st, x): pass
    def join(self, e, st, b): pass
    def overflow(self, e, st, i, g): pass
    def distinct(self, e, st, r1, r2, cl): return False
    def factkey(self, st): return ()
