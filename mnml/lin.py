"""Path summaries over linear forms for small functions that compute addresses (the allocator).

Values are linear forms over unknowns; memory is a list of writes to addresses that are linear forms; a counting loop becomes one
write for every value of its counter. Anything else makes the path unsure."""
import itertools


class Unsure(Exception):
    pass


def const(n):
    return (n, ())


def var(s):
    return (0, ((s, 1),))


def add(a, b, k=1):
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + k * c
    r = (a[0] + k * b[0], tuple(sorted(((s, c) for s, c in d.items() if c), key=repr)))
    # 32 * (x / 32) is x for the addresses of cells
    for s, c in r[1]:
        if s[0] == "div" and c % s[2] == 0 and c > 0:
            return add((r[0], tuple(x for x in r[1] if x[0] != s)), s[1], c // s[2])
    return r


def mul(a, k):
    return add(const(0), a, k)


def div(a, k):
    if a[0] % k == 0 and all(c % k == 0 for s, c in a[1]):
        return (a[0] // k, tuple((s, c // k) for s, c in a[1]))
    return var(("div", a, k))


def isconst(a):
    return a[0] if not a[1] else None


def subst(a, s, v):
    if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], int) and isinstance(a[1], tuple):
        r = const(a[0])
        for t, c in a[1]:
            r = add(r, v if t == s else var(substs(t, s, v)), c)
        return r
    return a


def substs(t, s, v):
    if t[0] == "div":
        return ("div", subst(t[1], s, v), t[2])
    return t


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
SIZE = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}
QUIET = {"llvm.dbg.value", "llvm.dbg.declare", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "fprintf", "printf", "dprintf", "fputs", "puts",
         "perror", "fflush", "fputc", "fwrite", "putc", "putchar", "free", "munmap", "close"}


class State:
    def __init__(self):
        self.env, self.mem, self.conds, self.events, self.loc = {}, [], [], [], None

    def copy(self):
        n = State()
        n.env, n.mem, n.conds, n.events, n.loc = dict(self.env), list(self.mem), list(self.conds), list(self.events), self.loc
        return n


def neg(c):
    return (NEG[c[0]], c[1], c[2])


class Run:
    """state.mem: ("w", address, size, value, place) | ("z", address, length, place) | ("all", counter, lo, hi, [writes])"""

    def __init__(self, f, known=(), budget=4000, low=None):
        self.low = low or {}        # unknown -> its least value
        self.f, self.known, self.budget, self.n = f, set(known), budget, 0
        self.heads = set()
        self.loops()
        self.ends = []          # (kind, value, state)

    def loops(self):
        seen, stack, on = set(), [(0, iter(self.succ(0)))], {0}
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in on:
                    self.heads.add(s)
                elif s not in seen:
                    seen.add(s); on.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                stack.pop(); on.discard(b)

    def succ(self, b):
        x = self.f.blocks[b][-1]
        out = list(x.s or ())
        for c in x.cs or ():
            out.append(c[1] if isinstance(c, (list, tuple)) else c)
        if x.o == "switch" and isinstance(x.d, int):
            out.append(x.d)
        return out

    # -- values
    def val(self, st, op, t=None):
        k = op[0]
        if k == "i":
            n = op[1]
            return const(n & 0xffffffff if t == "i32" and n < 0 else n)
        if k in ("n", "z"):
            return const(0)
        if k == "v":
            if op[1] in st.env:
                return st.env[op[1]]
            return var(("v", op[1]))
        return var(("o",) + tuple(map(str, op)))

    def cond(self, st, v):
        """a truth value as (predicate, a, b)"""
        if isinstance(v, tuple) and v and v[0] == "cond":
            return v[1]
        return ("ne", v, const(0))

    def decide(self, st, c):
        p, a, b = c
        d = add(a, b, -1)
        n = isconst(d)
        if n is not None and (p in ("eq", "ne") or n == 0 or (isconst(a) is not None)):
            return {"eq": n == 0, "ne": n != 0, "ult": n < 0, "slt": n < 0, "ule": n <= 0, "sle": n <= 0, "ugt": n > 0, "sgt": n > 0,
                    "uge": n >= 0, "sge": n >= 0}[p]
        for q, x, y in st.conds:
            if (x, y) == (a, b) or add(x, y, -1) == d:
                if q == p:
                    return True
                if q == NEG[p] or {p, q} == {"eq", "ne"}:
                    return False
                if q == "eq" and p in ("ult", "ugt", "slt", "sgt"):
                    return False
        return None

    def least(self, a):
        """least value of a linear form, None if not bounded below"""
        n = a[0]
        for s, c in a[1]:
            if c < 0 or s not in self.low:
                return None
            n += c * self.low[s]
        return n

    def apart(self, a, na, b, nb):
        """[a, a+na) and [b, b+nb) never meet"""
        u, v = self.least(add(a, b, -1)), self.least(add(b, a, -1))
        return (u is not None and u >= nb) or (v is not None and v >= na)

    # -- memory
    def write(self, st, addr, size, v, x):
        st.mem.append(("w", addr, size, v, x.loc()))

    def load(self, st, addr, size, x):
        for e in reversed(st.mem):
            if e[0] == "w":
                d = isconst(add(addr, e[1], -1))
                if d is not None:
                    if d == 0 and size == e[2]:
                        return e[3]
                    if d < e[2] and -d < size:
                        raise Unsure("partial read at %s" % x.loc())
                elif self.mayalias(addr, e[1]) and not self.apart(addr, size, e[1], e[2]):
                    raise Unsure("read at %s may see the write at %s" % (x.loc(), e[4]))
            elif e[0] == "z":
                d, L = isconst(add(addr, e[1], -1)), isconst(e[2])
                if d is not None and L is not None:
                    if 0 <= d and d + size <= L:
                        return const(0)
                    if d >= L or d + size <= 0:
                        continue
                    raise Unsure("partial read at %s" % x.loc())
                if self.mayalias(addr, e[1]):
                    raise Unsure("read at %s may see the clearing at %s" % (x.loc(), e[3]))
            elif e[0] == "all":
                for w in e[4]:
                    k = dict(w[1][1]).get(e[1], 0)
                    rest = add(addr, subst(w[1], e[1], const(0)), -1)
                    if k and not self.mayalias(addr, w[1]):
                        continue
                    i = div(rest, k) if k else None
                    if i is None or any(s[0] == "div" for s, c in i[1]):
                        d = rest[0] % k if k else None
                        if k and all(c % k == 0 for s, c in rest[1]) and d >= w[2] and d + size <= k:
                            continue
                        raise Unsure("read at %s of what a loop wrote" % x.loc())
                    if w[2] != size:
                        raise Unsure("partial read at %s" % x.loc())
                    u, v = self.least(add(i, e[2], -1)), self.least(add(add(e[3], i, -1), const(-1)))
                    if u is not None and u >= 0 and v is not None and v >= 0:
                        return subst(w[3], e[1], i)
                    u, v = self.least(add(e[2], i, -1)), self.least(add(i, e[3], -1))
                    if (u is not None and u >= 1) or (v is not None and v >= 0):
                        continue
                    raise Unsure("read at %s of what a loop may have written" % x.loc())
            elif e[0] == "havoc":
                raise Unsure("read at %s after %s" % (x.loc(), e[1]))
        return var(("ld", addr, size))

    def region(self, a):
        """what a pointer points into: the unknown it is based on"""
        return frozenset(s for s, c in a[1] if s[0] == "res" or (s[0] == "v" and s[1] < len(self.f.params)) or (s[0] == "ld" and s[2] == 8 and c == 1))

    def mayalias(self, a, b):
        return bool(self.region(a) & self.region(b))

    # -- running
    def go(self):
        st = State()
        self.block(0, None, st, frozenset(), None)
        return self.ends

    def phis(self, b, prev, st):
        new = {}
        for x in self.f.blocks[b]:
            if x.o != "phi":
                break
            for v, p in x.inc:
                if p == prev:
                    new[x.i] = self.val(st, v, x.t)
        st.env.update(new)

    def block(self, b, prev, st, active, back):
        self.n += 1
        if self.n > self.budget:
            raise Unsure("too many paths")
        if b in active:
            if back is None or b != back[0]:
                raise Unsure("irregular loop")
            back[1].append((prev, st))
            return
        if b in self.heads:
            self.loop(b, prev, st, active, back)
            return
        self.phis(b, prev, st)
        self.insts(b, 0, st, active, back)

    def insts(self, b, i0, st, active, back):
        for n, x in enumerate(self.f.blocks[b]):
            if x.o == "phi" or n < i0:
                continue
            if x.l:
                st.loc = x.loc()
            if x.o == "select":
                c = self.cond(st, self.val(st, x.a[0]))
                if self.decide(st, c) is None:
                    for k, cc in ((1, c), (2, neg(c))):
                        m = st.copy()
                        m.conds.append(cc)
                        m.env[x.i] = self.val(m, x.a[k], x.t)
                        self.insts(b, n + 1, m, active, back)
                    return
            if x.o in ("zext", "sext") and x.ft == "i1" and x.i in self.counted():
                c = self.cond(st, self.val(st, x.a[0], x.ft))
                for k, cc in ((1 if x.o == "zext" else -1, c), (0, neg(c))):
                    if self.decide(st, cc) is False:
                        continue
                    m = st.copy()
                    m.conds.append(cc)
                    m.env[x.i] = const(k)
                    self.insts(b, n + 1, m, active, back)
                return
            r = self.inst(x, st)
            if r == "end":
                self.ends.append(("abort", None, st))
                return
            if x.o == "ret":
                self.ends.append(("ret", self.val(st, x.a[0]) if x.a else None, st))
                return
            if x.o == "br":
                if not x.a:
                    return self.block(x.s[0], b, st, active, back)
                c = self.cond(st, self.val(st, x.a[0]))
                d = self.decide(st, c)
                for s, take, cc in ((x.s[0], True, c), (x.s[1], False, neg(c))):
                    if d is None or d == take:
                        n = st.copy()
                        if d is None:
                            n.conds.append(cc)
                        self.block(s, b, n, active, back)
                return
            if x.o == "switch":
                v = self.val(st, x.a[0])
                cases = [(c[0], c[1]) for c in x.cs]
                left = []
                for n, s in cases:
                    n = const(n[1] if isinstance(n, (list, tuple)) else n)
                    d = self.decide(st, ("eq", v, n))
                    if d is not False:
                        m = st.copy(); m.conds.append(("eq", v, n))
                        self.block(s, b, m, active, back)
                    left.append(("ne", v, n))
                    if d:
                        return
                m = st.copy(); m.conds += left
                self.block(x.d, b, m, active, back)
                return
            if x.o == "unreachable":
                return

    def counted(self):
        """values used in arithmetic"""
        if self._counted is None:
            self._counted = set()
            more = True
            while more:
                more = False
                for B in self.f.blocks.values() if isinstance(self.f.blocks, dict) else self.f.blocks:
                    for x in B:
                        if x.o in ("add", "sub", "mul", "shl", "or", "and", "gep", "store") or \
                                x.o in ("zext", "sext", "trunc", "freeze") and x.ft != "i1" and x.i in self._counted:
                            for a in list(x.a or ()) + [v for v, k in x.vi or ()]:
                                if isinstance(a, (list, tuple)) and a and a[0] == "v" and a[1] not in self._counted:
                                    self._counted.add(a[1])
                                    more = True
        return self._counted

    _counted = None
    lossy = False

    def loop(self, h, prev, st, active, back):
        phis = [x for x in self.f.blocks[h] if x.o == "phi"]
        entry = st.copy()
        self.phis(h, prev, entry)
        init = {x.i: entry.env[x.i] for x in phis}
        probe = entry.copy()
        for x in phis:
            probe.env[x.i] = var(("it", h, x.i))
        mark, ev, nc = len(probe.mem), len(probe.events), len(probe.conds)
        mine = (h, [])
        ends, self.ends = self.ends, []
        self.insts(h, 0, probe.copy(), active | {h}, mine)      # one turn from any state of the counter
        self.ends = ends
        if len(mine[1]) != 1:
            raise Unsure("loop with %d ways around" % len(mine[1]))
        latch, one = mine[1][0]
        if len(one.events) != ev:
            raise Unsure("calls inside a loop")
        steps = {}
        for x in phis:
            for v, p in x.inc:
                if p == latch:
                    steps[x.i] = add(self.val(one, v, x.t), var(("it", h, x.i)), -1)
        moving = [x for x in phis if steps.get(x.i) != const(0)]
        if len(moving) != 1 or steps[moving[0].i] not in (const(1), const(-1)):
            raise Unsure("loop without a single counter")
        i, up = ("it", h, moving[0].i), steps[moving[0].i] == const(1)
        guard = one.conds[nc:]
        if len(guard) != 1:
            raise Unsure("loop with several conditions")
        p, a, b = guard[0]
        if dict(b[1]).get(i):
            a, b, p = b, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
        if dict(a[1]).get(i) != 1 or dict(b[1]).get(i):
            raise Unsure("loop condition")
        lim = add(b, add(a, var(i), -1), -1)        # counter p lim
        first = init[i[2]]
        if up and p in ("ult", "slt", "ne"):
            lo, hi, last = first, lim, lim
        elif up and p in ("ule", "sle"):
            lo, hi, last = first, add(lim, const(1)), add(lim, const(1))
        elif not up and p in ("ugt", "sgt", "ne"):
            lo, hi, last = add(lim, const(1)), add(first, const(1)), lim
        elif not up and p in ("uge", "sge"):
            lo, hi, last = lim, add(first, const(1)), add(lim, const(-1))
        else:
            raise Unsure("loop condition %s" % p)
        body = one.mem[mark:]
        if any(w[0] != "w" for w in body):
            raise Unsure("nested loop or block write inside a loop")
        for w in body:
            if self.region(w[1]) == frozenset():
                raise Unsure("loop write")
        after = entry.copy()
        for x in phis:
            after.env[x.i] = last if x is moving[0] else init[x.i]
        if body:
            after.mem.append(("all", i, lo, hi, body))
        # leave: the header's own condition is false now
        xs = self.f.blocks[h]
        for x in xs:
            if x.o == "phi":
                continue
            if x.o == "br" and x.a:
                c = self.cond(after, self.val(after, x.a[0]))
                inside = {s for s in x.s if self.reaches(s, h)}
                outs = [s for s in x.s if s not in inside]
                if len(outs) != 1:
                    raise Unsure("loop left from its middle")
                return self.block(outs[0], h, after, active, back)
            if x.o in ("br", "switch", "ret"):
                raise Unsure("loop left from its middle")
            self.inst(x, after)

    def reaches(self, s, h):
        seen, todo = set(), [s]
        while todo:
            b = todo.pop()
            if b == h:
                return True
            if b not in seen:
                seen.add(b)
                todo += self.succ(b)
        return False

    def inst(self, x, st):
        o, A = x.o, x.a
        V = lambda k: self.val(st, A[k], x.t)
        isc = lambda v: isinstance(v, tuple) and v and v[0] == "cond"
        if o == "gep":
            r = add(V(0), const(x.off or 0))
            for v, k in x.vi or ():
                r = add(r, mul(self.num(self.val(st, v, "i64")), k))
            st.env[x.i] = r
        elif o == "load":
            st.env[x.i] = self.load(st, V(0), SIZE.get(x.t, 0), x)
        elif o == "store":
            v = A[0]
            t = self.typeof(v, x)
            self.write(st, self.val(st, A[1]), SIZE.get(t, 8) if t else x.sz or 8, self.num(self.val(st, v, t)), x)
        elif o in ("ptrtoint", "inttoptr", "bitcast", "zext", "sext", "trunc", "freeze", "addrspacecast"):
            v = self.val(st, A[0], x.ft)
            if o == "trunc" and self.lossy and not isc(v) and isconst(v) is None and SIZE.get(x.t):
                v = var(("tr", SIZE[x.t], v))
            st.env[x.i] = v
        elif o == "add":
            st.env[x.i] = add(self.num(V(0)), self.num(self.sgn(V(1), x.t)))
        elif o == "sub":
            st.env[x.i] = add(self.num(V(0)), self.num(V(1)), -1)
        elif o in ("mul", "shl", "udiv", "sdiv", "lshr", "or", "and", "xor"):
            a, b = V(0), V(1)
            if o == "xor" and isc(a) and isconst(b) == 1:
                st.env[x.i] = ("cond", neg(a[1]))
                return
            a, b = self.num(a), self.num(b)
            ka, kb = isconst(a), isconst(b)
            if o == "mul" and kb is not None:
                r = mul(a, kb)
            elif o == "mul" and ka is not None:
                r = mul(b, ka)
            elif o == "shl" and kb is not None:
                r = mul(a, 1 << kb)
            elif o in ("udiv", "sdiv") and kb:
                r = div(a, kb)
            elif o == "lshr" and kb is not None:
                r = div(a, 1 << kb)
            else:
                r = var((o, a, b))
            st.env[x.i] = r
        elif o == "icmp":
            a, b = self.val(st, A[0], x.ft), self.val(st, A[1], x.ft)
            if isc(a) or isc(b):
                c, k = (a, b) if isc(a) else (b, a)
                k = isconst(k) if not isc(k) else None
                if k in (0, 1) and x.p in ("eq", "ne"):
                    st.env[x.i] = c if (k == 1) == (x.p == "eq") else ("cond", neg(c[1]))
                    return
                raise Unsure("condition at %s" % x.loc())
            c = (x.p, a, b)
            d = self.decide(st, c)
            st.env[x.i] = ("cond", c) if d is None else const(int(d))
        elif o == "select":
            c = self.cond(st, V(0))
            d = self.decide(st, c)
            if d is None:
                raise Unsure("select at %s" % x.loc())
            st.env[x.i] = self.val(st, A[1 if d else 2], x.t)
        elif o == "call":
            return self.call(x, st)
        elif o in ("br", "ret", "switch", "unreachable", "phi"):
            pass
        elif o == "alloca":
            st.env[x.i] = var(("res", x.i))
        else:
            st.env[x.i] = var(("v", x.i))

    def sgn(self, v, t):
        n = None if v[0] == "cond" else isconst(v)
        if t == "i32" and n is not None and n > 0x7fffffff:
            return const(n - (1 << 32))
        return v

    def num(self, v):
        if v and v[0] == "cond":
            raise Unsure("truth value as number")
        return v

    def typeof(self, op, x):
        if x.ty in SIZE:
            return x.ty
        if op[0] == "v":
            if op[1] < len(self.f.params):
                return self.f.params[op[1]][2]
            for y in self.f.insts():
                if y.i == op[1]:
                    return y.t
        if op[0] in ("n", "g", "go"):
            return "ptr"
        return self.fieldtype(x)

    def fieldtype(self, x):
        """size of a constant store, from the place it goes to"""
        p = x.a[1]
        for y in self.f.insts():
            if p[0] == "v" and y.i == p[1] and y.o == "gep":
                t = y.rt or ""
                if t in SIZE:
                    return t
                if "{ i32 }" in t:
                    return "i32"
                if "type {" in t:
                    inner = t.split("type {")[1].split(",")[0].strip(" }")
                    if inner in SIZE:
                        return inner
                    if "union.anon" in inner:
                        return "i32"
        return "i64"

    def call(self, x, st):
        c = x.callee
        args = [self.val(st, a) for a in x.a]
        if c in ("llvm.expect.i64", "llvm.expect.i1", "llvm.expect.i32"):
            st.env[x.i] = args[0]
        elif c in ("abort", "exit", "_exit", "__assert_fail"):
            return "end"
        elif c and (c.startswith("llvm.memset") or c == "memset"):
            if isconst(args[1]) != 0:
                st.mem.append(("havoc", "memset at %s" % x.loc()))
            else:
                st.mem.append(("z", args[0], args[2], x.loc()))
            st.env[x.i] = args[0]
        elif c in ("malloc", "mmap", "calloc"):
            st.env[x.i] = var(("res", x.i))
            st.events.append((c, args, st.env[x.i], x.loc()))
            if c == "calloc":
                n = isconst(args[0]), isconst(args[1])
                st.mem.append(("z", st.env[x.i], const(n[0] * n[1]), x.loc()) if None not in n else ("havoc", "calloc"))
        elif c == "mprotect":
            st.env[x.i] = var(("res", x.i))
            st.events.append((c, args, st.env[x.i], x.loc()))
        elif c in self.known:
            st.env[x.i] = var(("res", x.i))
            st.events.append((c, args, st.env[x.i], x.loc(), len(st.mem)))
        elif c in QUIET or (c and c.startswith("llvm.dbg")):
            st.env[x.i] = var(("v", x.i))
        else:
            raise Unsure("call of %s at %s" % (c or "a function value", x.loc()))
