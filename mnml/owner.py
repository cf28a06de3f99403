"""C01/C02: reference balance and use-after-release, as an ownership (typestate) analysis on top of absint."""
from . import absint, front
from .absint import NULL, UNDEF, addr, State
from .absint import Giveup
from .report import Finding
from .contracts import API, C, INDIRECT, KEEP, PRIM, NIL, PAIR


# Life-cycle functions whose slots start empty or end given up (one reason each).
ENTRY_EMPTY = {"module_init": ("L_MODULES",),          # first use of the slot
               "main": ("*g",)}                        # statics start out empty
EXIT_GONE = {"module_fini": ("L_MODULES",),            # end of the interpreter
             "lisp_delete": ("L_GLOBALS", "L_ICHAN", "L_OCHAN"), "main": ("*g",)}


class Owner(absint.Plugin):
    sticky = ("pend",)

    def __init__(self, prog, contracts, fn, contract, gslots):
        self.prog, self.cons, self.fn, self.ct, self.gslots = prog, contracts, fn, contract, gslots
        self.found = {}
        self.K = front.consts()
        self.finals = {}
        self.paths = 0
        self.events = 0

    # -- reporting --------------------------------------------------------
    def report(self, prop, rule, x, subject, text):
        f = Finding(prop, rule, self.fn.name, x.loc(), subject, text)
        self.found.setdefault(f.key(), f)

    def describe(self, st, r):
        if r[0] == "arg":
            return "argument '%s'" % (self.fn.params[r[1]][1] or r[1])
        if r[0] == "g":
            return "global %s" % r[1]
        d = self.fn.defs.get(r[1]) if r[0] in ("v", "al") else None
        if d is None:
            return str(r)
        if d.o == "call":
            return "result of %s" % (d.callee or "indirect call")
        o = st.org.get(r)
        if o:
            return "%s of %s" % (self.field(o[1], o[2]), self.describe(st, o[0]))
        return "value"

    def site(self, st, r):
        d = self.fn.defs.get(r[1]) if r[0] in ("v", "al") else None
        return " (from %s)" % d.loc() if d is not None and d.l else ""

    def field(self, off, cl):
        K = self.K
        if "lisp" in cl:
            return {K["L_GLOBALS"]: "globals", K["L_MODULES"]: "modules", K["L_ICHAN"]: "ichan", K["L_OCHAN"]: "ochan"}.get(off, "field %d" % off)
        return {K["CAR"]: "car", K["CDR"]: "cdr", K["CACHE"]: "cache", K["REFS"]: "refs"}.get(off, "field %d" % off)

    # -- slots ------------------------------------------------------------
    def slot(self, root, off, cl):
        """is (root, off) a place that holds a counted reference?"""
        K = self.K
        if cl == "lisp":
            return off in (K["L_GLOBALS"], K["L_MODULES"], K["L_ICHAN"], K["L_OCHAN"])
        if root[0] == "g":
            return root[1] in self.gslots and off == 0
        if cl in ("pair", "atom"):
            return off in (K["CAR"], K["CDR"]) and not (root[0] == "al")
        return False

    def load(self, e, st, x, root, off, cl):
        if root[0] == "g" and root[1].startswith("MNML_DEBUG"):
            return ("i", 0)
        if st.x.get(("fresh", root)) and x.t == "ptr":
            return NULL
        return None

    def distinct(self, e, st, r1, r2, cl):
        if r1[0] in ("g",) or r2[0] in ("g",):
            return True
        return bool(st.x.get(("fresh", r1)) or st.x.get(("fresh", r2)))

    def store(self, e, st, x, root, off, cl, v):
        K = self.K
        if cl == "atom" and off == K["REFS"]:
            self.refstore(e, st, x, root, v)
            return
        if cl == "atom" and off == K["TYPE"]:
            if v[0] == "i":
                st.facts[("ty", root)] = frozenset([v[1]])
            return
        if v[0] == "i" or e.optype(x.a[0], v) != "ptr":
            if v[0] != "i" or not self.slot(root, off, cl):
                return
        self.usable(st, x, v, "stored")
        if self.slot(root, off, cl):
            self.events += 1
            ad = addr(v)
            if ad and ad[1] == 0 and v != NULL:
                st.add(v, -1)
                st.x[("kept", v)] = True
            old = st.mem.get((root, off, "ptr"))
            if old is None:
                if st.x.get(("fresh", root)) or self.empty(root, off, cl):
                    return
                # content unknown: it is overwritten without having been looked at
                old = ("v", -x.i - 1000)
                st.add(old, 1)
                self.report("C01", "overwrite", x, "%s of %s" % (self.field(off, cl), self.describe(st, root)),
                            "a reference is overwritten without being released")
                st.own.pop(old, None)
                return
            if addr(old) and old != NULL:
                st.add(old, 1)
                st.dead.pop(old, None)

    def empty(self, root, off, cl):
        names = ENTRY_EMPTY.get(self.fn.name, ())
        return ("*g" in names and root[0] == "g") or (cl == "lisp" and any(n in self.K and self.K[n] == off for n in names))

    def refstore(self, e, st, x, root, v):
        if v[0] == "i" and st.x.get(("fresh", root)):
            st.x[("own", root)] = True
            st.own.pop(root, None)
            st.add(root, v[1])
            return
        if v[0] == "bin" and v[1] in ("add", "sub") and v[3][0] == "i":
            n = v[3][1] if v[1] == "add" else -v[3][1]
            if n > 0:
                self.up(e, st, x, root, n)
            else:
                self.down(e, st, x, root)
            return
        self.report("C01", "refs", x, self.describe(st, root), "reference count set to something else than one more or one less")

    # -- liveness of values ------------------------------------------------
    def owned_source(self, st, r):
        if r[0] == "arg":
            return r[1] < len(self.ct.args) and self.ct.args[r[1]] == "c"
        return bool(st.x.get(("own", r)))

    def alive(self, st, r, seen=()):
        if st.own.get(r, 0) > 0 or st.x.get(("kept", r)):
            return True
        if r in st.dead:
            return False
        if self.owned_source(st, r):
            return True
        o = st.org.get(r)
        if o and o[2] in ("pair", "atom") and o[0] not in seen:
            return self.alive(st, o[0], seen + (r,))
        return True

    def usable(self, st, x, v, how):
        ad = addr(v)
        if not ad or ad[0][0] in ("al", "g"):
            return
        r = ad[0]
        if not self.alive(st, r):
            self.report("C02", "use-after-release", x, self.describe(st, r), "value %s after its reference was given up%s" % (how, self.site(st, r)))

    def deref(self, e, st, x, root, off):
        if root[0] in ("al", "g"):
            return
        if off == self.K["REFS"] and st.x.get(("pend", root)):
            return
        self.usable(st, x, root, "read or written")

    # -- counting ----------------------------------------------------------
    def up(self, e, st, x, r, n=1):
        self.events += 1
        st.add(r, n)

    def down(self, e, st, x, r):
        self.events += 1
        c = st.add(r, -1)
        if self.owned_source(st, r):
            if c <= 0:
                st.dead[r] = True
        elif c < 0:
            st.dead[r] = True
        st.x[("pend", r)] = "?"
        for k in [k for k in st.mem if k[0] == r and k[1] == self.K["REFS"]]:
            del st.mem[k]

    def join(self, e, st, b):
        for k in [k for k in st.x if k[0] == "pend"]:
            z = self.refzero(st, k[1])
            if z is True:
                st.x[k] = "0"
            elif z is False:
                del st.x[k]

    def refzero(self, st, r):
        for k, v in st.mem.items():
            if k[0] == r and k[1] == self.K["REFS"]:
                if st.facts.get(("eq", v)) == 0:
                    return True
                if 0 in st.facts.get(("ne", v), ()):
                    return False
                lo = (st.facts.get(("rng", v)) or (None, None))[0]
                if lo is not None and lo > 0:
                    return False
                hi = (st.facts.get(("rng", v)) or (None, None))[1]
                if hi is not None and hi <= 0:
                    return True
        return None

    def consume(self, e, st, x, v, kind):
        ad = addr(v)
        if v == NULL or not ad:
            return
        r = ad[0]
        self.events += 1
        c = st.add(r, -1)
        if kind == "keep":
            st.x[("kept", r)] = True
            return
        if self.owned_source(st, r):
            if c <= 0:
                st.dead[r] = True
        elif c < 0:
            st.dead[r] = True

    # -- calls -------------------------------------------------------------
    def invalidate(self, st):
        """program code ran: forget what heap slots held, except in cells nobody else can reach"""
        for k in list(st.mem):
            r = k[0]
            if r[0] == "al" or (st.x.get(("fresh", r)) and not st.x.get(("kept", r))):
                continue
            del st.mem[k]

    def result(self, e, st, x, own=True):
        t = e.mk(st, x)
        st.env[x.i] = t
        for k in [k for k in st.x if isinstance(k, tuple) and len(k) == 2 and k[1] == t]:
            del st.x[k]
        st.facts = {k: v for k, v in st.facts.items() if t not in absint.roots_of(k[1], set())}
        st.dead.pop(t, None)
        if own:
            st.x[("own", t)] = True
            st.add(t, 1)
        return t

    def call(self, e, st, x):
        nm = x.callee
        args = [e.val(st, a) for a in x.a]
        if nm == "lisp_incref":
            ad = addr(args[0])
            self.usable(st, x, args[0], "referenced")
            if ad:
                self.up(e, st, x, ad[0])
            st.env[x.i] = args[0]
            return [st]
        if nm == "lisp_decref":
            ad = addr(args[0])
            if ad:
                self.usable(st, x, args[0], "released")
                self.down(e, st, x, ad[0])
            st.env[x.i] = args[0]
            return [st]
        if nm in ("lisp_allocate", "slab_allocate"):
            t = self.result(e, st, x, own=False)
            st.x[("fresh", t)] = True
            st.facts[("ne", t)] = frozenset([0])
            return [st]
        if nm == "lisp_deallocate":
            ad = addr(args[1])
            if ad:
                p = st.x.get(("pend", ad[0]))
                z = p == "0" or self.refzero(st, ad[0]) is True
                if not z:
                    self.report("C01", "free", x, self.describe(st, ad[0]), "cell freed without its reference count having been found zero")
                st.x.pop(("pend", ad[0]), None)
                st.dead[ad[0]] = True
            return [st]
        if nm in ("malloc", "calloc"):
            t = self.result(e, st, x, own=False)
            st.x[("fresh", t)] = True
            return [st]
        if nm == "free" and addr(args[0]):
            return [st]
        ct = API.get(nm) if nm else None
        if ct is None and nm:
            ct = self.cons.get(nm)
        if ct is None and nm is None:
            ct = INDIRECT.get(x.fty)
            if ct is None:
                if x.t != "void":
                    self.result(e, st, x, own=False)
                return [st]
        if ct is None:
            if nm in self.prog.functions and nm not in KEEP and any(t == "ptr" for _, _, t in self.prog.functions[nm].params):
                raise front.Broken("no contract for %s" % nm)
            for a in args:
                self.usable(st, x, a, "passed on")
            if x.t != "void":
                self.result(e, st, x, own=False)
            return [st]
        for i, a in enumerate(args):
            if i < len(ct.args) and ct.args[i] in "bc":
                self.usable(st, x, a, "passed to %s" % (nm or "a function"))
        # results that alias what is known
        if nm in ("lisp_car", "lisp_cdr") and addr(args[1]) and addr(args[1])[1] == 0:
            r = addr(args[1])[0]
            off = self.K["CAR"] if nm == "lisp_car" else self.K["CDR"]
            known = st.mem.get((r, off, "ptr"))
            if st.types(r) == frozenset([PAIR]) and known is not None and addr(known):
                self.up(e, st, x, addr(known)[0])
                st.env[x.i] = known
                return [st]
            t = self.result(e, st, x)
            r2 = addr(e.val(st, x.a[1]))[0]
            st.org[t] = (r2, off, "own")
            if PAIR not in st.types(r2):
                st.facts[("ty", t)] = frozenset([NIL])
            return [st]
        for i, a in enumerate(args):
            if i < len(ct.args) and ct.args[i] == "c":
                self.consume(e, st, x, a, ct.kind)
        if ct.kind == "eval":
            self.invalidate(st)
        if x.t == "void":
            return [st]
        if ct.ret == "upd":
            kv = args[2]
            s2 = st.copy()
            st.env[x.i] = kv
            r = addr(kv)[0] if addr(kv) else None
            if r:
                st.facts[("ty", r)] = frozenset([PAIR])
                st.mem.pop((r, self.K["CDR"], "ptr"), None)
            t = self.result(e, s2, x)
            s2.facts[("ty", t)] = frozenset([NIL])
            s2.facts[("ne", t)] = frozenset([0])
            return [st, s2]
        if ct.ret in ("own", "own0"):
            out = [st]
            if ct.ret == "own0":
                s0 = st.copy()
                s0.env[x.i] = NULL
                out.append(s0)
            t = self.result(e, st, x)
            st.facts[("ne", t)] = frozenset([0])
            if ct.ty is not None:
                st.facts[("ty", t)] = frozenset([ct.ty])
            if nm == "lisp_cons":
                a1, a2 = e.val(st, x.a[1]), e.val(st, x.a[2])
                st.mem[(t, self.K["CAR"], "ptr")] = a1
                st.mem[(t, self.K["CDR"], "ptr")] = a2
            return out
        self.result(e, st, x, own=False)
        return [st]

    # -- exits -------------------------------------------------------------
    def ret(self, e, st, x):
        self.paths += 1
        st = st.copy()
        self.join(e, st, -1)
        v = e.val(st, x.a[0]) if x.a else None
        if self.ct.ret in ("own", "own0", "upd", "b") and v is not None:
            ad = addr(v)
            if ad and v != NULL:
                self.usable(st, x, v, "returned")
                if self.ct.ret == "upd" and ad[0] == ("arg", 2):
                    pass
                elif self.ct.ret != "b":
                    st.add(ad[0], -1)
            elif v == NULL and self.ct.ret == "own":
                self.report("C01", "null-result", x, "result", "returns no value where callers expect one")
        gone = EXIT_GONE.get(self.fn.name, ())
        for k, val in list(st.mem.items()):
            if k[2] != "ptr" or not addr(val):
                continue
            if ("*g" in gone and k[0][0] == "g" and k[0][1] in self.gslots) or \
                    any(n in self.K and self.K[n] == k[1] and k[0] == ("arg", 0) for n in gone):
                if st.own.get(val, 0) < 0:
                    st.add(val, 1)
        for r, c in st.own.items():
            if c > 0:
                self.report("C01", "leak", x, self.describe(st, r), "reference not released on a path to this return%s" % self.site(st, r))
            elif c < 0:
                self.report("C01", "over-release", x, self.describe(st, r), "reference given up that is not held%s" % self.site(st, r))
            if r[0] == "arg":
                self.finals.setdefault(r[1], set()).add(c)
        for k in st.x:
            if k[0] == "pend":
                self.report("C01", "no-free", x, self.describe(st, k[1]), "count decremented without freeing the cell when it reaches zero")

    def overflow(self, e, st, i, g):
        if st.own.get(g, 0) > 0:
            x = self.fn.defs[i]
            self.report("C01", "leak", x, self.describe(st, g), "references pile up over the iterations of a loop")


def gslots(prog):
    """globals that hold a counted value: their content is passed to, or comes from, the value interface"""
    out = set()
    for f in prog.functions.values():
        for x in f.insts():
            if x.o == "load" and x.a[0][0] == "g" and x.t == "ptr":
                g = x.a[0][1]
                for y in f.insts():
                    if y.o == "call" and y.callee in API:
                        ct = API[y.callee]
                        for i, a in enumerate(y.a):
                            if a == ["v", x.i] and i < len(ct.args) and ct.args[i] in "bc":
                                out.add(g)
                    elif y.o == "call" and y.callee in ("lisp_incref", "lisp_decref") and y.a[0] == ["v", x.i]:
                        out.add(g)
    return out


def analyse(prog, fn, contracts, contract, gs, cls=Owner):
    pl = cls(prog, contracts, fn, contract, gs)
    st = State()
    for i, p in enumerate(fn.params):
        k = contract.args[i] if i < len(contract.args) else "-"
        if k == "c":
            st.add(("arg", i), 1)
    e = absint.Engine(fn, pl)
    e.run(st)
    pl.states = e.visits
    pl.coarse = e.coarsened
    return pl


def helpers(prog, group):
    """functions of the group that stay calls (recursive ones) and have no entry in the table"""
    called = {x.callee for f in prog.functions.values() for x in f.calls() if x.callee}
    return {n for n, f in prog.functions.items() if n in called and n not in API and n not in PRIM and n not in KEEP}


def sccs(nodes, succ):
    """strongly connected components, callees first"""
    index, low, stack, on, out = {}, {}, [], set(), []

    def go(v):
        index[v] = low[v] = len(index)
        stack.append(v); on.add(v)
        for w in succ(v):
            if w not in index:
                go(w); low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop(); on.discard(w); c.append(w)
                if w == v:
                    break
            out.append(sorted(c))
    for v in sorted(nodes):
        if v not in index:
            go(v)
    return out


def infer(prog, names, contracts, gs, cls=Owner):
    """contracts of mutually recursive helpers: the ones their bodies satisfy (which arguments they take over)"""
    fns = [prog.functions[n] for n in names]
    best = None
    for ret in ("own", "own0", "b"):
        if ret != "own" and not any(f.ty.startswith("ptr") for f in fns):
            break
        args = {f.name: ["b" if p[2] == "ptr" else "-" for p in f.params] for f in fns}
        for _ in range(sum(len(f.params) for f in fns) + 1):
            for f in fns:
                contracts[f.name] = C("".join(args[f.name]), ret if f.ty.startswith("ptr") else "-", "eval")
            res = {f.name: analyse(prog, f, contracts, contracts[f.name], gs, cls) for f in fns}
            n = sum(1 for pl in res.values() for x in pl.found.values() if x.prop == "C01")
            if best is None or n < best[0]:
                best = (n, {f.name: contracts[f.name] for f in fns}, res)
            if n == 0:
                return best[1], best[2]
            flip = [(f.name, i) for f in fns for i in range(len(f.params))
                    if args[f.name][i] == "b" and min(res[f.name].finals.get(i, {0})) < 0]
            if not flip:
                break
            for nm, i in flip:
                args[nm][i] = "c"
    contracts.update(best[1])
    return best[1], best[2]


# Decided by other properties' rules: the counting primitives and the allocator (C14), the tree's own link surgery (C17).
ELSEWHERE = {"lisp_deallocate", "lisp_allocate", "lisp_incref", "lisp_decref", "slab_new", "slab_delete", "slab_allocate",
             "slab_deallocate", "lisp_tree_new", "lisp_tree_lrot", "lisp_tree_rrot", "lisp_tree_rem", "lisp_tree_add"}


def contract_of(f):
    if f.name in API:
        return API[f.name]
    if f.name == "main":
        return C("-" * len(f.params))
    if f.taken and INDIRECT.get(f.ty):
        return INDIRECT[f.ty]
    return None


def run(group, config="debug", cls=Owner):
    """(results, undecided): name -> Owner plugin after the run; names whose analysis gave up"""
    prog = front.program(group, KEEP, config)
    gs = gslots(prog)
    cons, res, und = {}, {}, {}
    hs = helpers(prog, group)
    for comp in sccs(hs, lambda v: sorted({x.callee for x in prog.functions[v].calls() if x.callee in hs})):
        if comp[0].startswith(("Parse", "yy")):
            continue
        try:
            _, r = infer(prog, comp, cons, gs, cls)
        except Giveup as ex:
            for n in comp:
                und[n] = str(ex)
            continue
        res.update({n: pl for n, pl in r.items() if front.own(group, prog.functions[n])})
    for f in prog.functions.values():
        if not front.own(group, f) or f.name in res or f.name in ELSEWHERE or f.name in und or f.name.startswith(("Parse", "yy")):
            continue
        ct = contract_of(f)
        try:
            if ct is not None:
                res[f.name] = analyse(prog, f, cons, ct, gs, cls)
            elif f.ncall and not f.rec and f.name not in KEEP:
                continue            # analysed in place, inside each of its callers
            else:
                _, r = infer(prog, [f.name], cons, gs, cls)
                res.update(r)
        except Giveup as ex:
            und[f.name] = str(ex)
    return prog, res, und
