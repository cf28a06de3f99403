"""What values are made of: the ownership interpreter extended with the defining call of every value."""
from . import absint, front
from .absint import NULL, UNDEF, addr, State
from .contracts import API, C, KEEP, NIL, PAIR, TRUE, CHAR, NUMBER, SYMBOL, WILD
from .owner import Owner, gslots


class Sem(Owner):
    """Adds: st.x[("def", v)] = (callee, args) for each call result, st.x[("str", buffer)] = text copied into a buffer."""

    def __init__(self, prog, contracts, fn, contract, gs, **kw):
        super().__init__(prog, contracts, fn, contract, gs)
        self.rets = []
        self.kw = kw

    # hooks for subclasses
    def event(self, e, st, x, nm, args):
        return None

    def atret(self, e, st, x, v):
        pass

    def string_of(self, st, v):
        ad = addr(v)
        if ad and ad[0][0] == "g":
            s = self.prog.string(["go", ["g", ad[0][1]], ad[1]])
            return s
        if ad and ad[1] == 0:
            return st.x.get(("str", ad[0]))
        return None

    def call(self, e, st, x):
        nm = x.callee
        args = [e.val(st, a) for a in x.a]
        r = self.event(e, st, x, nm, args)
        if r is not None:
            return r
        if nm in ("strncpy", "strcpy") and addr(args[0]):
            s = self.string_of(st, args[1])
            n = args[2][1] if nm == "strncpy" and args[2][0] == "i" else (len(s) if s is not None and nm == "strcpy" else None)
            k = ("str", addr(args[0])[0])
            if s is not None and n is not None and addr(args[0])[1] == 0:
                st.x[k] = s[:n]
            else:
                st.x.pop(k, None)
            st.env[x.i] = args[0]
            return [st]
        defn = None
        if nm in ("lisp_make_symbol",):
            t = self.string_of(st, args[1])
            defn = ("symbol", t) if t is not None else (nm,) + tuple(args)
        elif nm == "lisp_make_symbol_from_string":
            t = self.string_of(st, args[1])
            defn = ("symbol", t[:16]) if t is not None and args[2] == ("i", len(t)) else (nm,) + tuple(args)
        elif nm is not None:
            defn = (nm,) + tuple(args)
        before = st.env.get(x.i)
        out = super().call(e, st, x)
        for s in out:
            t = s.env.get(x.i)
            if t == ("v", x.i) and defn is not None and nm not in ("lisp_incref", "lisp_decref"):
                # arguments after renaming of older generations
                d = defn if defn[0] == "symbol" else (nm,) + tuple(e.val(s, a) if e.val(s, a) != t else UNDEF for a in x.a)
                s.x[("def", t)] = d
        return out

    def term(self, st, v, depth=0):
        """structure of a value as far as it is known"""
        if depth > 12:
            return ("...",)
        if v[0] in ("i", "null", "undef"):
            return v
        ad = addr(v)
        if not ad:
            return tuple(self.term(st, w, depth + 1) if isinstance(w, tuple) else w for w in v)
        r, off = ad
        if off:
            return ("at", self.term(st, r, depth + 1), off)
        if r[0] == "g":
            return r
        K = self.K
        a, d = st.mem.get((r, K["CAR"], "ptr")), st.mem.get((r, K["CDR"], "ptr"))
        df = st.x.get(("def", r))
        if df and df[0] == "symbol":
            return ("sym", df[1])
        if df and df[0] == "lisp_make_nil":
            return ("nil",)
        if df and df[0] == "lisp_make_true":
            return ("true",)
        if df and df[0] == "lisp_cons" and a is not None and d is not None:
            return ("cons", self.term(st, a, depth + 1), self.term(st, d, depth + 1))
        if df:
            return (df[0],) + tuple(self.term(st, w, depth + 1) for w in df[1:])
        if r[0] == "arg":
            return r
        o = st.org.get(r)
        if o:
            return (self.field(o[1], o[2]), self.term(st, o[0], depth + 1))
        return ("?", r[1] if len(r) > 1 else 0)

    def ret(self, e, st, x):
        v = e.val(st, x.a[0]) if x.a else None
        self.atret(e, st, x, v)
        super().ret(e, st, x)


def run(prog, fn, contract, cls=Sem, contracts=None, init=None, attrs=None, **kw):
    pl = cls(prog, contracts if contracts is not None else {}, fn, contract, gslots(prog), **kw)
    pl.__dict__.update(attrs or {})
    st = State()
    for i, k in enumerate(contract.args):
        if k == "c":
            st.add(("arg", i), 1)
    if init:
        init(pl, st)
    e = absint.Engine(fn, pl)
    e.run(st)
    pl.states = e.visits
    return pl


class LoadSem(Sem):
    """the function a module entry registers: symbol, parameters, native function"""
    reg = None

    def event(self, e, st, x, nm, args):
        if nm == "lisp_setq":
            self.reg = self.term(st, args[2]) if self.reg is None else "several"
        return None

    def atret(self, e, st, x, v):
        self.rets.append(self.term(st, v))


class Native:
    def __init__(self, group, namefn, loadfn):
        self.group, self.namefn, self.loadfn = group, namefn, loadfn
        self.name = self.symbol = self.fn = None
        self.params, self.rest = [], None
        self.err = None


def entries(prog):
    """(table rows, terminated): what lisp_module_entries hands out"""
    f = prog.functions.get("lisp_module_entries")
    if f is None:
        raise front.Broken("%s: no lisp_module_entries" % prog.group)
    rets = [x for x in f.insts() if x.o == "ret"]
    g = None
    for x in rets:
        o = x.a[0]
        while o[0] == "go" and o[2] == 0:
            o = o[1]
        if o[0] == "g":
            g = o[1]
    if g is None or g not in prog.globals:
        raise front.Broken("%s: module table not found" % prog.group)
    init = prog.globals[g]["init"]
    rows, end = [], False
    for r in init["e"]:
        if r == ["z"] or (isinstance(r, dict) and r["e"][0] in (["n"], ["z"])):
            end = True
            break
        rows.append((r["e"][0][1] if r["e"][0][0] == "g" else None, r["e"][1][1] if r["e"][1][0] == "g" else None))
    return g, rows, end


_nat = {}


def natives(group, config="debug"):
    """every primitive of a module, from its table"""
    if (group, config) in _nat:
        return _nat[(group, config)]
    prog = front.program(group, KEEP, config)
    g, rows, end = entries(prog)
    out = []
    for nf, lf in rows:
        n = Native(group, nf, lf)
        out.append(n)
        f = prog.functions.get(nf)
        if f is not None:
            for x in f.insts():
                if x.o == "ret":
                    n.name = prog.string(x.a[0])
        f = prog.functions.get(lf)
        if f is None:
            n.err = "no load function"
            continue
        pl = run(prog, f, C("-", "own", "eval"), LoadSem)
        t = pl.reg
        n.ret = pl.rets
        n.loc = "%s:%d" % (f.relfile(), f.line)
        # ((sym . (args . (clos . number))))
        if not (isinstance(t, tuple) and t[0] == "cons" and t[1][0] == "sym" and t[2][0] == "cons" and t[2][2][0] == "cons"):
            n.err = "registers %s" % (t,)
            continue
        n.symbol = t[1][1]
        a = t[2][1]
        while a[0] == "cons":
            n.params.append(a[1][1] if a[1][0] == "sym" else "?")
            a = a[2]
        n.rest = a[1] if a[0] == "sym" else None
        n.clos = t[2][2][1]
        num = t[2][2][2]
        if num[0] == "lisp_make_number" and num[2][0] == "g":
            n.fn = num[2][1]
        else:
            n.err = "body %s" % (num,)
        n.f = prog.functions.get(n.fn)
    _nat[(group, config)] = (prog, out, g, end)
    return _nat[(group, config)]
