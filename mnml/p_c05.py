"""C05: values that are shared are never changed in place.

Freshness typestate on the states of the ownership analysis: a list is fresh when every cell of its spine was made, or
copied, by the operation at hand and nothing else holds it. Which results are fresh, provided which arguments are, and which
arguments must be, is inferred over all functions to a fixpoint; values of the grammar's symbols likewise over its rules."""
from . import absint, front, owner, reader, sem
from .absint import NULL, State, addr
from .contracts import API, C, NIL, PAIR
from .owner import Owner
from .p_c01 import GROUPS
from .report import Finding, Outcome

ATOMIC = {"lisp_make_nil", "lisp_make_true", "lisp_make_char", "lisp_make_number", "lisp_make_symbol", "lisp_make_wildcard", "lisp_make_quote",
          "lisp_make_symbol_from_string"}
# changing links of the tree: its own cells, reached through the interpreter's fields only (C11, C17)
TREE = {"lisp_tree_add": {1}, "lisp_tree_upd": {1}, "lisp_tree_rem": {1}, "lisp_tree_lrot": {0}, "lisp_tree_rrot": {0}}
# forms that change a value in place by definition
DESTRUCTIVE = {"conc", "<-", "setq", "def"}
ENV = 1             # the environment of a primitive


class Sum:
    """what is known of a function: ret/car = arguments the result (its first element) is fresh with, None when it is not; need = arguments
    it changes in place"""

    def __init__(self):
        self.ret, self.car, self.need = frozenset(), frozenset(), {}

    def key(self):
        return self.ret, self.car, frozenset(self.need)


class Fresh(Owner):
    sums = {}           # name -> Sum
    tree = {}
    symbols = None      # grammar rules: parameter -> fresh?

    def __init__(self, prog, contracts, fn, contract, gs):
        super().__init__(prog, contracts, fn, contract, gs)
        self.sum, self.bad, self.ops, self.stores, self.unsure = Sum(), {}, 0, 0, 0
        self.returned = False

    def sumof(self, nm):
        if nm not in Fresh.sums:
            Fresh.sums[nm] = Sum()
        return Fresh.sums[nm]

    def complain(self, rule, x, subject, text):
        f = Finding("C05", rule, "%s (%s)" % (self.fn.name.split(".")[0], self.fn.relfile()), x.loc(), subject, text)
        self.bad.setdefault(f.key(), f)

    # -- freshness -------------------------------------------------------------
    def spine(self, st, v, seen=(), cell=False):
        """arguments on which the freshness of the list v depends; None: something else may hold it; 'own': the interpreter's own list"""
        ad = addr(v)
        if v == NULL:
            return frozenset()
        if not ad or ad[1] != 0 or ad[0] in seen:
            return None
        r = ad[0]
        if PAIR not in st.types(r) and not cell:
            return frozenset()      # not a list
        if ("fr", r) in st.x:
            return st.x[("fr", r)]
        if st.x.get(("fresh", r)):
            return self.spine(st, st.mem.get((r, self.K["CDR"], "ptr"), ("undef",)), seen + (r,))
        if r[0] == "arg":
            return frozenset([r[1]])
        o = st.org.get(r)
        if o:
            K = self.K
            if o[2] == "lisp" or o[0][0] == "g" and o[0][1] in self.gslots:
                return frozenset(["own"])
            if o[1] == K["CDR"]:
                return self.spine(st, o[0], seen + (r,))
            if o[1] == K["CAR"]:
                return self.first(st, o[0], seen + (r,))
        return None

    def first(self, st, v, seen=()):
        """the same for the list that is the first element of v"""
        ad = addr(v)
        if not ad or ad[1] != 0:
            return None
        r = ad[0]
        if ("cf", r) in st.x:
            return st.x[("cf", r)]
        w = st.mem.get((r, self.K["CAR"], "ptr"))
        if w is not None and addr(w) and addr(w)[0] not in seen and st.x.get(("fresh", r)):
            return self.spine(st, w, seen + (r,))
        # channels and the tree of globals hang from the interpreter, and only from there
        if self.spine(st, r, seen) == frozenset(["own"]):
            return frozenset(["own"])
        return None

    def shared(self, st, v):
        """is the value also held by someone else, as far as this function did it?"""
        ad = addr(v)
        if not ad or v == NULL or PAIR not in st.types(ad[0]):
            return None
        r = ad[0]
        if st.own.get(r, 0) > 1:
            return "it is referenced a second time"
        if st.x.get(("kept", r)) and not self.dropped(st, r):
            return "it has been made part of another value"
        return None

    def dropped(self, st, r):
        return False

    def op(self, e, st, x, v, what):
        """v is changed in place"""
        self.ops += 1
        d = self.spine(st, v)
        a = addr(v)
        if d is None:
            self.complain("shared", x, what, "%s changes %s in place, which something else may hold" % (what, self.describe(st, a[0]) if a else "a value"))
            return
        if "own" in d:
            return
        w = self.shared(st, v)
        if w:
            self.complain("shared", x, what, "%s changes %s in place, but %s" % (what, self.describe(st, a[0]), w))
            return
        for i in d:
            self.require(x, i, what)

    def require(self, x, i, what):
        if self.symbols is not None:
            if not self.symbols.get(i, True):
                self.complain("shared", x, what, "%s changes the value of '%s' in place, which something else may hold" % (what, self.fn.params[i][1]))
            return
        k = self.ct.args[i] if i < len(self.ct.args) else "-"
        if self.fn.taken and API.get(self.fn.name) is None or self.lent and k == "b" and self.fn.name not in TREE:
            self.complain("shared", x, what, "%s changes '%s' in place, which the caller only lends" % (what, self.fn.params[i][1]))
            return
        self.sum.need.setdefault(i, "%s (%s)" % (what, x.loc()))

    @property
    def lent(self):
        return self.fn.name in API

    # -- hooks -------------------------------------------------------------------
    def store(self, e, st, x, root, off, cl, v):
        K = self.K
        if cl in ("pair", "atom") and root[0] not in ("al", "g") and off in (K["CAR"], K["CDR"], K["TYPE"]) and not st.x.get(("fresh", root)):
            self.stores += 1
            self.place(e, st, x, root, off)
        super().store(e, st, x, root, off, cl, v)

    def place(self, e, st, x, root, off):
        if self.fn.name in TREE:
            return
        what = "the store to the %s" % {self.K["CAR"]: "content", self.K["CDR"]: "tail", self.K["TYPE"]: "kind"}[off]
        d = self.spine(st, root, cell=True)
        if d is None:
            if st.org.get(root) is None and root[0] == "v" and (self.fn.defs.get(root[1]) is None or self.fn.defs[root[1]].o != "call"):
                self.unsure += 1
                return
            self.complain("store", x, what, "%s of %s changes a value something else may hold" % (what, self.describe(st, root)))
            return
        if "own" in d:
            return
        for i in d:
            self.require(x, i, what)

    def call(self, e, st, x):
        nm = x.callee
        args = [e.val(st, a) for a in x.a]
        s = None
        if nm in API or nm in self.cons:
            s = self.sumof(nm)
            for i, why in sorted(s.need.items()):
                if i < len(args):
                    self.op(e, st, x, args[i], nm)
        ret = car = None
        if nm in ATOMIC:
            ret = frozenset()
        elif nm == "lisp_cons" and len(args) > 2:
            ret = self.spine(st, args[2])
            if ret is not None and self.shared(st, args[2]):
                ret = None
            car = self.spine(st, args[1])
            if car is not None and self.shared(st, args[1]):
                car = None
        elif s is not None and nm not in ("lisp_car", "lisp_cdr"):
            ret, car = s.ret, s.car
            got = []
            for t in (ret, car):
                acc = frozenset()
                for i in t if t is not None else ():
                    d = self.spine(st, args[i]) if i < len(args) else None
                    if d is None or "own" not in d and self.shared(st, args[i]):
                        acc = None
                        break
                    acc |= d
                got.append(acc if t is not None else None)
            ret, car = got
        out = super().call(e, st, x)
        if x.t == "void" or nm in ("lisp_incref", "lisp_decref", "lisp_car", "lisp_cdr"):
            return out
        for y in out or ():
            t = y.env.get(x.i)
            if t == ("v", x.i):
                if ret is not None:
                    y.x[("fr", t)] = ret
                if car is not None:
                    y.x[("cf", t)] = car
        return out

    def ret(self, e, st, x):
        if x.a and self.ct.ret in ("own", "own0"):
            v = e.val(st, x.a[0])
            self.give(st, v)
        super().ret(e, st, x)

    def give(self, st, v):
        s = self.sum
        a = addr(v)
        d = self.spine(st, v)
        if d is not None and v != NULL and PAIR in st.types(a[0]):
            if self.shared(st, v) or a[0][0] == "arg" and self.ct.args[a[0][1]:a[0][1] + 1] == "b":
                d = None
        if d is not None and "own" in d:
            d = None
        s.ret = None if d is None or s.ret is None else s.ret | d
        if v == NULL or a and PAIR not in st.types(a[0]):
            return
        c = self.first(st, v) if a else None
        if c is not None and "own" in c:
            c = None
        s.car = None if c is None or s.car is None else s.car | c


def fixpoint(jobs, out, cap=12):
    """jobs: name -> function that analyses and returns the plugin; repeats until what is known of the functions stands"""
    last = {}
    todo = set(jobs)
    for n in range(cap):
        changed = set()
        for nm in sorted(todo):
            old = Fresh.sums[nm].key() if nm in Fresh.sums else Sum().key()
            pl = jobs[nm]()
            if pl is None:
                continue
            last[nm] = pl
            if nm in FIXED:
                continue
            Fresh.sums[nm] = pl.sum
            if pl.sum.key() != old:
                changed.add(nm)
        if not changed:
            return last
        todo = {j for j in jobs if CALLS.get(j, set()) & changed}
    raise front.Broken("freshness does not settle")


FIXED = {}
CALLS = {}


def fixed():
    def mk(ret, need, car=None):
        s = Sum()
        s.ret, s.car, s.need = (None if ret is None else frozenset(ret)), car, {i: "by definition" for i in need}
        return s
    FIXED.clear()
    FIXED.update({n: mk(None, need) for n, need in TREE.items()})
    FIXED["lisp_conc"] = mk((1, 2), (1,))
    FIXED["lisp_sss"] = mk((1,), (1,))
    FIXED["lisp_tree_add"] = mk((1,), (1,))
    FIXED["lisp_eval"] = mk(None, ())
    FIXED["lisp_read"] = mk(None, ())
    FIXED["Parse"] = mk(None, ())
    FIXED["lexer_parse"] = mk(None, ())
    Fresh.sums = dict(FIXED)


def group(g, cfg, out, names):
    prog = front.program(g, owner.KEEP, cfg)
    gs = owner.gslots(prog)
    cons, und = {}, {}
    hs = owner.helpers(prog, g)
    jobs = {}
    for comp in owner.sccs(hs, lambda v: sorted({x.callee for x in prog.functions[v].calls() if x.callee in hs})):
        if comp[0].startswith(("Parse", "yy")):
            continue
        try:
            owner.infer(prog, comp, cons, gs)
        except absint.Giveup as ex:
            out.undecided.update({"%s (%s)" % (n, cfg): str(ex) for n in comp})

    def job(f, ct):
        def go():
            try:
                return owner.analyse(prog, f, cons, ct, gs, Fresh)
            except absint.Giveup as ex:
                out.undecided["%s (%s)" % (f.name, cfg)] = str(ex)
                return None
        return go
    for n, f in prog.functions.items():
        if not front.own(g, f) or n in owner.ELSEWHERE or n.startswith(("Parse", "yy")):
            continue
        ct = owner.contract_of(f) or cons.get(n)
        if ct is None:
            if f.ncall and not f.rec and n not in owner.KEEP:
                continue
            ct = C("".join("b" if p[2] == "ptr" else "-" for p in f.params), "own" if f.ty.startswith("ptr") else "-", "eval")
        jobs[n] = job(f, ct)
        CALLS[n] = {x.callee for x in f.calls() if x.callee}
    # helpers of this group have no summary yet
    for n in jobs:
        if n not in FIXED:
            Fresh.sums.pop(n, None)
    return prog, fixpoint(jobs, out)


def collect(g, cfg, out):
    prog, res = group(g, cfg, out, None)
    named = {}
    if g in front.modules():
        for n in sem.natives(g, cfg)[1]:
            named[n.fn] = n.name
    for n, pl in sorted(res.items()):
        out.count("functions analysed")
        out.count("operations that change a list in place", pl.ops)
        out.count("stores into existing cells", pl.stores)
        if pl.unsure:
            out.undecided["%s (%s)" % (n, cfg)] = "stores into a cell of unknown origin"
        if pl.ops and len(out.samples) < 40:
            out.sample("%s: %d in-place operations; changes %s; result %s" % (n, pl.ops, sorted(pl.sum.need) or "nothing of its caller's",
                       "not fresh" if pl.sum.ret is None else "fresh with %s" % sorted(pl.sum.ret) if pl.sum.ret else "fresh"), 40)
        if named.get(n) in DESTRUCTIVE:
            out.count("destructive by definition", len(pl.bad))
            continue
        for f in pl.bad.values():
            out.add(f)


def grammar(cfg, out):
    """every rule under what is known of the symbols on its right"""
    R, types, inc = reader.rules()
    src = inc + "\n#include <mnml/lexer.h>\n#include <mnml/slab.h>\n#include <string.h>\n"
    ty = lambda s: types.get(s, types.get(None, "void*")) if not s[0].isupper() else types.get(None, "void*")
    for n, (left, lv, rhs, code) in enumerate(R):
        lt = types.get(left)
        src += "\n%s rule_%d(%s)\n{\n" % (lt or "void", n, ", ".join(["lexer_t lexer"] + ["%s %s" % (ty(s), v or "unnamed_%d" % k) for k, (s, v) in enumerate(rhs)]))
        src += ("%s %s;\n%s\nreturn %s;\n}\n" % (lt, lv, code, lv)) if lt and lv else ("%s\nreturn 0;\n}\n" % code) if lt else ("%s\n}\n" % code)
    prog = reader.unit("rules", src, keep=owner.KEEP, config=cfg)
    gs = owner.gslots(prog)
    known = {left: True for left, _, _, _ in R}
    cause = {}
    atoms = {s for s, t in types.items() if t.startswith("atom")}
    for _ in range(12):
        now, found = dict(known), {}
        for n, (left, lv, rhs, code) in enumerate(R):
            f = prog.functions["rule_%d" % n]
            args = "-" + "".join("c" if ty(s).startswith("atom") and v else "b" if ty(s).startswith("atom") else "-" for s, v in rhs)
            pl = Fresh(prog, {}, f, C(args, "own" if types.get(left) else "-", "eval"), gs)
            pl.symbols = {k + 1: known.get(s, False) for k, (s, v) in enumerate(rhs)}
            st = State()
            for i, k in enumerate(args):
                if k == "c":
                    st.add(("arg", i), 1)
            try:
                absint.Engine(f, pl).run(st)
            except absint.Giveup as ex:
                out.undecided["rule %s ::= %s" % (left, " ".join(s for s, _ in rhs))] = str(ex)
                continue
            found[n] = pl
            d = pl.sum.ret
            if left in atoms and (d is None or any(not known.get(rhs[i - 1][0], False) for i in d if i > 0)):
                now[left] = False
                cause.setdefault(left, "%s ::= %s" % (left, " ".join(s for s, _ in rhs)))
        if now == known:
            break
        known = now
    for n, pl in found.items():
        left, lv, rhs, code = R[n]
        out.count("grammar rules analysed")
        out.count("operations that change a list in place", pl.ops)
        for f in pl.bad.values():
            out.add("C05", f.rule, "rule %s ::= %s" % (left, " ".join(s for s, _ in rhs)), "lib/grammar/parser.y", f.subject,
                    f.text + "".join(" (%s: by rule %s)" % (s, cause[s]) for s in dict.fromkeys(s for s, _ in rhs) if s in cause and s in f.text or s in cause and s == left))
    out.sample("grammar symbols whose list nothing else holds: %s" % ", ".join(sorted(s for s in atoms if known.get(s))))


def run(tier):
    out = Outcome("Freshness typestate on the states of the ownership analysis, over every function and every grammar rule: whatever changes a list in "
                  "place (joining, appending, inserting a binding, storing into an existing cell) does so only on a list all of whose cells were made or "
                  "copied by the operation at hand and that nothing else holds. Which results are fresh given which arguments, and which arguments are changed, "
                  "is inferred over all functions to a fixpoint.",
                  ["the symbol tree and the channel lists are reached through the interpreter's fields only", "a value lent to program code is not kept by it unless copied",
                   "marks (flags) on program text are not values"])
    for cfg in ["debug-nosse"] if tier == "quick" else ["debug", "debug-nosse", "release", "release-nosse"]:
        fixed()
        for g in [g for g in GROUPS if g in ("core", "grammar", "bin", "stubs")] + front.modules():
            collect(g, cfg, out)
        grammar(cfg, out)
    out.need("functions analysed", 200)
    out.need("operations that change a list in place", 10)
    return out
