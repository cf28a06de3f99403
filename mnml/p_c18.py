"""C18: an error in a program does not end the interpreter.

Path-sensitive effect analysis of every function from which an operation that ends the process is reached (helpers
followed), with the few permitted ones recognised by what the path knows; divisions by numbers a program supplies; the
signals the interpreter must ignore; the loops that read a program. Crashes through a missing result or through a value of
another kind are taken over from the analyses of C19 and C20."""
from . import absint, front, p_c19, p_c20, res, sem
from .absint import Engine, Giveup, NULL, State, addr, roots_of
from .contracts import API, KEEP
from .p_c01 import GROUPS
from .report import Finding, Outcome

ENDS = {"exit", "_exit", "_Exit", "quick_exit", "abort", "__assert_fail", "__assert_perror_fail", "err", "errx", "verr", "verrx", "longjmp", "_longjmp",
        "siglongjmp", "__longjmp_chk", "llvm.trap", "llvm.ubsantrap", "__fortify_fail", "__chk_fail", "pthread_exit", "thrd_exit", "error_at_line"}
SIGNAL = {"raise": 0, "kill": 1, "killpg": 1, "pthread_kill": 1, "tgkill": 2, "sigqueue": 1}
CLOCK = {"alarm", "setitimer", "ualarm", "timer_create"}
EXEC = {"execve", "execv", "execvp", "execvpe", "execl", "execlp", "execle", "fexecve", "execveat"}
SIGPIPE = 13
RUN = {"lisp_eval", "lisp_prog", "lisp_load_file", "module_load_defaults", "lisp_read"}
DIV = ("sdiv", "srem", "udiv", "urem")
POISON = {0xA0A0A0A0, 0xA0A0A0A0 - (1 << 32), -1600085856}


class Ends(p_c19.Null):
    def __init__(self, prog, fn, native):
        super().__init__(prog, fn)
        self.native = native
        self.divides = any(x.o in DIV for x in fn.insts())
        self.ends, self.divs, self.reads, self.allowed, self.odd, self.odds = {}, {}, {}, {}, {}, {}

    def report(self, rule, x, subject, text):
        if rule == "untested":
            return
        f = Finding("C18", rule, "%s (%s)" % (self.fn.name.split(".")[0], self.top.relfile()), x.loc(), subject, text)
        self.found.setdefault(f.key(), f)

    def use(self, st, x, v, how):
        pass

    def factkey(self, st):
        if not self.divides:
            return ()
        return tuple(sorted(((k, v if not isinstance(v, frozenset) else tuple(sorted(v))) for k, v in st.facts.items()
                             if k[0] in ("eq", "ne", "rng") and any(self.field(st, t, "NUMBER") for t in self.inside(k[1]))), key=repr))

    # -- ending the process -------------------------------------------------
    def permitted(self, e, st, x, nm):
        """the reason why the path may end the process here, or None"""
        if self.native == "quit":
            return "quit"
        if st.x.get("exec"):
            return "failed exec"
        for k, v in st.facts.items():
            if k[0] == "eq" and self.field(st, k[1], "S_FIRST") and self.endmark(v):
                return "cell memory exhausted"
            if k[0] == "eq" and self.field(st, k[1], "REFS") and v in POISON:
                return "internal consistency check"
        if st.x.get("expand"):
            return "cell memory exhausted"
        for k, v in st.facts.items():
            if k[0] == "ty" and frozenset(v) <= {0}:
                return "internal consistency check"     # a cell of no kind
        m = st.x.get("mismatch")
        if m is not None and self.config.startswith("debug"):
            if m[0] == "match" and self.false(st, m[1]) or m[0] == "memcmp" and (0 in st.facts.get(("ne", m[1]), ()) or st.facts.get(("eq", m[1]), 0) != 0):
                return "internal consistency check"
        return None

    def argname(self, st, v):
        """is this the name of an element of the list of arguments a primitive was given?"""
        a = addr(v)
        if not a:
            return False
        r, p = a[0], []
        while r in st.org and r[0] == "v" and len(p) < 16:
            o = st.org[r]
            p.append(o[1])
            r = o[0]
        A, D = self.K["CAR"], self.K["CDR"]
        return r[0] == "arg" and p[:2] == [A, A] and all(y == D for y in p[2:])

    def false(self, st, v):
        if v[0] == "i":
            return v[1] == 0
        if st.facts.get(("eq", v)) == 0 or st.facts.get(("b", v)) is False:
            return True
        for k, w in st.facts.items():
            # the result narrowed to a bit and tested
            if k[0] in ("eq", "b") and v in roots_of(k[1], set()) and k[1][0] in ("tr", "bin", "zext") and w in (0, False):
                return True
        return False

    def field(self, st, t, name):
        o = st.org.get(t)
        return bool(o) and o[1] == self.K.get(name, -1)

    def endmark(self, v):
        return v in (0xFFFFFFFF, -1, 0xFFFFFFFFFFFFFFFF) or v == self.K.get("END_MK")

    def ending(self, e, st, x, nm):
        why = self.permitted(e, st, x, nm)
        self.ends[(x.f, x.l, nm)] = why
        if why is None:
            if nm.startswith("__assert") and not self.native:
                if "grammar/" in x.loc() or "parser.c" in self.top.relfile():
                    return  # lempar.c's own
                self.odd["%s at %s" % (nm, x.loc())] = "an assertion outside the primitives is not judged"
                return
            if self.top.name == "main" and not st.x.get("ran"):
                return
            if self.top.name.startswith("slab_"):
                self.report("ends", x, nm, "%s ends the process on a path where the cell memory is not known to be exhausted" % nm)
                return
            self.report("ends", x, nm, "%s ends the process" % nm)

    def stop(self, e, st, x):
        # a path that ends in a call of another function that does not return
        b = [y for bl in self.fn.blocks for y in bl.insts if True] if False else None
        last = getattr(e, "lastcall", None)
        if last is not None and last.callee and last.callee not in ENDS and last.callee not in SIGNAL and last.callee not in EXEC:
            self.odd["%s at %s" % (last.callee, last.loc())] = "a call that does not return, of unknown effect"

    # -- calls ---------------------------------------------------------------
    def call(self, e, st, x):
        nm = x.callee
        if nm and not nm.startswith("llvm.dbg"):
            e.lastcall = x
        if nm in ENDS:
            self.ending(e, st, x, nm)
            return [] if nm != "longjmp" else []
        args = [e.val(st, a) for a in x.a]
        if nm in SIGNAL and not (args[SIGNAL[nm]] == ("i", 0)):
            self.ending(e, st, x, nm)
        if nm in CLOCK and not (nm == "alarm" and args[0] == ("i", 0)):
            self.ending(e, st, x, nm)
        if nm in EXEC:
            st.x["exec"] = True
        if nm in ("mprotect", "mmap", "mremap", "brk", "sbrk") and self.top.name.startswith("slab_"):
            st.x["expand"] = True
        if nm in ("signal", "sigaction", "bsd_signal", "sysv_signal", "__sysv_signal") and args[0] == ("i", SIGPIPE):
            self.sigpipe(e, st, x, nm, args)
        if nm in ("sigprocmask", "pthread_sigmask"):
            st.x["pipe"] = "unknown"
        out = super().call(e, st, x)
        f = self.inner(nm)
        if f is not None and nm in self.relevant and e.depth < self.LIMIT:
            return out
        for s in out or [st]:
            if nm in ("lisp_symbol_match", "memcmp", "bcmp", "strncmp") and x.i in s.env and any(self.argname(st, a) for a in args[:2]):
                s.x["mismatch"] = ("match" if nm == "lisp_symbol_match" else "memcmp", s.env[x.i])
            if nm == "lisp_read" and x.i in s.env:
                if not self.cyclic(self.fn, x):
                    continue
                s.x["rd"] = s.env[x.i]
                s.x.pop("halt", None)
                self.reads[(x.f, x.l)] = True
            if nm in RUN:
                if self.top.name == "main" and nm != "module_load_defaults" and s.x.get("pipe") not in ("ignored", "unknown") and not s.x.get("ran"):
                    self.report("sigpipe", x, "SIGPIPE", "programs are run without the signal of a broken pipe being ignored: writing to a closed "
                                "connection ends the interpreter")
                s.x["ran"] = True
        return out

    def sigpipe(self, e, st, x, nm, args):
        if nm == "sigaction":
            st.x["pipe"] = "unknown"
            return
        h = args[1]
        h = h[1] if h[0] == "i" else 0 if h == NULL else 1 if self.ignore(h) else h
        if h == 1 or not isinstance(h, int):
            st.x["pipe"] = "ignored"
        else:
            st.x["pipe"] = "default"
            self.report("sigpipe", x, "SIGPIPE", "the signal of a broken pipe is given its default effect, which ends the interpreter")

    def ignore(self, v):
        return addr(v) == (("null",), 1) or v in (("ptr", 1), ("inttoptr", 1)) or "1" in repr(v) and v[0] not in ("g",)

    def cyclic(self, f, x):
        """is the instruction part of a loop?"""
        k = ("cyclic", f.name, x.blk)
        if k not in self.odds:
            nxt = {i: list(b[-1].s or ()) for i, b in enumerate(f.blocks)}
            todo, seen = list(nxt[x.blk]), set()
            while todo:
                b = todo.pop()
                if b not in seen:
                    seen.add(b)
                    todo += nxt[b]
            self.odds[k] = x.blk in seen
        return self.odds[k]

    # -- reading loops --------------------------------------------------------
    def load(self, e, st, x, root, off, cl):
        if root[0] == "g" and root[1].split(".")[0] == "keep_running" and e.depth >= 0:
            v = e.mk(st, x)
            st.x["halt"] = v
            return v
        return None

    def store(self, e, st, x, root, off, cl, v):
        if root[0] == "g" and root[1].split(".")[0] == "keep_running" and v[0] == "i" and v[1] == 0 and self.fn.name not in self.handlers and self.top.name not in self.handlers:
            self.report("stopped", x, "keep_running", "the interpreter is told to stop outside its signal handler")

    def finish(self, e, st, x):
        t = st.x.get("rd")
        if t is None:
            return
        if t == NULL or st.facts.get(("eq", t)) == 0:
            return
        h = st.x.get("halt")
        if h is not None and (self.false(st, h) or h[0] == "i" and h[1] == 0):
            return
        if h is not None:
            for k, w in st.facts.items():
                if h in roots_of(k[1], set()) if isinstance(k[1], tuple) else False:
                    return
        if 0 in st.facts.get(("ne", t), ()) or self.known(st, t):
            self.report("reading", x, "lisp_read", "the program stops being read although the last expression read was not the end of the input")
        else:
            self.odd["%s: end of reading" % x.loc()] = "the last result of lisp_read is not known"

    def known(self, st, t):
        return st.x.get(("evald", t)) is not None

    # -- arithmetic -----------------------------------------------------------
    def arith(self, e, st, x, a, b):
        if x.o not in DIV or b[0] == "i" and b[1] not in (0, -1):
            return
        src = self.number(st, b)
        if src is None:
            return
        w = int(x.t[1:]) if x.t[1:].isdigit() else 64
        lo, hi = st.facts.get(("rng", b), (None, None))
        ne = set(st.facts.get(("ne", b), ()))
        eq = st.facts.get(("eq", b))
        def not_(n):
            return n in ne or eq is not None and eq != n or lo is not None and lo > n or hi is not None and hi < n
        self.divs[(x.f, x.l)] = True
        terms = [k for k, v in st.facts.items() if k[0] in ("b", "rng", "eq", "ne") and k[1] != b and isinstance(k[1], tuple) and b in self.inside(k[1])]
        if not not_(0):
            if terms:
                self.odd["%s: division" % x.loc()] = "the divisor is tested in a way that is not recognised"
            else:
                self.report("division", x, "divisor 0", "a number of the program is divided by without being known to be different from zero")
        if x.o in ("sdiv", "srem") and not not_(-1):
            mn = -(1 << (w - 1))
            alo, ahi = st.facts.get(("rng", a), (None, None))
            aeq = st.facts.get(("eq", a))
            if mn in st.facts.get(("ne", a), ()) or mn + (1 << w) in st.facts.get(("ne", a), ()) or alo is not None and alo > mn or aeq is not None and aeq != mn \
                    or a[0] == "i" and a[1] != mn:
                return
            if terms or [k for k in st.facts if k[0] in ("b", "rng") and isinstance(k[1], tuple) and a in self.inside(k[1])]:
                self.odd["%s: overflow" % x.loc()] = "the operands are tested in a way that is not recognised"
            else:
                self.report("division", x, "divisor -1", "a number of the program is divided by without being known to be different from -1: the smallest "
                            "number divided by it traps")

    def inside(self, t, acc=None):
        acc = set() if acc is None else acc
        if isinstance(t, tuple):
            acc.add(t)
            for y in t:
                self.inside(y, acc)
        return acc

    def number(self, st, b):
        """does the divisor come from the number field of a cell?"""
        for t in self.inside(b):
            o = st.org.get(t)
            if o and o[1] == self.K["NUMBER"] and o[0][0] not in ("al", "g"):
                return t
            if t[:1] == ("v",) and t in self.names and self.names[t] == "number":
                return t
        return ("i", b[1]) if b[0] == "i" else None

    def ret(self, e, st, x):
        if e.depth == 0:
            if self.top.name == "lisp_read":
                self.endofinput(e, st, x)
            self.finish(e, st, x)
        elif st.x.get("rd") is not None and self.fn.name.split(".")[0] in ("run",):
            self.finish(e, st, x)
        super().ret(e, st, x)

    def endofinput(self, e, st, x):
        pass


def analyse(prog, f, native, cfg, relevant):
    pl = Ends(prog, f, native)
    pl.handlers = handlers(prog)
    pl.top, pl.budget, pl.config, pl.relevant = f, 20000, cfg, relevant
    e = Engine(f, pl)
    e.run(State())
    return pl


def handlers(prog):
    """functions handed to signal and sigaction, and to nothing else"""
    if "handlers" not in prog.__dict__:
        yes, no = set(), set()
        for f in prog.functions.values():
            for x in f.insts():
                for a in x.a or ():
                    if a[0] == "g" and a[1] in prog.functions:
                        (yes if x.o == "call" and x.callee in ("signal", "sigaction", "bsd_signal", "__sysv_signal") or x.o == "store" and x.a[1][0] not in ("g", "go") else no).add(a[1])
        prog.handlers = yes - no
    return prog.handlers


def run(tier):
    out = Outcome("Path-sensitive effect analysis of every function that reaches an operation ending the process (%s, and signals sent to itself), a "
                  "division, or the reading of a program. A path may end the process only in quit, after a failed exec, when the cell memory is "
                  "exhausted, or in a debug build's consistency checks; a divisor supplied by the program is known to be neither 0 nor -1; SIGPIPE is "
                  "ignored before a program runs; the loops reading a program end only at the end of the input or on request. Crashes through "
                  "missing results and through values of another kind: the analyses of C19 and C20." % ", ".join(sorted(ENDS)),
                  ["stack exhaustion by unbounded recursion is not judged", "assertions outside the primitives are the internal consistency checks"])
    seen = set()
    for cfg in ("release-nosse", "debug-nosse"):
        for g in [x for x in GROUPS if x in ("core", "bin", "stubs", "grammar")] + front.modules():
            names = {}
            if g in front.modules():
                prog, nat = sem.natives(g, cfg)[:2]
                names = {n.fn: n.name for n in nat if n.fn}
            else:
                prog = front.program(g, KEEP, cfg)
            rel = res.closure(prog, ENDS | set(SIGNAL) | CLOCK | EXEC | {"lisp_read", "signal", "sigaction"})
            # functions that may hide behind an address are looked at by themselves
            div = {n for n, f in prog.functions.items() if any(x.o in DIV for x in f.insts())}
            div |= {n for n, f in prog.functions.items() if any(x.o == "store" and x.a[1][0] == "g" and x.a[1][1].split(".")[0] == "keep_running" for x in f.insts())}
            called = {x.callee for f in prog.functions.values() for x in f.insts() if x.o == "call" and x.callee}
            for n in sorted(rel | div):
                f = prog.functions[n]
                k = (f.relfile(), n, cfg)
                if k in seen or n in called and n not in API and n not in KEEP and not f.taken:
                    continue
                seen.add(k)
                try:
                    pl = analyse(prog, f, names.get(n), cfg, rel | div)
                except Giveup as ex:
                    out.undecided["%s (%s)" % (n, cfg)] = str(ex)
                    continue
                out.count("functions")
                out.count("places that end the process, permitted", sum(1 for w in pl.ends.values() if w))
                out.count("divisions by numbers of the program", len(pl.divs))
                out.count("loops reading a program", len(pl.reads))
                out.undecided.update(pl.odd)
                for x in pl.found.values():
                    out.add(x)
                what = ["%s at line %s: %s" % (c, l, w) for (_, l, c), w in sorted(pl.ends.items(), key=repr) if w]
                if what:
                    out.sample("%s (%s): %s" % (n, cfg, "; ".join(what)), 40)
    for p in (p_c19, p_c20):
        o = p.run(tier)
        for x in o.findings:
            out.add(Finding("C18", "crash-" + x.rule, x.fn, x.loc, x.subject, x.text))
        for k in o.counts:
            out.count("%s: %s" % (p.__name__[-3:].upper(), k), o.counts[k])
        out.undecided.update(o.undecided)
    out.need("functions", 8)
    out.need("divisions by numbers of the program", 2)
    out.need("loops reading a program", 2)
    return out
