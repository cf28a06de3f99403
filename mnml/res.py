"""C07: operating-system resources and heap buffers: typestate over every path."""
from . import absint, front, owner, sem
from .absint import Engine, Giveup, NULL, UNDEF, State, addr, roots_of
from .contracts import API, KEEP
from .report import Finding

FD, FILE, DIR, LIB, HEAP, ADDRS, MAP = "descriptor", "stream", "directory handle", "library handle", "heap buffer", "address list", "mapping"
ACQ = {"open": FD, "openat": FD, "creat": FD, "socket": FD, "dup": FD, "accept": FD, "accept4": FD, "fopen": FILE, "fdopen": FILE, "popen": FILE, "tmpfile": FILE,
       "fmemopen": FILE, "opendir": DIR, "fdopendir": DIR, "dlopen": LIB, "strdup": HEAP, "strndup": HEAP, "malloc": HEAP, "calloc": HEAP, "realpath": HEAP,
       "mmap": MAP, "__strdup": HEAP, "__strndup": HEAP}
REL = {"close": FD, "fclose": FILE, "pclose": FILE, "closedir": DIR, "dlclose": LIB, "free": HEAP, "freeaddrinfo": ADDRS, "munmap": MAP}
READONLY = {"strcpy", "strncpy", "strlen", "strcmp", "strncmp", "memcpy", "memcmp", "snprintf", "printf", "fprintf", "open", "fopen", "opendir", "dlopen", "stat",
            "strdup", "setsockopt", "bind", "connect", "access", "dlsym"}


class Res(absint.Plugin):
    LIMIT = 3

    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.K = front.consts()
        self.found, self.exits, self.acquired, self.inlined = {}, 0, {}, set()

    def report(self, rule, x, subject, text):
        f = Finding("C07", rule, "%s (%s)" % (self.fn.name.split(".")[0], self.top.relfile()), x.loc(), subject, text)
        self.found.setdefault(f.key(), f)

    # -- resources ---------------------------------------------------------
    def take(self, st, x, tok, kind, call):
        st.own[tok] = 1
        st.dead.pop(tok, None)
        st.x[("rk", tok)] = (kind, call)
        self.acquired[(x.f, x.l, x.callee)] = kind

    def failed(self, st, tok):
        """is the resource known not to exist on this path?"""
        kind, call = st.x[("rk", tok)]
        if call != tok:
            return st.facts.get(("eq", call)) not in (None, 0) or 0 in st.facts.get(("ne", call), ())
        if kind == FD:
            lo, hi = st.facts.get(("rng", tok), (None, None))
            return hi is not None and hi < 0 or st.facts.get(("eq", tok), 0) < 0
        if kind == MAP:
            return st.facts.get(("eq", tok)) == -1 or st.facts.get(("rng", tok), (0, 0)) == (-1, -1)
        return st.facts.get(("eq", tok)) == 0

    def give(self, st, tok):
        st.own.pop(tok, None)

    def label(self, st, tok):
        kind, _ = st.x[("rk", tok)]
        i = tok[1] - 5000000 if tok[1] >= 5000000 and tok[1] < 6000000 else tok[1]
        return kind

    # -- calls -------------------------------------------------------------
    def inner(self, nm):
        f = self.prog.functions.get(nm) if nm else None
        return f if f is not None and nm not in API and nm not in KEEP else None

    def instance(self, f, d):
        k = (f.name, d)
        if k not in self.prog.__dict__.setdefault("instances", {}):
            self.prog.instances[k] = front.renumber(f, 1000000 * (1 + len(self.prog.instances)))
        return self.prog.instances[k]

    def enter(self, e, st, x, f):
        g = self.instance(f, e.depth)
        for p, a in zip(g.params, x.a):
            st.env[p[0]] = e.val(st, a)
        st.env.pop(x.i, None)
        pin = frozenset(k for k in st.env if k not in {p[0] for p in g.params})
        sub = Engine(g, self, pin, e.depth + 1)
        save, self.fn = self.fn, g
        sub.run(st)
        self.fn = save
        out = []
        for s, v in sub.outs:
            s.env = {k: w for k, w in s.env.items() if k in pin}
            if v is not None:
                s.env[x.i] = v
            out.append(s)
        self.inlined.add(f.name)
        return out

    def call(self, e, st, x):
        nm = x.callee
        if nm and nm.startswith("llvm.") and not nm.startswith("llvm.mem"):
            return None
        f = self.inner(nm)
        args = [e.val(st, a) for a in x.a]
        if f is not None and e.depth < self.LIMIT and (nm in self.relevant or any((addr(a)[0] if addr(a) else a) in st.own for a in args)):
            return self.enter(e, st, x, f)
        if nm in REL and args:
            self.release(st, x, args[0], REL[nm])
        elif nm == "realloc" and args and args[0] in st.own:
            self.give(st, args[0])
        elif nm is not None and nm not in ("free",):
            for a in args:
                if a in st.dead and ("rk", a) in st.x and a in [st.env.get(y[1]) for y in x.a if y[0] == "v"]:
                    kind, _ = st.x[("rk", a)]
                    if kind != FD or nm in ("read", "write", "dup", "fdopen", "bind", "listen", "connect", "setsockopt", "lisp_make_number"):
                        self.report("after", x, "%s after its release" % kind, "%s is given a %s that has been released" % (nm, kind))
        if nm == "fdopen" and args[0] in st.own and st.x.get(("rk", args[0]), ("",))[0] == FD:
            # takes the descriptor over when it succeeds
            pass
        # what the callee may have written is no longer known
        passed = {addr(a)[0] for a in args if addr(a)}
        if nm not in READONLY:
            for k in list(st.mem):
                r = k[0]
                if r in passed or r[0] not in ("al",) and (nm is None or nm in API or nm not in ACQ and nm not in REL):
                    if not (r in st.own and r not in passed):
                        del st.mem[k]
        nmk = ACQ.get(nm)
        if nm == "realpath" and args[1] != NULL:
            nmk = None
        v = e.mk(st, x) if x.t != "void" else None
        if v is not None:
            st.env[x.i] = v
        if nm == "realloc":
            nmk = HEAP
        if nm == "fdopen":
            fd = e.val(st, x.a[0])
            if fd in st.own:
                a = st.copy()          # success: the stream owns the descriptor
                b = st
                out = []
                if e.assume(a, ("cmp", "ne", v, NULL), True):
                    self.give(a, fd)
                    self.take(a, x, v, FILE, v)
                    out.append(a)
                if e.assume(b, ("cmp", "ne", v, NULL), False):
                    out.append(b)
                return out
        if nmk and v is not None and v[0] == "v":
            self.take(st, x, v, nmk, v)
            return [st]
        tok = ("v", 5000000 + x.i % 1000000)
        if nm in ("getaddrinfo",) and addr(args[3]):
            r, off = addr(e.val(st, x.a[3]))
            st.mem[(r, off, "ptr")] = tok
            self.take(st, x, tok, ADDRS, v)
        elif nm in ("__getdelim", "getline", "getdelim") and addr(args[0]):
            r, off = addr(e.val(st, x.a[0]))
            st.mem[(r, off, "ptr")] = tok
            self.take(st, x, tok, HEAP, tok)
        elif nm in ("pipe", "pipe2", "socketpair") and addr(args[-1 if nm == "socketpair" else 0]):
            r, off = addr(e.val(st, x.a[-1 if nm == "socketpair" else 0]))
            for n in (0, 1):
                t = ("v", tok[1] + 500000 * n) if not n else ("v", 5500000 + x.i % 1000000)
                st.mem[(r, off + 4 * n, "i32")] = t
                self.take(st, x, t, FD, v)
        elif nm == "lisp_make_number":
            w = e.val(st, x.a[1])
            if w in st.own and st.x[("rk", w)][0] not in (FILE, HEAP, ADDRS):
                self.give(st, w)        # part of the result of the program
        elif nm is None or nm not in API and nm not in REL and nm not in READONLY:
            for a in (e.val(st, y) for y in x.a):
                if nm in ("putenv", "atexit", "setbuf") and a in st.own:
                    self.give(st, a)
        return [st]

    def release(self, st, x, v, kind):
        if v == NULL:
            return
        ad = addr(v)
        r = ad[0] if ad else v
        if r in st.own and ("rk", r) in st.x:
            have = st.x[("rk", r)][0]
            if have != kind:
                self.report("kind", x, have, "a %s is released by %s" % (have, x.callee))
            self.give(st, r)
            st.dead[r] = 1
        elif r in st.dead and ("rk", r) in st.x and not self.failed(st, r):
            self.report("double", x, st.x[("rk", r)][0], "the %s has been released before" % st.x[("rk", r)][0])

    # -- memory ------------------------------------------------------------
    def store(self, e, st, x, root, off, cl, v):
        ad = addr(v)
        r = ad[0] if ad else v
        if r in st.own and root[0] != "al" and root != r:
            if root in st.own:
                st.x[("in", r)] = root
            else:
                self.give(st, r)

    def wildstore(self, e, st, x, v):
        ad = addr(v)
        r = ad[0] if ad else v
        if r in st.own:
            self.give(st, r)

    def ret(self, e, st, x):
        if e.depth:
            e.outs.append((st.copy(), e.val(st, x.a[0]) if x.a else None))
            return
        self.exits += 1
        v = e.val(st, x.a[0]) if x.a else None
        given = roots_of(v, set()) if v is not None else set()
        work = True
        while work:
            work = False
            for k, w in st.mem.items():
                if k[0] in given:
                    for r in roots_of(w, set()):
                        if r not in given:
                            given.add(r); work = True
        work = True
        while work:
            work = False
            for k, root in st.x.items():
                if k[0] == "in" and k[1] not in given and (root in given or root not in st.own and root not in st.dead):
                    given.add(k[1]); work = True
        for tok in list(st.own):
            if tok in given or ("rk", tok) not in st.x or self.failed(st, tok):
                continue
            kind, _ = st.x[("rk", tok)]
            self.report("leak", x, "%s of %s" % (kind, self.origin(tok)), "the %s from %s is still held when %s returns" % (kind, self.origin(tok), self.fn.name))

    def join(self, e, st, b):
        for t in [t for t in st.own if ("rk", t) in st.x and self.failed(st, t)] + [t for t in st.dead if len(t) > 2]:
            st.own.pop(t, None)
            st.dead.pop(t, None)
            st.x.pop(("rk", t), None)

    def origin(self, tok):
        i = tok[1]
        for f in [self.top] + list(self.prog.__dict__.get("instances", {}).values()):
            d = f.defs.get(i)
            if d is not None:
                return "%s" % (d.callee or d.o)
            if i >= 5000000:
                for y in f.insts():
                    if y.o == "call" and 5000000 + y.i % 1000000 == i or 5500000 + y.i % 1000000 == i:
                        if y.o == "call" and y.callee in ("getaddrinfo", "__getdelim", "getline", "pipe"):
                            return y.callee
        return "an acquisition"

    def overflow(self, e, st, i, g):
        if st.own.get(g) and ("rk", g) in st.x and not self.failed(st, g):
            d = e.fn.defs.get(i)
            self.report("leak", d, "%s in a loop" % st.x[("rk", g)][0], "%ss pile up over the iterations of a loop" % st.x[("rk", g)][0])


def closure(prog, names):
    calls = {n: {x.callee for x in f.insts() if x.o == "call" and x.callee} for n, f in prog.functions.items()}
    out = {n for n, c in calls.items() if c & names}
    while True:
        more = {n for n, c in calls.items() if n not in out and any(y in out and y not in API and y not in KEEP for y in c)}
        if not more:
            return out
        out |= more


def acquirers(prog):
    out = set()
    names = set(ACQ) | {"getaddrinfo", "__getdelim", "getline", "getdelim", "pipe", "pipe2", "socketpair", "realloc"}
    calls = {n: {x.callee for x in f.insts() if x.o == "call" and x.callee} for n, f in prog.functions.items()}
    out = {n for n, c in calls.items() if c & names}
    direct = set(out)
    while True:
        more = {n for n, c in calls.items() if n not in out and any(y in out and y not in API and y not in KEEP for y in c)}
        if not more:
            return direct, out
        out |= more


def analyse(prog, f, budget=20000):
    pl = Res(prog, f)
    pl.top = f
    pl.budget = budget
    if "resrelevant" not in prog.__dict__:
        prog.resrelevant = closure(prog, set(ACQ) | set(REL) | {"getaddrinfo", "__getdelim", "getline", "getdelim", "pipe", "pipe2", "socketpair", "realloc"})
    pl.relevant = prog.resrelevant
    st = State()
    e = Engine(f, pl)
    e.run(st)
    return pl
