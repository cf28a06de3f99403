"""C19: results of operations that can fail by giving no value are tested before they are used.

The result of each such call is a token that stays unproven until the path has established that it is a value; reading
or writing through it, or passing it to anything that needs a value, before that is the violation."""
from . import absint, front, res, sem
from .absint import Engine, Giveup, NULL, State, addr
from .contracts import API, KEEP
from .p_c01 import GROUPS
from .report import Finding, Outcome

PTR = {"getenv", "secure_getenv", "fopen", "fdopen", "popen", "tmpfile", "freopen", "opendir", "fdopendir", "readdir", "readdir64", "dlopen", "dlsym",
       "realpath", "getcwd", "strchr", "strrchr", "strstr", "strpbrk", "memchr", "strtok", "strtok_r", "gethostbyname", "getpwuid", "getpwnam", "localtime",
       "gmtime", "ttyname", "setlocale", "readline", "lisp_get_fullpath", "lisp_read", "slab_new", "fgets", "ctime", "__realpath_chk"}
FDS = {"open", "open64", "openat", "creat", "socket", "accept", "accept4", "dup", "dup2", "dup3", "eventfd", "epoll_create", "mkstemp", "fileno"}
MAP = {"mmap", "mmap64"}
# may be given the failed result: no harm, or an error like any other
TOLERANT = {"free", "close", "fdopen", "fcntl", "perror", "strerror", "time", "fclose$", "lisp_deallocate", "llvm.dbg.value"}
# the text of an error message only
MESSAGE = {"fprintf", "printf", "dprintf", "puts", "fputs"}


class Null(res.Res):
    def __init__(self, prog, fn):
        super().__init__(prog, fn)
        self.checked, self.uses, self.names = {}, set(), {}

    def report(self, rule, x, subject, text):
        f = Finding("C19", rule, "%s (%s)" % (self.fn.name.split(".")[0], self.top.relfile()), x.loc(), subject, text)
        self.found.setdefault(f.key(), f)

    # -- tokens ------------------------------------------------------------
    def proven(self, st, tok):
        kind, call = st.x[("nk", tok)]
        if call is not None:    # the call reports through a status: 0 for success
            return st.facts.get(("eq", call)) == 0
        if kind == "ptr":
            return 0 in st.facts.get(("ne", tok), ()) or st.facts.get(("eq", tok)) not in (None, 0)
        if kind == "map":
            ne = st.facts.get(("ne", tok), ())
            return -1 in ne or 0xFFFFFFFFFFFFFFFF in ne
        lo, hi = st.facts.get(("rng", tok), (None, None))
        eq = st.facts.get(("eq", tok))
        return lo is not None and lo >= 0 or -1 in st.facts.get(("ne", tok), ()) or 0xFFFFFFFF in st.facts.get(("ne", tok), ()) or eq is not None and eq >= 0

    def root(self, v):
        a = addr(v) if v is not None else None
        if a:
            return a[0]
        while v is not None and v[0] in ("tr",):
            v = v[2]
        return v

    def use(self, st, x, v, how):
        r = self.root(v)
        if r is None or r not in self.names:
            return
        self.uses.add((x.f, x.l, x.i % 1000000))
        if ("nk", r) not in st.x:
            return
        if not self.proven(st, r):
            kind, call = st.x[("nk", r)]
            self.report("untested", x, "%s from %s" % ({"ptr": "result", "map": "mapping", "fd": "descriptor"}[kind], self.name(st, r)),
                        "the result of %s is %s on a path that has not found it to be valid" % (self.name(st, r), how))

    def name(self, st, r):
        return self.names[r]

    def track(self, st, x, tok, kind, call, nm):
        st.x[("nk", tok)] = (kind, None if call == tok else call)
        self.names[tok] = nm
        self.checked[(x.f, x.l, nm)] = kind

    # -- calls -------------------------------------------------------------
    def call(self, e, st, x):
        nm = x.callee
        if nm and nm.startswith("llvm.") and not nm.startswith("llvm.mem"):
            return None
        args = [e.val(st, a) for a in x.a]
        f = self.inner(nm)
        if f is not None and e.depth < self.LIMIT and nm in self.relevant and nm not in self.stack(e):
            return self.enter(e, st, x, f)
        if nm is None and x.c:
            self.use(st, x, e.val(st, x.c), "called")
        if nm not in TOLERANT:
            for i, v in enumerate(args):
                r = self.root(v)
                if r is not None and r in self.names:
                    if nm in MESSAGE and i > 0:
                        continue
                    if ("nk", r) in st.x and st.x[("nk", r)][0] == "fd" and nm in ("dup2", "dup3") and i == 1:
                        continue
                    self.use(st, x, v, "passed to %s" % (nm or "a function"))
        # what the callee may have written is no longer known
        passed = {addr(a)[0] for a in args if addr(a)}
        if nm not in res.READONLY and nm not in TOLERANT and nm not in PTR:
            for k in list(st.mem):
                r = k[0]
                if r in passed or r[0] not in ("al",) and (nm is None or nm in API or nm in self.prog.functions):
                    del st.mem[k]
        if nm in ("getenv", "secure_getenv") and args[0][0] == "g" or nm == "getenv" and args and args[0][0] not in ("v",):
            k = ("env", repr(args[0]))
            if k in st.x:
                st.env[x.i] = st.x[k][0]
                return [st]
        if nm in ("setenv", "putenv", "unsetenv", "clearenv"):
            for k in [k for k in st.x if k[0] == "env"]:
                del st.x[k]
        if x.t == "void":
            return [st]
        v = e.mk(st, x)
        st.env[x.i] = v
        for k in [k for k in st.x if k[0] == "nk" and k[1] == v]:
            del st.x[k]
        if nm in PTR and not (nm == "realpath" and False):
            self.track(st, x, v, "ptr", v, nm)
            if nm == "getenv" and args[0][0] != "v":
                st.x[("env", repr(args[0]))] = (v,)
        elif nm in FDS:
            self.track(st, x, v, "fd", v, nm)
        elif nm in MAP:
            self.track(st, x, v, "map", v, nm)
        elif nm in ("pipe", "pipe2", "socketpair"):
            a = addr(e.val(st, x.a[-1 if nm == "socketpair" else 0]))
            if a:
                for n in (0, 1):
                    t = ("v", 5000000 + 500000 * n + x.i % 1000000)
                    st.mem[(a[0], a[1] + 4 * n, "i32")] = t
                    self.track(st, x, t, "fd", v, nm)
        elif nm == "getaddrinfo" and addr(args[3]):
            a = addr(e.val(st, x.a[3]))
            t = ("v", 5000000 + x.i % 1000000)
            st.mem[(a[0], a[1], "ptr")] = t
            self.track(st, x, t, "ptr", v, nm)
        return [st]

    def stack(self, e):
        return ()

    # -- memory ------------------------------------------------------------
    def deref(self, e, st, x, root, off):
        if root[0] == "v":
            self.use(st, x, root, "followed")

    def store(self, e, st, x, root, off, cl, v):
        pass

    def wildstore(self, e, st, x, v):
        pass

    def arith(self, e, st, x, a, b):
        pass

    def ret(self, e, st, x):
        if e.depth:
            e.outs.append((st.copy(), e.val(st, x.a[0]) if x.a else None))
            return
        self.exits += 1
        v = e.val(st, x.a[0]) if x.a else None
        ct = API.get(self.fn.name)
        if v is not None and (self.fn.taken and self.fn.ty == "ptr (ptr, ptr)" or ct is not None and ct.ret == "own"):
            if v == NULL:
                return
            self.use(st, x, v, "returned as a value")

    def join(self, e, st, b):
        for t in [k[1] for k in st.x if k[0] == "nk"]:
            if self.proven(st, t):
                del st.x[("nk", t)]

    def overflow(self, e, st, i, g):
        pass


def analyse(prog, f, budget=20000):
    pl = Null(prog, f)
    pl.top = f
    pl.budget = budget
    if "nullrelevant" not in prog.__dict__:
        prog.nullrelevant = res.closure(prog, PTR | FDS | MAP | {"getaddrinfo", "pipe", "pipe2", "socketpair"})
    pl.relevant = prog.nullrelevant
    e = Engine(f, pl)
    e.run(State())
    return pl


def run(tier):
    out = Outcome("Typestate of every result that may be missing (%s, and the descriptor-returning calls %s, mappings, and what a call with a "
                  "status hands back): on each path of each function with such a call, following helpers, the result is found valid before it is "
                  "followed, called, returned as a value or passed on." % (", ".join(sorted(PTR)), ", ".join(sorted(FDS))),
                  ["a failed descriptor may be passed to close and fdopen, which fail in turn", "malloc and strdup do not fail"])
    seen = set()
    for cfg in ("release-nosse",) if tier == "quick" else ("release-nosse", "debug-nosse"):
        for g in [x for x in GROUPS if x in ("core", "bin", "stubs", "grammar")] + front.modules():
            prog = sem.natives(g, cfg)[0] if g in front.modules() else front.program(g, KEEP, cfg)
            if "nullrelevant" not in prog.__dict__:
                prog.nullrelevant = res.closure(prog, PTR | FDS | MAP | {"getaddrinfo", "pipe", "pipe2", "socketpair"})
            called = {x.callee for f in prog.functions.values() for x in f.insts() if x.o == "call" and x.callee}
            for n in sorted(prog.nullrelevant):
                f = prog.functions[n]
                k = (f.relfile(), n, cfg)
                if k in seen or n in called and n not in API and n not in KEEP:
                    continue
                seen.add(k)
                try:
                    pl = analyse(prog, f)
                except Giveup as ex:
                    out.undecided["%s (%s)" % (n, cfg)] = str(ex)
                    continue
                out.count("functions")
                out.count("exits", pl.exits)
                out.count("results tracked", len(pl.checked))
                out.count("uses", len(pl.uses))
                for x in pl.found.values():
                    out.add(x)
                out.sample("%s: %s; %d uses" % (n, ", ".join(sorted({"%s at line %s" % (c, l) for (_, l, c) in pl.checked})), len(pl.uses)), 60)
    out.need("functions", 8)
    out.need("uses", 10)
    return out
