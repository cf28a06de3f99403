"""C21: library scripts load everything they use"""
import os
from . import front, lispsrc, sem
from .lispsrc import Atom, Node
from .report import Finding, Outcome

PRELOADED = {"def", "load", "quote"}        # docs/manual/Language.md: loaded by default
GLOBALS = {"ARGV", "CONFIG", "ENV"}         # docs/manual/Language.md: set by the interpreter
CONSTANTS = {"T", "NIL", "_", "."}
SYMLEN = 16


def is_quote(n):
    return isinstance(n, Node) and len(n) == 2 and n[0] in ("quote", "unquote") and isinstance(n[0], Atom)


def flat(n):
    """(a . (b c)) is (a b c): undo the dots that end in a list"""
    if not isinstance(n, Node):
        return n
    r = Node(flat(x) for x in n)
    r.line = n.line
    while len(r) >= 3 and isinstance(r[-2], Atom) and r[-2] == "." and isinstance(r[-1], Node):
        tail = r[-1]
        r[-2:] = list(tail)
    return r


def names(p):
    """symbols a parameter or binding pattern binds"""
    if isinstance(p, Atom):
        return {str(p)} - CONSTANTS if p.kind == "a" and not number(p) else set()
    if is_quote(p):
        return set()
    return set().union(*[names(x) for x in p]) if p else set()


def number(a):
    t = str(a).lstrip("+-")
    return t.isdigit()


def params(p):
    """(number of parameters, rest?) of a parameter list"""
    if isinstance(p, Atom):
        return (0, p != "NIL")
    if "." in [x for x in p if isinstance(x, Atom)]:
        return (len(p) - 2, True)
    return (len(p), False)


class Script:
    def __init__(self, name, forms):
        self.name, self.forms = name, [flat(f) for f in forms]
        self.defs, self.loads, self.uses, self.bound, self.arity, self.calls = {}, [], [], set(), {}, []
        self.dynamic = []           # (index, prefixes, suffixes) of forms that build definitions at run time
        for i, f in enumerate(self.forms):
            self.top = i
            self.late = False
            if isinstance(f, Node) and f and isinstance(f[0], Atom) and f[0] == "load":
                for l in lispsrc.loads(f):
                    self.loads.append((i, f.line, l))
                continue
            self.walk(f, frozenset())
            if builds(f):
                strs = strings(f)
                self.dynamic.append((i, strs))

    def use(self, a, env):
        if a.kind == "a" and not number(a) and a not in CONSTANTS and a not in env:
            self.uses.append((self.top, self.late, str(a), a.line))

    def quoted(self, f):
        """code kept as data may assign globals when it is evaluated later"""
        if isinstance(f, Node) and f:
            if len(f) > 2 and isinstance(f[0], Atom) and f[0] == "setq" and isinstance(f[1], Atom):
                self.defs.setdefault(str(f[1]), (self.top, f.line))
            for x in f:
                self.quoted(x)

    def call(self, name, args, line, how):
        if not any(isinstance(a, Atom) and a == "." or isinstance(a, Node) and a and isinstance(a[0], Atom) and a[0] == "splice" for a in args):
            self.calls.append((name, len(args), line, how))

    def body(self, forms, env):
        for x in forms:
            self.walk(x, env)

    def tail(self, x, env):
        """expression held in the rest of a pair (pattern . expression)"""
        if len(x) == 2 and x[0] == "." :
            return self.walk(x[1], env)
        n = Node(x)
        n.line = getattr(x[0], "line", 0) if x else 0
        if n:
            self.walk(n, env)

    def walk(self, f, env):
        if isinstance(f, Atom):
            return self.use(f, env)
        if not f:
            return
        if is_quote(f):
            return self.quoted(f[1])
        h = f[0]
        hd = str(h) if isinstance(h, Atom) and h.kind == "a" else None
        if hd and hd not in env:
            self.use(h, env)
            if hd == "quote":
                return
            self.call(hd, f[1:], f.line, "call")
            if hd == "|>" and len(f) > 1:
                self.walk(f[1], env)
                for x in f[2:]:
                    if isinstance(x, Node) and x and isinstance(x[0], Atom) and x[0].kind == "a" and x[0] not in env:
                        self.use(x[0], env)
                        self.call(str(x[0]), x[1:], x.line, "stage")
                        self.body(x[1:], env)
                    else:
                        self.walk(x, env)
                return
            if hd == "def" and len(f) > 2 and isinstance(f[1], Atom):
                self.defs.setdefault(str(f[1]), (self.top, f.line))
                self.arity[str(f[1])] = params(f[2])
                p = names(f[2])
                self.bound |= p
                late, self.late = self.late, True
                self.body(f[3:], env | p)
                self.late = late
                return
            if hd == "\\" and len(f) > 1:
                p = names(f[1])
                self.bound |= p
                return self.body(f[2:], env | p)
            if hd == "let" and len(f) > 1 and isinstance(f[1], Node):
                for b in f[1]:
                    if isinstance(b, Node) and b:
                        # a local function may call itself: its own name counts as bound in its value
                        p = names(b[0])
                        self.tail(b[1:], env | (p if isinstance(b[0], Atom) else frozenset()))
                        env = env | p
                        self.bound |= p
                return self.body(f[2:], env)
            if hd in ("cond", "match") and len(f) > 1:
                self.walk(f[1], env)
                for c in f[2:]:
                    if isinstance(c, Node) and c and not (c[0] == "splice" and isinstance(c[0], Atom)):
                        if hd == "cond":
                            self.walk(c[0], env)
                        if len(c) > 1:
                            self.tail(c[1:], env)
                    else:
                        self.walk(c[1] if isinstance(c, Node) and len(c) > 1 else c, env)
                return
            if hd == "setq" and len(f) > 1 and isinstance(f[1], Atom):
                self.defs.setdefault(str(f[1]), (self.top, f.line))
                return self.body(f[2:], env)
            if hd == "splice":
                return self.body(f[1:], env)
            return self.body(f[1:], env)
        self.body(f, env)


def strings(f):
    if isinstance(f, Atom):
        return [str(f)[1:-1]] if f.kind == "s" else []
    return [s for x in f for s in strings(x)]


def builds(f):
    """does the form make a definition at run time, (list 'def …)?"""
    if isinstance(f, Atom):
        return False
    if is_quote(f) and isinstance(f[1], Atom) and f[1] in ("def", "setq"):
        return True
    return any(builds(x) for x in f)


def run(tier):
    out = Outcome("The sources of all library scripts are parsed; each symbol a script's code evaluates (heads and arguments, with "
                  "parameters, let, lambda and clause patterns bound, quoted data left out) is a local, a name one of the loads of the script, "
                  "direct or through the scripts it loads, provides before it is needed, a definition of one of these scripts, or preloaded. "
                  "Each load names an existing script or a module that provides each requested name (module tables from the compiled code); "
                  "the load graph is acyclic (scripts are read at each load); names defined by scripts do not collide once cut to the size of a symbol.",
                  ["symbols also bound as a parameter or local somewhere in the same script are taken to be found through the caller's environment",
                   "definitions built at run time (list 'def …) are matched by their literal parts"])
    mods = {}
    for g in front.modules():
        prog, nat, table, end = sem.natives(g, "debug-nosse")
        if any(n.err or n.name is None for n in nat):
            out.undecided["module %s" % g] = "table not readable"
        mods[g] = {n.name for n in nat if n.name}
    lib = {n: Script(n, f) for n, f in lispsrc.library().items()}

    def bad(rule, s, line, subject, text):
        out.add(Finding("C21", rule, lispsrc.path(s.name), "%s:%d" % (lispsrc.path(s.name), line), subject, text))

    def target(t):
        return os.path.basename(t) if t.startswith("@lib/") or "/" not in t else None

    # load graph
    edges = {n: [] for n in lib}
    for n, s in lib.items():
        for i, line, l in s.loads:
            out.count("loads")
            if l[0] == "file":
                t = target(l[1])
                if t is None:
                    out.undecided["%s:%d" % (n, line)] = "loads %s, outside the library" % l[1]
                elif t not in lib:
                    bad("no such script", s, line, t, "%s loads %s, which is not in the library" % (n, t))
                else:
                    edges[n].append(t)
            elif l[1] not in mods:
                bad("no such module", s, line, l[1], "%s loads module %s, which does not exist%s" % (n, l[1], " (there is a script of that name)" if l[1] + ".l" in lib else ""))
            else:
                for x in l[2] or ():
                    out.count("requested names")
                    if x not in mods[l[1]] and x != "T":
                        bad("not provided", s, line, x, "%s requests %s from module %s, which does not provide it" % (n, x, l[1]))
    for n in lib:
        seen, todo = set(), list(edges[n])
        while todo:
            t = todo.pop()
            if t == n:
                bad("cycle", lib[n], 1, n, "loading %s loads %s again, without end" % (n, n))
                break
            if t not in seen:
                seen.add(t)
                todo += edges[t]

    memo = {}

    def provides(n, stack=()):
        """every global name present once script n is loaded, and its run-time definitions"""
        if n in memo or n in stack:
            return memo.get(n, (set(), []))
        s = lib[n]
        names, dyn = set(s.defs), [d[1] for d in s.dynamic]
        for i, line, l in s.loads:
            a, b = given(l, stack + (n,))
            names |= a
            dyn += b
        if not stack:
            memo[n] = (names, dyn)
        return names, dyn

    def given(l, stack=()):
        if l[0] == "file":
            t = target(l[1])
            return provides(t, stack) if t in lib else (set(), [])
        if l[1] not in mods:
            return set(), []
        return (mods[l[1]] if l[2] is None or "T" in l[2] else set(l[2])), []

    for n, s in lib.items():
        out.count("scripts")
        every, dyn = provides(n)
        seen = set()
        for top, late, name, line in s.uses:
            out.count("uses")
            if late:
                have, d = every, dyn
            else:
                have = {k for k, (i, _) in s.defs.items() if i <= top}
                d = [x for i, x in s.dynamic if i <= top]
                for i, _, l in s.loads:
                    if i < top:
                        a, b = given(l)
                        have |= a
                        d = d + b
            if name in PRELOADED or name in GLOBALS or name in have or name in s.bound or name in seen:
                continue
            if any(name == x or any(name == x + y for y in g if y) for g in d for x in g if x):
                continue
            if any(name.startswith(x) for g in d for x in g if len(x) > 2):
                out.undecided["%s:%d" % (n, line)] = "%s may be defined at run time" % name
                continue
            seen.add(name)
            bad("not loaded", s, line, name, "%s uses %s, which neither it nor any script it loads defines or loads%s" % (
                n, name, " before this form is evaluated" if name in every else ""))
        out.sample("%s: %d uses, %d definitions, %d names available" % (n, len(s.uses), len(s.defs), len(every)))
    # names that become one once cut
    for n in lib:
        cut = {}
        for k in sorted(provides(n)[0]):
            o = cut.setdefault(k.encode()[:SYMLEN], k)
            if o != k and (k in lib[n].defs or o in lib[n].defs):
                i, line = lib[n].defs.get(k) or lib[n].defs[o]
                bad("same symbol", lib[n], line, k, "%s and %s are the same symbol once cut to %d bytes" % (o, k, SYMLEN))
    out.need("scripts", 20)
    out.need("uses", 300)
    out.need("requested names", 100)
    return out
