"""Reference semantics of the primitives (the reference manual, written down), one function each. See spec.Oracle."""
from .spec import show, nil, true, ANY, LISP, NIL, TRUE, CHAR, NUM, PAIR, SYM, WILD, Unsure

CONTROL, VALUES, DEFS, SYSTEM = {}, {}, {}, {}


def ref(table, *names):
    def deco(f):
        for n in names:
            table[n] = f
        return f
    return deco


def car(t): return ("car", t)
def cdr(t): return ("cdr", t)
def cons(a, b): return ("cons", a, b)
def quoted(t): return cons(("sym", "quote"), t)
def call1(f, x): return cons(f, cons(quoted(x), nil))


def bool_(v):
    return true if v else nil


# -- control forms -----------------------------------------------------------
@ref(CONTROL, "if")
def if_(o):
    C, R = o.P
    return o.eval(o.env, car(cdr(R)) if o.isnil(C) else car(R))


@ref(CONTROL, "when")
def when(o):
    C, R = o.P
    return nil if o.isnil(C) else o.prog(o.env, R)


@ref(CONTROL, "unless")
def unless(o):
    C, R = o.P
    return o.prog(o.env, R) if o.isnil(C) else nil


@ref(CONTROL, "while")
def while_(o):
    A, = o.P
    last = nil
    while True:
        c = o.eval(o.env, car(A), "evaluation of the condition")
        if o.isnil(c):
            return last
        last = o.prog(o.env, cdr(A))


@ref(CONTROL, "cond")
def cond(o):
    A, = o.P
    v = o.eval(o.env, car(A), "evaluation of the subject, once")
    L = cdr(A)
    while o.ispair(L):
        c = car(L)
        if not o.ispair(c):
            return o.open()
        if o.isa(car(c), WILD):
            return o.eval(o.env, cdr(c), "evaluation of the selected branch")
        r = o.eval(o.env, call1(car(c), v), "the predicate applied to the subject's value")
        if o.isa(r, TRUE):
            return o.eval(o.env, cdr(c), "evaluation of the selected branch")
        if not o.isnil(r):
            return o.open()
        L = cdr(L)
    return nil if o.isnil(L) else o.open()


def matches(o, pat, v, depth=0):
    """structural matching, decided by a function of the two or in place"""
    for n, ev in enumerate(o.row.trace):
        if ev[0] not in ("lisp_equ", "lisp_neq", "lisp_eval", "lisp_cons") and len(ev) >= 3 and o.same(ev[-2], pat) and o.same(ev[-1], v):
            return o.truth(("r", n))
    if o.isa(pat, WILD):
        return True
    if depth > 3:
        return o.open()
    k = next(k for k in (NIL, TRUE, CHAR, NUM, PAIR, SYM) if o.isa(pat, k))
    if not o.isa(v, k):
        return False
    if k in (CHAR, NUM):
        return o.compare("eq", ("number", pat), ("number", v))
    if k == SYM:
        return bound(o, pat, v)
    if k == PAIR:
        return matches(o, car(pat), car(v), depth + 1) and matches(o, cdr(pat), cdr(v), depth + 1)
    return True


@ref(CONTROL, "match")
def match(o):
    A, = o.P
    v = o.eval(o.env, car(A), "evaluation of the subject, once")
    L = cdr(A)
    while o.ispair(L):
        c = car(L)
        if not o.ispair(c):
            return o.open()
        if matches(o, car(c), v):
            return o.eval(o.env, cdr(c), "evaluation of the selected branch")
        L = cdr(L)
    return nil if o.isnil(L) else o.open()


@ref(CONTROL, "prog")
def prog(o):
    A, = o.P
    return o.prog(o.env, A)


@ref(CONTROL, "|>")
def stream(o):
    A, = o.P
    v = o.eval(o.env, car(A))
    L = cdr(A)
    while o.ispair(L):
        v = o.eval(o.env, call1(car(L), v), "the next function applied to the value so far")
        L = cdr(L)
    return v if o.isnil(L) else o.open()


@ref(CONTROL, "or")
def or_(o):
    A, = o.P
    if not o.isnil(o.eval(o.env, car(A))):
        return true
    return bool_(not o.isnil(o.eval(o.env, car(cdr(A)))))


@ref(CONTROL, "and")
def and_(o):
    X, Y = o.P
    return bool_(not o.isnil(X) and not o.isnil(Y))


@ref(CONTROL, "not")
def not_(o):
    X, = o.P
    return bool_(o.isnil(X))


@ref(CONTROL, "eval")
def eval_(o):
    X, = o.P
    return o.eval(o.env, X)


@ref(CONTROL, "quote")
def quote(o):
    return o.P[0]


@ref(CONTROL, "list")
def list_(o):
    """each element once; the order in which they are evaluated is left open"""
    A, = o.P
    want = []
    L = A
    while o.ispair(L):
        want.append(car(L))
        L = cdr(L)
    if not o.isnil(L):
        return o.open()
    got = {}
    for _ in want:
        for k, e in enumerate(want):
            if k in got:
                continue
            r = o.next("lisp_eval", LISP, o.env, e)
            if r is not None:
                got[k] = r
                break
    for k, e in enumerate(want):
        if k not in got:
            got[k] = o.eval(o.env, e)
    res = nil
    for k in reversed(range(len(want))):
        res = cons(got[k], res)
    return res


@ref(CONTROL, "time")
def time(o):
    A, = o.P
    stamps = lambda: [n for n, ev in enumerate(o.row.trace) if ev[0] == "lisp_timestamp"]
    if o.isnil(A):
        t = stamps()
        return ("num", ("r", t[-1])) if t else ANY
    r = o.eval(o.env, car(A))
    if r == nil:
        return o.open()
    before, after = [n for n in stamps() if n < r[1]], [n for n in stamps() if n > r[1]]
    if not before or not after:
        o.fail("the time is to be taken before and after the evaluation")
    return ("num", ("bin", "sub", ("r", after[-1]), ("r", before[0])))


STREAM = ("number", car(car(("L", "ochan"))))


def emit(o, text):
    ev = o.peek()
    forms = [("fwrite", ("str", text), ("i", 1), ("i", len(text)), STREAM), ("fwrite", ("str", text), ("i", len(text)), ("i", 1), STREAM),
             ("fputs", ("str", text), STREAM), ("fprintf", STREAM, ("str", text)), ("fputc", ("i", ord(text)), STREAM),
             ("putc", ("i", ord(text)), STREAM), ("_IO_putc", ("i", ord(text)), STREAM)]
    for f in forms:
        if o.match(ev, f) and len(ev) == len(f):
            o.i += 1
            return
    o.fail("output of %r expected, but the path %s" % (text, "does nothing more" if ev is None else "does " + ev[0]))


def printer(sep, quote, nl):
    def f(o):
        A, = o.P
        L, last = A, nil
        while o.ispair(L):
            v = o.eval(o.env, car(L), "evaluation of the next argument")
            o.call("lisp_prin", LISP, v, ("i", quote))
            last, L = v, cdr(L)
            if sep and not o.isnil(L):
                emit(o, sep)
        if not o.isnil(L):
            return o.open()
        if nl:
            emit(o, "\n")
        return last
    return f


CONTROL["prin"] = printer(None, 0, False)
CONTROL["prinl"] = printer(None, 0, True)
CONTROL["print"] = printer(" ", 1, False)
CONTROL["printl"] = printer(" ", 1, True)


# -- values ------------------------------------------------------------------
def kindpred(name, *ks):
    VALUES[name] = lambda o: bool_(o.isa(o.P[0], *ks))


kindpred("chr?", CHAR); kindpred("lst?", PAIR, NIL); kindpred("nil?", NIL); kindpred("num?", NUM); kindpred("sym?", SYM)
kindpred("tru?", TRUE); kindpred("atm?", TRUE, CHAR, NUM, SYM, WILD)


@ref(VALUES, "str?")
def isstr(o):
    return bool_(o.ask("lisp_is_string", o.P[0]))


@ref(VALUES, "=")
def equ(o):
    return bool_(o.equal(*o.P))


@ref(VALUES, "<>")
def neq(o):
    return bool_(not o.equal(*o.P))


def arith(name, op):
    def f(o):
        X, Y = o.P
        if not (o.isa(X, NUM) and o.isa(Y, NUM)):
            return o.open()
        x, y = ("number", X), ("number", Y)
        r = ("bin", op, x, y)
        if op in ("sdiv", "srem"):
            if o.compare("eq", y, ("i", 0)):
                return nil
            if o.compare("eq", y, ("i", -1)):
                return ("num", ("anyof", r, ("bin", "sub", ("i", 0), x), ("bin", "sub", ("i", 0), x)) if op == "sdiv" else ("anyof", r, ("i", 0)))
        return ("num", r)
    VALUES[name] = f


arith("+", "add"); arith("-", "sub"); arith("*", "mul"); arith("/", "sdiv"); arith("%", "srem")


def order(name, p):
    def f(o):
        X, Y = o.P
        if not (o.isa(X, NUM) and o.isa(Y, NUM)):
            return o.open()
        return bool_(o.compare(p, ("number", X), ("number", Y)))
    VALUES[name] = f


order("<", "slt"); order("<=", "sle"); order(">", "sgt"); order(">=", "sge")
VALUES["car"] = lambda o: car(o.P[0])
VALUES["cdr"] = lambda o: cdr(o.P[0])
VALUES["cons"] = lambda o: cons(o.P[0], o.P[1])


@ref(VALUES, "conc")
def conc(o):
    X, Y = o.P
    if not o.isa(X, PAIR, NIL):
        return o.open()
    if o.isnil(X):
        r = o.next("lisp_conc", LISP, X, Y)
        return r if r is not None else Y
    return o.call("lisp_conc", LISP, X, Y)


@ref(VALUES, "len")
def len_(o):
    X, = o.P
    if not o.isa(X, PAIR, NIL):
        return nil
    for n, ev in enumerate(o.row.trace):
        if ev[0] == "lisp_len" and o.same(ev[1], X):
            return ("num", ("r", n))
    if o.isnil(X):
        return ("num", ("i", 0))
    raise Unsure("the length is computed in place")


@ref(VALUES, "chr")
def chr_(o):
    X, = o.P
    if not o.isa(X, NUM):
        return o.open()
    n = ("number", X)
    return ("chr", ("anyof", n, ("tr", "i8", n), ("bin", "and", n, ("i", 255))))


@ref(VALUES, "sym")
def sym(o):
    X, = o.P
    if not o.isstring(X):
        return nil
    return o.open()


# -- definitions -------------------------------------------------------------
@ref(DEFS, "def")
def def_(o):
    A, = o.P
    name, args, body = car(A), car(cdr(A)), cdr(cdr(A))
    if not o.isa(name, SYM):
        return nil
    if not o.isa(args, NIL, PAIR, SYM):
        return nil
    doc = car(body)
    if o.ispair(doc) and o.isa(car(doc), CHAR):
        body = cdr(body)
    for ev in o.row.trace:
        if ev[0] == "lisp_mark_tail_calls" and not o.match(ev, ("lisp_mark_tail_calls", LISP, name, args, body)):
            o.fail("tail calls are marked in %s" % (ev,))
    r = o.call("lisp_setq", LISP, ("L", "globals"), cons(name, cons(args, cons(nil, body))), what="binding of the name to the function in the globals")
    o.call("set", "globals", r, what="the new globals to be kept")
    return name


@ref(DEFS, "setq")
def setq(o):
    A, = o.P
    v = o.eval(o.env, car(cdr(A)))
    if o.isnil(v):
        return o.open()          # binding NIL is left to the implementation
    r = o.call("lisp_setq", LISP, ("L", "globals"), cons(car(A), v), what="binding of the name to the value in the globals")
    o.call("set", "globals", r, what="the new globals to be kept")
    return v


def bound(o, key, s):
    q = ("symeq", o.norm(key), o.norm(s))
    for t in (q, (q[0], q[2], q[1])):
        for (w, u), v in o.row.conds.items():
            if w == "b" and o.norm(u) == t:
                return v
    if q not in o.facts:
        o.facts[q] = o.choose()
    return o.facts[q]


@ref(DEFS, "<-")
def set_(o):
    A, = o.P
    s = o.eval(o.env, car(A))
    v = o.eval(o.env, car(cdr(A)))
    if not o.isa(s, SYM):
        return nil
    k = o.N
    while not o.isnil(("env", k)):
        if not o.ispair(("env", k)) and k > o.N:
            break
        if k > 5:
            return o.open()
        if bound(o, ("key", k), s):
            o.call("setcdr", ("ent", k), v, what="update of the innermost local binding")
            return ("p", k)
        k += 1
    r = o.call("lisp_tree_upd", LISP, ("L", "globals"), cons(s, v), what="update of the global binding")
    return nil if o.isnil(r) else cdr(r)


@ref(DEFS, "\\")
def lambda_(o):
    A, = o.P
    return cons(car(A), cons(("dup", o.env), cdr(A)))


@ref(DEFS, "let")
def let(o):
    A, = o.P
    L, b = car(A), ()
    while o.ispair(L):
        c = car(L)
        if not o.ispair(c):
            return o.open()
        e = ("ENV", o.env, b)
        v = o.call("lisp_eval", LISP, e, cdr(c), what="evaluation of the next bound expression in the caller's environment and the bindings so far")
        b += ((o.norm(car(c)), o.norm(v)),)
        L = cdr(L)
    e = ("ENV", o.env, b)
    return o.call("lisp_prog", LISP, e, cdr(A), nil, what="evaluation of the body in the caller's environment and all bindings")


@ref(DEFS, "load")
def load(o):
    A, = o.P
    L = A
    while True:
        v = o.eval(o.env, car(L), "evaluation of the next argument")
        if o.isa(v, SYM):
            r = o.call("module_load", LISP, cons(v, true), what="loading of the whole module")
        elif o.ispair(v):
            if o.isstring(v):
                r = o.call("lisp_load_file", LISP, what="loading of the script")
            else:
                r = o.call("module_load", LISP, v, what="loading of the module's symbols")
        else:
            r = nil
        L = cdr(L)
        if o.isnil(L):
            return r
        if not o.ispair(L):
            return o.open()


# -- system and streams ------------------------------------------------------
def num(t): return ("num", t)
def int32(t): return ("tr", "i32", ("number", t))
def zero(o, r):
    left = answers(o, r)
    if left and len({x == 0 for x in left}) == 1:
        return left[0] == 0
    return o.compare("eq", r, ("i", 0))


# system calls that say only whether they did it: 0 or -1
STATUS = {"setsockopt", "bind", "listen", "pipe", "unlink", "close", "connect"}


def answers(o, r):
    """the answers of a system call (-1, 0, some positive number) that the conditions of the path leave"""
    r = o.norm(r)
    if r[0] != "r" or not (isinstance(r[1], int) and r[1] < len(o.row.trace)):
        return None
    nm = o.row.trace[r[1]][0]
    if nm not in STATUS | {"socket", "accept", "dup", "dup2", "fork", "open", "select"}:
        return None
    left = [-1, 0] if nm in STATUS else [-1, 0, 7]
    for (w, u), v in o.row.conds.items():
        un = o.norm(u)
        if un == r and w == "eq":
            left = [x for x in left if x == v or x > 0 and v > 0]
        elif un == r and w == "ne":
            left = [x for x in left if x not in v or x > 0]
        elif un == r and w == "rng":
            lo, hi = v
            left = [x for x in left if (lo is None or x >= lo or x > 0) and (hi is None or x <= hi or x > 0 and hi > 0)]
        elif w == "b" and un[0] == "cmp" and r in un[2:4] and ("i", 0) in un[2:4] or w == "b" and un[0] == "cmp" and r in un[2:4] and ("i", -1) in un[2:4]:
            from .absint import cmpc
            left = [x for x in left if bool(cmpc(un[1], *[x if y == r else y[1] for y in un[2:4]])) == bool(v)]
    return left


def good(o, r):
    left = answers(o, r)
    if left and all(x >= 0 for x in left):
        return True
    if left and all(x < 0 for x in left):
        return False
    return o.compare("sge", r, ("i", 0))


def text(o, t):
    """the buffer the text of t was written to, if the path did"""
    bufs = [ev[2] for ev in o.row.trace if ev[0] == "lisp_make_cstring" and o.same(ev[1], t)]
    return ("anyof",) + tuple(bufs) if bufs else None


def failed(o):
    """what a failing system call returns is left open, except that it is not a success"""
    return o.open()


@ref(SYSTEM, "fork")
def fork(o):
    r = o.call("fork")
    return num(r) if good(o, r) else failed(o)


@ref(SYSTEM, "pipe")
def pipe(o):
    ev = o.peek("pipe")
    r = o.call("pipe", ANY)
    return cons(num(("field", 0, ev[1])), num(("field", 4, ev[1]))) if zero(o, r) else nil


@ref(SYSTEM, "unlink")
def unlink(o):
    n, = o.P
    if not o.isstring(n):
        return nil
    b = text(o, n)
    if b is None:
        return o.open()
    r = o.call("unlink", b, what="removal of the named file")
    return bool_(zero(o, r))


@ref(SYSTEM, "wait")
def wait(o):
    n, = o.P
    if not o.isa(n, NUM):
        return o.open()
    ev = o.peek("waitpid")
    if ev is None or ev[0] != "waitpid" or len(ev) < 3:
        o.fail("the process is not waited for")
    r = o.call("waitpid", int32(n), ANY, ("i", 0), what="waiting for that process to end")
    if not good(o, r):
        return failed(o)
    s = ("field", 0, ev[2])
    for (w, u), v in o.row.conds.items():
        if o.norm(u) == ("bin", "and", s, ("i", 127)) or o.norm(u) == ("bin", "and", ("i", 127), s):
            if w == "ne" and 0 in v or w == "eq" and v:
                return nil
            if w == "eq":
                return ("anyof", num(("bin", "ashr", ("bin", "and", s, ("i", 65280)), ("i", 8))), num(("bin", "and", ("bin", "ashr", s, ("i", 8)), ("i", 255))))
    return ("anyof", nil, num(("bin", "ashr", ("bin", "and", s, ("i", 65280)), ("i", 8))), num(("bin", "and", ("bin", "ashr", s, ("i", 8)), ("i", 255))))


@ref(SYSTEM, "dup")
def dup(o):
    A, = o.P
    a = o.eval(o.env, car(A))
    b = o.eval(o.env, car(cdr(A)))
    if not o.isa(a, NUM) or not o.isa(b, NUM, NIL):
        return o.open()
    if o.isnil(b):
        r = o.call("dup", int32(a), what="duplication of the descriptor")
    else:
        r = o.call("dup2", int32(a), int32(b), what="duplication of the first descriptor onto the second")
    return num(r) if good(o, r) else failed(o)


def has(o, name):
    return next((n for n, ev in enumerate(o.row.trace) if ev[0] == name), None)


def fdesc(o, t):
    return int32(t)


@ref(SYSTEM, "accept")
def accept(o):
    f, = o.P
    if not o.isa(f, NUM):
        return nil
    if not o.compare("sge", ("number", f), ("i", 0)):
        return nil
    n = has(o, "accept")
    if n is None:
        if o.compare("eq", ("number", f), ("i", 0)):
            o.fail("descriptor 0 is a descriptor to accept from")
        return o.open()
    r = o.call("accept", int32(f), ANY, ANY, what="accepting a connection on that descriptor")
    if not good(o, r):
        return nil
    if o.row.ret is None or o.norm(o.row.ret)[0] != "cons":
        o.fail("the new descriptor and its peer are to be returned, but the path returns %s" % (o.row.ret,))
    return cons(num(r), ANY)


@ref(SYSTEM, "listen")
def listen(o):
    p, = o.P
    if not o.isa(p, NUM):
        return nil
    if has(o, "socket") is None:
        return nil
    s = o.call("socket", ("i", 2), ("i", 1), ANY)
    if not good(o, s):
        return nil
    ok, done = True, False
    while ok:
        ev = o.peek()
        if ev is None:
            break
        if ev[0] not in ("setsockopt", "bind", "listen"):
            o.fail("unexpected %s" % ev[0])
        if ev[0] == "listen" and not done:
            o.fail("listening on a socket that is not bound")
        r = o.call(ev[0], s)
        done = done or ev[0] == "bind"
        ok = good(o, r)
        if ev[0] == "listen" and ok:
            return num(s)
    if ok:
        o.fail("the socket is not listened on")
    o.call("close", s, what="the socket to be closed after a failure")
    return nil


@ref(SYSTEM, "connect")
def connect(o):
    a, p = o.P
    if not o.isstring(a) or not o.isstring(p):
        return nil
    s = has(o, "socket")
    if s is None:
        return nil
    n = has(o, "getaddrinfo")
    if n is not None:
        ev = o.row.trace[n]
        ba, bp = text(o, a), text(o, p)
        if ba is None or bp is None or not o.same(ev[1], ba) or not o.same(ev[2], bp):
            o.fail("the given address and service are to be resolved, but the path does %s" % (ev,))
    s = ("r", s)
    if not good(o, s):
        o.i = len(o.row.trace)
        return nil
    n = has(o, "connect")
    o.i = len(o.row.trace)
    if n is None or not o.same(o.row.trace[n][1], s):
        return nil
    return num(s) if zero(o, ("r", n)) else nil


@ref(SYSTEM, "close")
def close(o):
    A, = o.P
    for n, ev in enumerate(o.row.trace):
        if ev[0] not in ("lisp_eval", "close") and any(o.same(x, A) for x in ev[1:] if isinstance(x, tuple)):
            if not any(o.same(x, o.env) for x in ev[1:] if isinstance(x, tuple)):
                return o.open()
            o.i = n + 1
            return bool_(o.truth(("r", n)))
    L, ok = A, True
    while not o.isnil(L):
        if not o.ispair(L):
            return o.open()
        v = o.eval(o.env, car(L), "evaluation of the next descriptor")
        if not o.isa(v, NUM):
            return o.open()
        r = o.call("close", int32(v), what="closing of that descriptor")
        ok = zero(o, r) and ok
        L = cdr(L)
    return bool_(ok)


def root(t):
    while t[0] in ("car", "cdr"):
        t = t[1]
    return t


def redirect(chan, std):
    def f(o):
        c, body = o.P
        n = has(o, "lisp_prog")
        d = has(o, "dup")
        p = has(o, "open")
        if d is not None:
            want = int32(c) if o.isa(c, NUM) else ("i", std)
            if not o.same(o.row.trace[d][1], want):
                o.fail("redirection to %s expected, but the path duplicates %s" % (want, o.row.trace[d][1]))
        for ev in o.row.trace:
            if ev[0] == "lisp_make_cstring" and root(o.norm(ev[1]))[0] == "L" and not o.same(ev[1], car(cdr(car(("L", "ichan"))))) \
                    and not o.same(ev[1], car(cdr(car(("L", "ochan"))))):
                o.fail("the directory of the current channel is expected to be read, but the path takes %s for its text" % show(ev[1]))
        if p is not None and o.row.trace[p][2][0] == "i" and (o.row.trace[p][2][1] & 3 == 0) != (std == 0):
            o.fail("a file opened for %s expected" % ("reading" if std == 0 else "writing"))
        s = has(o, "fdopen")
        if s is not None and o.isa(c, NUM, NIL) and (d is None or not o.same(o.row.trace[s][1], ("r", d))):
            if o.norm(o.row.trace[s][1])[0] in ("undef", "i", "number") \
                    or d is None and o.norm(o.row.trace[s][1]) == ("?",) and {e[0] for e in o.row.trace[:s]} <= {"getcwd"}:
                o.fail("a stream on a copy of the descriptor expected, but it is opened on %s" % (o.row.trace[s][1],))
        if s is not None and o.row.trace[s][2][0] == "str" and not {"r", "+"}.isdisjoint(o.row.trace[s][2][1]) != (std == 0) \
                and "+" not in o.row.trace[s][2][1]:
            o.fail("a stream opened for %s expected" % ("reading" if std == 0 else "writing"))
        if o.isa(c, NUM, NIL) and p is not None:
            o.fail("a descriptor is given, but the path opens a file")
        if p is not None:
            b = text(o, c)
            g = has(o, "lisp_get_fullpath")
            if b is None or g is None or not o.same(o.row.trace[g][3], b) or not o.same(o.row.trace[p][1], ("r", g)):
                o.fail("the file that the argument names is to be opened")
        if n is None:
            s = has(o, "fdopen")
            if s is not None and not o.truth(("cmp", "eq", ("r", s), ("null",))) and any(k == ("ne", ("r", s)) for k in o.row.conds):
                o.fail("the stream was opened, but the body is not evaluated")
            o.i = len(o.row.trace)
            return nil
        s = has(o, "fdopen")
        if s is None:
            return o.open()
        ev = o.row.trace[n]
        pushed = [e for e in o.row.trace[:n] if e[0] == "set" and e[1] == chan]
        if not pushed or not o.same(pushed[-1][2], cons(cons(num(("r", s)), ANY), ANY)) and car(car(o.norm(pushed[-1][2]))) != num(("r", s)):
            v = o.norm(car(car(pushed[-1][2]))) if pushed else None
            if v != num(("r", s)):
                o.fail("the body is to be evaluated with the opened stream as the current channel")
        if not o.match(ev, ("lisp_prog", LISP, o.env, body, nil)):
            o.fail("evaluation of the body in the caller's environment expected, but the path does %s" % (ev,))
        if any(e[0] in ("lisp_eval", "lisp_prog") for k, e in enumerate(o.row.trace) if k != n):
            o.fail("the body is to be evaluated once, and nothing else")
        o.i = len(o.row.trace)
        return ("r", n)
    return f


SYSTEM["in"] = redirect("ichan", 0)
SYSTEM["out"] = redirect("ochan", 1)


@ref(SYSTEM, "readline")
def readline(o):
    n = has(o, "__getdelim")
    if n is None:
        n = has(o, "getline")
    if n is None:
        return o.open()
    ev = o.row.trace[n]
    if ev[0] == "__getdelim" and ev[3] != ("i", 10):
        o.fail("a line ends at a newline")
    if not o.same(ev[-1], ("number", car(car(("L", "ichan"))))):
        o.fail("the line is to be read from the current input channel, but the path does %s" % (ev,))
    o.i = len(o.row.trace)
    r = ("r", n)
    if not good(o, r):
        return o.open()
    m = has(o, "lisp_make_string")
    if m is None:
        o.fail("the line read is to be returned")
    e = o.row.trace[m]
    if not o.same(e[2], ("field", 0, ev[1])):
        o.fail("the text read is to be returned, but the path does %s" % (e,))
    less = [("bin", "sub", r, ("i", 1)), ("bin", "add", r, ("i", -1))]
    nl = None
    for (w, u), v in o.row.conds.items():
        if u[0] == "byte" and u[1][0] == "el" and o.norm(u[1][2]) in [o.norm(x) for x in less] and u[1][3:] == (1, 0) or \
                u[0] == "byte" and u[1][0] == "el" and u[1][2] == r and u[1][3:] == (1, -1):
            if w == "eq":
                nl = v == 10
            elif w == "ne" and 10 in v:
                nl = False
            elif w == "ne" and nl is None:
                nl = "?"
    if o.same(e[3], r):
        if o.compare("sgt", r, ("i", 0)) and nl in (True, "?"):
            o.fail("a line is returned with its newline")
    elif o.same(e[3], ("anyof",) + tuple(less)):
        if nl in (False, "?"):
            o.fail("the last character is dropped although it need not be a newline")
    elif e[3][0] == "bin" and e[3][1] in ("sub", "add") and e[3][2] == r and e[3][3][0] == "i":
        o.fail("at most the newline is dropped from a line, but the path keeps %s characters of it" % show(e[3]))
    else:
        return o.open()
    return ("r", m)


@ref(SYSTEM, "read")
def read(o):
    r = o.call("lisp_read", LISP)
    # nothing was read: NIL; a value was read: that value.  A path does not
    # record which of the two it is.
    return nil if o.row.ret is not None and o.norm(o.row.ret) == nil else r


@ref(SYSTEM, "quit")
def quit(o):
    return o.open()
