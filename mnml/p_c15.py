"""C15: printing emits every part of a value, in order, readable back"""
from . import front, lin
from .contracts import KEEP
from .lin import add, const, isconst, var
from .p_c14 import show
from .report import Finding, Outcome

KINDS = ("T_NIL", "T_TRUE", "T_CHAR", "T_NUMBER", "T_PAIR", "T_SYMBOL", "T_WILDCARD")


class Printer(lin.Run):
    """path summary of a function that writes to a buffered stream"""

    def __init__(self, prog, f, printers):
        super().__init__(f, budget=60000)
        self.prog, self.printers = prog, printers
        self.n_ev = 0

    def ev(self, st, *e):
        st.events.append(e)

    def data(self, st, op, a, n, x):
        """what a piece of memory of length n holds"""
        k = isconst(n)
        s = self.prog.string(op)
        if s is not None:
            if k is None:
                if n[1] and len(n[1]) == 1 and n[1][0][0][0] == "strlen":
                    return ("text", s)
                raise lin.Unsure("length of a text at %s" % x.loc())
            return ("text", s[:k]) if k <= len(s) else ("over", s, k)
        if k is not None:
            L = []
            for i in range(k):
                v = self.load(st, add(a, const(i)), 1, x)
                c = isconst(v)
                L.append(chr(c & 255) if c is not None else v)
            if all(isinstance(c, str) for c in L):
                return ("text", "".join(L))
            if k == 1:
                return ("char", L[0])
            if isinstance(L[0], str) and k == 2:
                return ("textchar", L[0], L[1])
            raise lin.Unsure("bytes at %s" % x.loc())
        return ("mem", a, n)

    def call(self, x, st):
        c = x.callee
        args = [self.val(st, a) for a in x.a]
        new = var(("res", x.i))
        if c == "fwrite":
            size = isconst(args[1]), isconst(args[2])
            n = lin.mul(args[2], size[0]) if size[0] is not None else lin.mul(args[1], size[1]) if size[1] is not None else None
            if n is None:
                raise lin.Unsure("size of fwrite at %s" % x.loc())
            d = None
            if self.base(args[0]) is None or self.prog.string(x.a[0]) is not None:
                d = self.data(st, x.a[0], args[0], n, x)
            self.ev(st, "out", args[0], n, args[3], d, x.loc())
            st.env[x.i] = new
        elif c in ("putc", "fputc", "_IO_putc"):
            v = isconst(args[0])
            self.ev(st, "out", None, const(1), args[1], ("text", chr(v & 255)) if v is not None else ("char", args[0]), x.loc())
            st.env[x.i] = new
        elif c == "fputs":
            s = self.prog.string(x.a[0])
            if s is None:
                raise lin.Unsure("text of fputs at %s" % x.loc())
            self.ev(st, "out", None, const(len(s)), args[1], ("text", s), x.loc())
            st.env[x.i] = new
        elif c and (c in ("memcpy", "memmove", "mempcpy") or c.startswith(("llvm.memcpy", "llvm.memmove"))):
            self.ev(st, "put", args[0], args[2], self.data(st, x.a[1], args[1], args[2], x), x.loc())
            st.env[x.i] = args[0]
        elif c in ("sprintf", "snprintf"):
            k = 1 if c == "sprintf" else 2
            self.ev(st, "format", args[0], self.prog.string(x.a[k]), tuple(args[k + 1:]), new)
            st.env[x.i] = new
        elif c == "strlen":
            s = self.prog.string(x.a[0])
            st.env[x.i] = const(len(s)) if s is not None else var(("strlen", args[0]))
        elif c == "strnlen":
            st.env[x.i] = var(("strnlen", args[0], args[1]))
        elif c in self.printers:
            self.ev(st, "print", c, tuple(args), new, x.loc())
            st.env[x.i] = new
        else:
            return super().call(x, st)

    def base(self, a):
        """offset from the stream buffer"""
        b = self.buf
        if dict(a[1]).get(b) == 1:
            return add(a, var(b), -1)
        return None

    def write(self, st, addr, size, v, x):
        if self.base(addr) is not None:
            if size != 1:
                raise lin.Unsure("write at %s" % x.loc())
            c = isconst(v)
            self.ev(st, "put", addr, const(1), ("text", chr(c & 255)) if c is not None else ("char", v), x.loc())
            return
        super().write(st, addr, size, v, x)


class Bad(Exception):
    def __init__(self, loc, subject, text):
        super().__init__(text)
        self.loc, self.subject, self.text = loc, subject, text


def field(a, off, n):
    return var(("ld", add(a, const(off)), n))


class Judge:
    def __init__(self, K, run, kind, value, st, root):
        self.K, self.run, self.st = K, run, st
        self.value, self.root = value, root
        if root:
            self.handle = None
            self.pos, self.cell, self.s = const(0), var(("v", 1)), var(("v", 2))
        else:
            self.handle, self.pos, self.cell, self.s = var(("v", 0)), var(("v", 2)), var(("v", 3)), var(("v", 4))

    # -- what the path knows
    def truth(self, v):
        """value of a truth the path has decided"""
        c = self.run.cond(self.st, v)
        return self.run.decide(self.st, c)

    def kinds(self, cell):
        t = field(cell, self.K["TYPE"], 2)
        out = set()
        for k in KINDS:
            if self.run.decide(self.st, ("eq", t, const(self.K[k]))) is not False:
                out.add(k)
        for k in KINDS:
            if self.run.decide(self.st, ("eq", t, const(self.K[k]))) is True:
                return {k}
        return out

    def empty(self):
        """is the buffer known to hold nothing?"""
        d = self.pos
        return d == const(0) or any(p in ("eq", "ule") and add(a, b, -1) == d or p == "ult" and add(add(a, b, -1), const(1)) == d
                                    or p in ("eq", "uge") and add(b, a, -1) == d or p == "ugt" and add(add(b, a, -1), const(1)) == d
                                    for p, a, b in self.st.conds)

    # -- the text written, with the position in the buffer followed along
    def pieces(self):
        out = []
        formats = {}
        for e in self.st.events:
            if e[0] == "format":
                formats[repr(e[1])] = e
            elif e[0] == "out":
                _, a, n, h, d, loc = e
                if self.handle is not None and h != self.handle:
                    raise Bad(loc, "stream", "output goes to %s, not to the stream that was given" % show(h))
                self.handle = h
                o = self.run.base(a) if a is not None else None
                if o is None:
                    if not self.empty():
                        raise Bad(loc, "order", "text is written to the stream while %s bytes before it are still in the buffer" % show(self.pos))
                    out.append(self.name(d, n, formats, loc))
                    continue
                if isconst(o) != 0:
                    raise Bad(loc, "flush", "the buffer is written from byte %s on" % show(o))
                if n != self.pos:
                    raise Bad(loc, "flush", "%s bytes of the buffer are written, which holds %s" % (show(n), show(self.pos)))
                self.pos = const(0)
            elif e[0] == "put":
                _, a, n, d, loc = e
                o = self.run.base(a)
                if o is None:
                    continue
                if o != self.pos:
                    raise Bad(loc, "position", "text is put at %s of the buffer, which holds %s bytes: %s" %
                              (show(o), show(self.pos), "what was there is lost" if True else ""))
                out.append(self.name(d, n, formats, loc))
                self.pos = add(self.pos, n)
            elif e[0] == "print":
                _, fn, args, res, loc = e
                if self.run.base(args[1]) is None or isconst(self.run.base(args[1])) != 0:
                    raise lin.Unsure("printer called with another buffer")
                if self.handle is not None and args[0] != self.handle:
                    raise Bad(loc, "stream", "a part goes to %s, not to the stream that was given" % show(args[0]))
                self.handle = args[0]
                if args[2] != self.pos:
                    raise Bad(loc, "position", "a part is printed from %s of the buffer on, which holds %s bytes" % (show(args[2]), show(self.pos)))
                self.pos = res
                out.append(("print", fn, args[3], args[4], loc))
        merged = []
        for p in out:
            if p[0] == "text" and merged and merged[-1][0] == "text":
                merged[-1] = ("text", merged[-1][1] + p[1])
            elif p != ("text", ""):
                merged.append(p)
        return merged

    def name(self, d, n, formats, loc):
        if d[0] == "over":
            raise Bad(loc, "length", "%d bytes are taken of the text %r" % (d[2], d[1]))
        if d[0] == "mem":
            a, n = d[1], d[2]
            f = formats.get(repr(a))
            if f is not None:
                if n not in (var(("strlen", a)), f[4]):
                    raise lin.Unsure("length of a formatted number")
                if f[2] in ("%ld", "%lld", "%li") and f[3] == (field(self.cell, self.K["NUMBER"], 8),):
                    return ("number",)
                if f[2] and f[2].startswith("%") and f[3] == (field(self.cell, self.K["NUMBER"], 8),):
                    raise Bad(loc, "number", "a number is printed with the format %s, not as a signed decimal of its full size" % f[2])
                raise lin.Unsure("format %s" % f[2])
            if a == add(self.cell, const(self.K["SYMBOL"])):
                if n == var(("strnlen", a, const(self.K["SYMLEN"]))):
                    return ("symbol",)
                raise Bad(loc, "symbol", "a symbol is printed over %s bytes, not over the length of its text" % show(n))
            raise lin.Unsure("text at %s" % loc)
        if d[0] == "char":
            if d[1] in (field(self.cell, self.K["NUMBER"], 1), field(self.cell, self.K["NUMBER"], 8)):
                return ("char",)
            raise lin.Unsure("character %s" % show(d[1]))
        if d[0] == "textchar":
            raise lin.Unsure("bytes at %s" % loc)
        return d

    def charval(self):
        """what is known of the character: (values it may be, values it is not)"""
        yes, no = set(), set()
        for p, a, b in self.st.conds:
            if a in (field(self.cell, self.K["NUMBER"], 1), field(self.cell, self.K["NUMBER"], 8)) and isconst(b) is not None:
                if p == "eq":
                    yes.add(isconst(b) & 255)
                elif p == "ne":
                    no.add(isconst(b) & 255)
        return yes, no


ESCAPED = {27: "e", 10: "n", 13: "r", 9: "t", 92: "\\"}


def atom(J, P, roles, escapes, out):
    """compare the pieces of a printer of one value"""
    ks = J.kinds(J.cell)
    if len(ks) != 1:
        if not ks:
            return                      # not a value
        raise lin.Unsure("kind not decided")
    k = next(iter(ks))
    s = J.truth(J.s)
    for s in ([s] if s is not None else [True, False]):
        out.count("cases")
        want = None
        if k == "T_NIL":
            want = [("text", "NIL")] if s else []
        elif k == "T_TRUE":
            want = [("text", "T")]
        elif k == "T_WILDCARD":
            want = [("text", "_")]
        elif k == "T_NUMBER":
            want = [("number",)]
        elif k == "T_SYMBOL":
            want = [("symbol",)]
        elif k == "T_CHAR":
            yes, no = J.charval()
            if not s:
                want = [("char",)]
            elif yes:
                c = next(iter(yes))
                good = [[("text", "^" + chr(c))]] if c not in ESCAPED and 32 <= c < 127 else []
                good += [[("text", "^\\" + e)] for e, v in escapes.items() if v == c]
                good += [[("text", "^"), ("char",)]] if c != 92 else []
                if P not in good:
                    back = [e for e, v in escapes.items() if P == [("text", "^\\" + e)]]
                    raise Bad(J.st.loc, "character %d" % c, "the character with code %d is printed as %s, which the reader %s" %
                              (c, text(P), "reads as code %d" % escapes[back[0]] if back else "does not read as that character"))
                continue
            else:
                if ("text", "^") in P[:1] and len(P) == 2 and P[1] == ("char",):
                    if 92 not in no:
                        raise Bad(J.st.loc, "character 92", "the backslash character is printed as itself after ^, where the reader takes it for the start of an escape")
                    continue
                want = [("text", "^"), ("char",)]
        elif k == "T_PAIR":
            mid = [p for p in P if p[0] == "print"]
            if len(mid) == 1 and mid[0][2] == J.cell and roles.get(mid[0][1]) == "rest":
                follow(J, mid[0], s)
                want = ([("text", "(")] if s else []) + mid + ([("text", ")")] if s else [])
            elif len(P) and P[0] == ("text", "(") and len(mid) >= 1 and s:
                rest(J, P[1:-1] if P[-1:] == [("text", ")")] else P[1:], roles, out, s)
                if P[-1][0] != "text" or not P[-1][1].endswith(")"):
                    want = [("text", "("), ("parts",), ("text", ")")]
                else:
                    continue
            else:
                want = ([("text", "(")] if s else []) + [("parts",)] + ([("text", ")")] if s else [])
        if P != want:
            raise Bad(J.st.loc, k, "%s is printed as %s, expected %s" % ({"T_NIL": "NIL", "T_TRUE": "T", "T_WILDCARD": "the wildcard", "T_NUMBER": "a number",
                                   "T_SYMBOL": "a symbol", "T_CHAR": "a character", "T_PAIR": "a list"}[k] + (" in quoted form" if s else ""), text(P), text(want)))


def follow(J, p, s):
    v = p[3]
    if v == J.s or isconst(v) == int(s):
        return
    t = J.truth(v) if not (v and v[0] == "cond") else None
    if t is not None and bool(t) == bool(s):
        return
    if isconst(v) is not None:
        raise Bad(p[4], "form", "a part is printed in the %s form inside a value printed in the %s form" %
                  ("quoted" if isconst(v) else "plain", "quoted" if s else "plain"))
    raise lin.Unsure("form of a part")


def rest(J, P, roles, out, s0=None):
    """compare the pieces of a printer of the elements of a pair"""
    car, cdr = field(J.cell, J.K["CAR"], 8), field(J.cell, J.K["CDR"], 8)
    s = J.truth(J.s)
    ks = J.kinds(cdr)
    for s in ([s] if s is not None else [True, False]):
        out.count("cases")
        if not P or P[0][0] != "print":
            raise Bad(J.st.loc, "first", "the first element of a list is not printed first, but %s" % text(P))
        p = P[0]
        if roles.get(p[1]) != "atom" or p[2] != car:
            if p[2] == cdr:
                raise Bad(p[4], "first", "the rest of a list is printed before its first element")
            raise lin.Unsure("first part")
        follow(J, p, s)
        R = P[1:]
        if ks == {"T_NIL"}:
            want = []
        elif ks == {"T_PAIR"}:
            want = ([("text", " ")] if s else []) + [("print", "rest", cdr)]
        elif "T_PAIR" not in ks and "T_NIL" not in ks:
            want = ([("text", " . ")] if s else []) + [("print", "atom", cdr)]
        elif "T_NIL" not in ks and not s and len(R) == 1 and roles.get(R[0][1]) == "atom":
            want = [("print", "atom", cdr)]         # without marks a list and its elements read the same
        else:
            if R:
                raise Bad(J.st.loc, "rest", "after the first element %s is printed, without knowing whether what follows is a list, a value or nothing" % text(R))
            raise Bad(J.st.loc, "rest", "what follows the first element is not printed")
        got = [("print", roles.get(q[1]), q[2]) if q[0] == "print" else q for q in R]
        for q in R:
            if q[0] == "print":
                follow(J, q, s)
        if got != want:
            raise Bad(J.st.loc, "rest", "after the first element of a list %s is printed, expected %s" % (text(R), text(want)))


def text(P):
    L = []
    for p in P or []:
        L.append(repr(p[1]) if p[0] == "text" else "its %s" % p[0] if p[0] in ("number", "symbol", "char") else
                 "its elements" if p[0] == "parts" else "%s(%s)" % (p[1], show(p[2])))
    return " ".join(L) or "nothing"


def escapes_of_reader(out):
    from . import reader
    return reader.escapes(out)


def run(tier):
    out = Outcome("Path summaries, over linear forms, of the functions that print a value: the position in the output buffer is followed from every piece of text "
                  "and every flush to the next, the text of each path is compared with the text of the kind of value the path is about; escapes are compared with "
                  "those the scanner accepts.",
                  ["the buffer is large enough for any single piece: C08", "a printer that loops over the elements instead of recurring is not judged",
                   "characters outside the printable ones and the escaped ones are not judged"])
    K = front.consts()
    try:
        escapes = escapes_of_reader(out)
    except Exception as ex:
        out.undecided["escapes of the reader"] = str(ex)
        escapes = {"e": 27, "n": 10, "r": 13, "t": 9, "\\": 92}
    for cfg in ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"):
        prog = front.program("core", KEEP, cfg)
        root = prog.functions.get("lisp_prin")
        if root is None:
            out.undecided["lisp_prin (%s)" % cfg] = "no such function"
            continue
        fs, todo = {}, [c.callee for c in root.calls()]
        while todo:
            n = todo.pop()
            f = prog.functions.get(n)
            if f is None or n in fs or f.file != root.file:
                continue
            if [p[2] for p in f.params] != ["ptr", "ptr", "i64", "ptr", "i1"]:
                out.undecided["%s (%s)" % (n, cfg)] = "not a printer of the known form"
                continue
            fs[n] = f
            todo += [c.callee for c in f.calls()]
        tops = {c.callee for c in root.calls() if c.callee in fs}
        roles = {n: "atom" if n in tops else "rest" for n in fs}
        for n, f in [("lisp_prin", root)] + sorted(fs.items()):
            r = Printer(prog, f, fs)
            if n == "lisp_prin":
                r.buf = next((("res", x.i) for x in f.insts() if x.o == "alloca" and "i8" in (x.rt or x.ety or x.ty or "[1024 x i8]")), None)
            else:
                r.buf = ("v", 1)
            try:
                ends = r.go()
            except lin.Unsure as ex:
                out.undecided["%s (%s)" % (n, cfg)] = str(ex)
                continue
            out.count("functions")
            for kind, value, st in ends:
                if kind != "ret":
                    continue
                out.count("paths")
                J = Judge(K, r, kind, value, st, n == "lisp_prin")
                try:
                    P = J.pieces()
                    out.count("pieces of text", len(P))
                    if n == "lisp_prin":
                        if len(P) != 1 or P[0][0] != "print" or P[0][2] != J.cell:
                            raise Bad(st.loc, "value", "printing a value prints %s" % text(P))
                        if J.truth(P[0][3]) is None and P[0][3] != J.s or isconst(P[0][3]) is not None:
                            raise Bad(st.loc, "form", "the form asked for is not passed on")
                        if not J.empty():
                            raise Bad(st.loc, "flush", "%s bytes stay in the buffer when printing ends" % show(J.pos))
                        continue
                    if value != J.pos:
                        raise Bad(st.loc, "position", "returns %s as the length of the buffer, which holds %s bytes: %s" %
                                  (show(value), show(J.pos), "output already produced is dropped" if isconst(value) == 0 else "text is lost or repeated"))
                    (atom(J, P, roles, escapes, out) if roles[n] == "atom" else rest(J, P, roles, out))
                except lin.Unsure as ex:
                    out.undecided["%s %s %s" % (n, st.loc, cfg)] = str(ex)
                except Bad as b:
                    out.add(Finding("C15", "print", "%s (%s)" % (n, f.relfile()), b.loc or st.loc or "", b.subject,
                                    "%s: %s; on the path where %s" % (n, b.text, " and ".join("%s %s %s" % (show(a), p, show(c)) for p, a, c in st.conds) or "always")))
            out.sample("%s (%s): %d paths, position and text of every piece agree" % (n, cfg, len(ends)))
    out.need("paths", 1)
    return out
