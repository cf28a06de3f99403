"""C12: symbols are 16 zero-padded bytes.

Typestate of bytes: every local or heap buffer is followed byte by byte (zero, text, not set, anything), along every path;
what becomes a symbol has all its bytes set, what is read without a bound has a terminator, and the bytes of a symbol are
compared and read over their full size and no further."""
import re
from . import absint, front, reader
from .absint import Engine, Giveup, NULL, State, addr, mkptr, roots_of
from .contracts import KEEP
from .p_c01 import GROUPS
from .report import Finding, Outcome

N = 48              # bytes followed of each buffer
# calls whose argument is a whole symbol
SYMBOL = {"lisp_make_symbol": 1, "lisp_tree_get": 2, "lisp_tree_rem": 2, "lisp_symbol_match": 1, "lisp_symbol_compare": 1}
# read up to a terminator: argument numbers
CSTR = {"strlen": (0,), "strcpy": (1,), "stpcpy": (1,), "strcat": (0, 1), "strcmp": (0, 1), "strcasecmp": (0, 1), "strdup": (0,), "strchr": (0,), "strrchr": (0,),
        "strstr": (0, 1), "strpbrk": (0, 1), "strspn": (0, 1), "strcspn": (0, 1), "puts": (0,), "fputs": (0,), "atoi": (0,), "atol": (0,), "atoll": (0,), "strtol": (0,),
        "strtoll": (0,), "strtoul": (0,), "strtoull": (0,), "open": (0,), "fopen": (0, 1), "getenv": (0,), "dlopen": (0,), "dlsym": (1,), "stat": (0,), "unlink": (0,),
        "opendir": (0,), "perror": (0,), "strcoll": (0, 1)}
# take the name of something from a buffer
NAMES = {"unlink": (0,), "open": (0,), "open64": (0,), "openat": (1,), "fopen": (0,), "dlopen": (0,), "opendir": (0,), "realpath": (0,), "getaddrinfo": (0, 1),
         "execve": (0,), "execv": (0,), "stat": (0,), "lisp_load_file": (1,), "lisp_get_fullpath": (1, 2), "inet_pton": (1,), "getenv": (0,)}
# read a given number of bytes: (argument, count)
BOUNDED = {"strnlen": ((0, 1),), "memcmp": ((0, 2), (1, 2)), "bcmp": ((0, 2), (1, 2)), "strncmp": ((0, 2), (1, 2)), "strncasecmp": ((0, 2), (1, 2)),
           "memcpy": ((1, 2),), "memmove": ((1, 2),), "mempcpy": ((1, 2),), "strncpy": ((1, 2),), "stpncpy": ((1, 2),), "strndup": ((0, 1),), "memchr": ((0, 2),), "write": ((1, 2),),
           "lisp_make_string": ((1, 2),), "lisp_make_symbol_from_string": ((1, 2),)}
COMPARE = {"memcmp", "bcmp", "strncmp", "strncasecmp"}
PRINTF = {"printf": 0, "fprintf": 1, "dprintf": 1, "sprintf": 1, "snprintf": 2, "__sprintf_chk": 3, "__snprintf_chk": 4, "__printf_chk": 1, "__fprintf_chk": 2}
SPEC = re.compile(r"%[-+ #0]*(\*|\d+)?(?:\.(\*|\d+)?)?(?:hh|h|ll|l|z|j|t|L)?([a-zA-Z%])")
CHK = {"__strncpy_chk": "strncpy", "__strcpy_chk": "strcpy", "__memcpy_chk": "memcpy", "__memset_chk": "memset", "__strcat_chk": "strcat"}
QUIET = {"free", "lisp_make_number", "llvm.dbg.value", "llvm.dbg.declare", "lisp_make_nil", "lisp_incref", "lisp_decref", "lisp_deallocate", "lisp_cons", "lisp_car", "lisp_cdr"}


class Bytes(absint.Plugin):
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.K = front.consts()
        self.S, self.L = self.K["SYMBOL"], self.K["SYMLEN"]
        self.found, self.made, self.compared, self.read, self.odd = {}, set(), set(), set(), {}
        self.exits = 0
        self.unset, self.named = {}, set()

    def report(self, rule, x, subject, text):
        f = Finding("C12", rule, "%s (%s)" % (self.fn.name.split(".")[0], self.fn.relfile()), x.loc(), subject, text)
        self.found.setdefault(f.key(), f)

    # -- what is known of a buffer -------------------------------------------
    def alloc(self, st, r):
        """size of the buffer, None when it is not one of the function's own"""
        if r[0] == "al" or r[0] == "v":
            d = self.fn.defs.get(r[1])
            if d is None:
                return None
            if d.o == "alloca":
                return d.sz * d.a[0][1] if d.a and d.a[0][0] == "i" else None
            if d.o == "call" and d.callee in ("malloc", "calloc") and st is not None:
                a = d.a[0] if d.callee == "malloc" else d.a[1]
                n = a[1] if a[0] == "i" else None
                if n is not None and d.callee == "calloc":
                    n = n * d.a[0][1] if d.a[0][0] == "i" else None
                return n
        return None

    def own(self, st, r):
        return self.alloc(st, r) is not None

    def get(self, st, r):
        k = ("by", r)
        if k in st.x:
            return st.x[k]
        d = self.fn.defs.get(r[1])
        n = min(N, self.alloc(st, r))
        return ("0" if d is not None and d.o == "call" and d.callee == "calloc" else "?") * n

    def put(self, st, r, off, s):
        b = self.get(st, r)
        if off < 0 or off >= len(b):
            return
        s = s[:len(b) - off]
        st.x[("by", r)] = b[:off] + s + b[off + len(s):]

    def blur(self, st, r):
        if self.own(st, r):
            st.x[("by", r)] = "u" * min(N, self.alloc(st, r))

    # -- what becomes a symbol -------------------------------------------------
    def symbol(self, st, x, v, how):
        a = addr(v)
        if not a or v == NULL:
            return
        r, off = a
        if not self.own(st, r):
            return
        self.made.add((x.f, x.l))
        n = self.alloc(st, r)
        if n - off < self.L:
            self.report("size", x, how, "%s is given a buffer of %d bytes as a symbol of %d" % (how, n - off, self.L))
            return
        b = self.get(st, r)[off:off + self.L]
        if "?" in b:
            self.report("padding", x, how, "%s is given a symbol whose bytes %d and following are not set on this path" % (how, b.index("?")))
        elif "g" in b:
            self.report("padding", x, how, "%s is given a symbol whose bytes after the text are not zero" % how)

    def terminated(self, st, x, v, nm):
        """the text is read up to its terminator"""
        a = addr(v)
        if not a or v == NULL:
            return
        r, off = a
        if self.own(st, r):
            b = self.get(st, r)[max(off, 0):]
            self.read.add((x.f, x.l))
            for c in b:
                if c in "0ug":
                    return
                if c == "?":
                    if "t" in b:
                        self.report("terminator", x, nm, "%s reads a text up to its terminator, but the byte after it is not set" % nm)
                    return
            if self.alloc(st, r) <= N and "t" in b:
                self.report("terminator", x, nm, "%s reads a text up to its terminator, which a text that fills its buffer has not" % nm)

    def insymbol(self, st, o, v, depth=0):
        """offset into the bytes of a cell's symbol, or None"""
        a = addr(v)
        if not a or self.own(st, a[0]) or a[0][0] in ("al", "g"):
            return None
        if o[0] != "v" or depth > 6:
            return None
        d = self.fn.defs.get(o[1])
        if d is None:
            return None
        if d.o == "gep" and self.S <= a[1] < self.S + self.L:
            if d.st and d.st[0] in ("struct.atom", "union.symbol", "struct.symbol") or self.K.get("x"):
                return a[1] - self.S
            return self.insymbol(st, d.a[0], v, depth + 1)
        if d.o == "gep" and a[1] >= self.S:
            return self.insymbol(st, d.a[0], v, depth + 1)
        if d.o == "phi":
            rs = {self.insymbol(st, i[0], v, depth + 1) for i in d.inc}
            return rs.pop() if len(rs) == 1 else None
        if d.o in ("bitcast", "freeze"):
            return self.insymbol(st, d.a[0], v, depth + 1)
        if d.o == "call" and d.callee == "lisp_get_symbol":
            return 0
        return None

    def count(self, st, v):
        """(exact, least, most)"""
        if v[0] == "i":
            return v[1], v[1], v[1]
        e = st.facts.get(("eq", v))
        if e is not None:
            return e, e, e
        lo, hi = st.facts.get(("rng", v), (None, None))
        m = st.x.get(("max", v))
        if m is not None and (hi is None or m < hi):
            hi = m
        return None, lo, hi

    def literal(self, v):
        """text of a constant string"""
        if v[0] == "g":
            s = self.prog.strings.get(v[1]) if hasattr(self.prog, "strings") else None
            if s is None:
                try:
                    s = self.prog.string(["g", v[1]])
                except Exception:
                    s = None
            return s
        return None

    def life(self, e, st, x):
        """a local begins or ends to exist: nothing is known of its bytes"""
        a = addr(e.val(st, x.a[1])) if len(x.a) > 1 else None
        if a:
            st.x.pop(("by", a[0]), None)
            st.x.pop(("symtext", a[0]), None)

    # -- hooks -----------------------------------------------------------------
    def ret(self, e, st, x):
        self.exits += 1

    def store(self, e, st, x, root, off, cl, v):
        n = x.sz or e.size(e.optype(x.a[0], v))
        if self.own(st, root):
            zero = x.a[0][0] in ("z", "n") or v == ("i", 0) or v == NULL
            b = self.get(st, root)
            if n == 1 and not zero and 0 <= off < len(b):
                self.put(st, root, off, "u")
            else:
                self.put(st, root, off, ("0" if zero else "u") * n)

    def wildstore(self, e, st, x, v):
        for r in roots_of(e.val(st, x.a[1]), set()):
            if r[0] in ("al", "v"):
                self.blur(st, r)

    def call(self, e, st, x):
        nm = x.callee or ""
        args = [e.val(st, a) for a in x.a]
        if nm.startswith("llvm.dbg"):
            return None
        if nm.startswith("llvm.x86.sse41.ptest"):
            self.vector(e, st, x)
            return None
        nm = CHK.get(nm, nm)
        for p in ("memset", "memcpy", "memmove"):
            if nm.startswith("llvm." + p):
                nm = p
        if nm in SYMBOL and len(args) > SYMBOL[nm]:
            self.symbol(st, x, args[SYMBOL[nm]], nm)
        if nm == "Parse" and len(args) > 2:
            a = addr(args[2])
            if a and self.own(st, a[0]) and self.alloc(st, a[0]) == self.L:
                self.symbol(st, x, args[2], nm)
        self.reads(e, st, x, nm, args)
        res = None
        done = self.writes(e, st, x, nm, args)
        if not done and nm not in CSTR and nm not in BOUNDED and nm not in PRINTF and nm not in QUIET and nm not in SYMBOL:
            for a in args:
                r = addr(a)
                if r and a != NULL and r[0][0] in ("al", "v"):
                    self.blur(st, r[0])
        if x.t == "void":
            return [st]
        v = e.mk(st, x)
        st.env[x.i] = v
        if nm in ("strncpy", "strcpy", "memcpy", "strcat", "memset", "memmove") and x.t == "ptr":
            st.env[x.i] = args[0]
        if nm == "strnlen":
            n = self.count(st, args[1])[0]
            if n is not None:
                st.x[("max", v)] = n
        return [st]

    # -- reading ------------------------------------------------------------------
    def reads(self, e, st, x, nm, args):
        for i in NAMES.get(nm, ()):
            a = addr(args[i]) if i < len(args) and args[i] != NULL else None
            if a and a[0][0] == "al" and self.own(st, a[0]):
                self.named.add((x.f, x.l))
                if a[1] == 0 and set(self.get(st, a[0])) == {"?"}:
                    f = Finding("C25", "unset name", "%s (%s)" % (self.fn.name.split(".")[0], self.fn.relfile()), x.loc(), "%s(%d)" % (nm, i),
                                "%s takes a name from a buffer that nothing was written to on this path" % nm)
                    self.unset.setdefault(f.key(), f)
        if nm in CSTR:
            for i in CSTR[nm]:
                if i < len(args):
                    if self.insymbol(st, x.a[i], args[i]) is not None:
                        self.read.add((x.f, x.l))
                        self.report("unbounded", x, nm, "%s reads the text of a symbol up to a terminator, which a symbol of full length has not" % nm)
                    else:
                        self.terminated(st, x, args[i], nm)
        elif nm in BOUNDED:
            for i, c in BOUNDED[nm]:
                if i >= len(args):
                    continue
                off = self.insymbol(st, x.a[i], args[i])
                a = addr(args[i])
                if nm in COMPARE and x.a[c][0] == "v" and a and ("symtext", a[0]) in st.x and a[1] == 0:
                    d = self.fn.defs.get(x.a[c][1])
                    if d is not None and d.o == "call" and d.callee in ("strlen", "strnlen"):
                        self.compared.add((x.f, x.l))
                        self.report("bound", x, nm, "%s compares the text of a symbol over the length of one side only: a prefix is taken as the same" % nm)
                if off is None and not (nm in COMPARE and a and args[i] != NULL and self.own(st, a[0]) and self.other(st, x, args, i, nm)):
                    continue
                n, lo, hi = self.count(st, args[c])
                if nm in COMPARE and off is not None and x.a[c][0] == "v":
                    d = self.fn.defs.get(x.a[c][1])
                    if d is not None and d.o == "call" and d.callee in ("strlen", "strnlen"):
                        self.report("bound", x, nm, "%s looks only at as many bytes of a symbol as the other text has: a prefix is taken as the same" % nm)
                        continue
                (self.compared if nm in COMPARE else self.read).add((x.f, x.l))
                if off is None:
                    self.symbol(st, x, args[i], nm)
                    continue
                if n is not None and n > self.L - off or lo is not None and lo > self.L - off:
                    self.report("bound", x, nm, "%s reads %d bytes of the text of a symbol, which has %d" % (nm, n if n is not None else lo, self.L - off))
                elif off == 0 and (n is not None and n < self.L or hi is not None and hi < self.L) and not (n == 0):
                    self.report("bound", x, nm, "%s looks at the first %d bytes of a symbol only: symbols that differ after them are taken as the same"
                                % (nm, n if n is not None else hi) if nm in COMPARE else
                                "%s reads at most %d bytes of the text of a symbol, and drops the rest" % (nm, n if n is not None else hi))
        elif nm in PRINTF:
            self.printed(e, st, x, nm, args)
        elif nm == "fwrite":
            off = self.insymbol(st, x.a[0], args[0])
            if off is not None:
                a, b = self.count(st, args[1])[0], self.count(st, args[2])[0]
                if a is not None and b is not None and a * b > self.L - off:
                    self.report("bound", x, nm, "fwrite reads %d bytes of the text of a symbol" % (a * b))

    def other(self, st, x, args, i, nm):
        """is the other side of the comparison the text of a symbol?"""
        return any(j != i and self.insymbol(st, x.a[j], args[j]) is not None for j, _ in BOUNDED[nm])

    def printed(self, e, st, x, nm, args):
        f = PRINTF[nm]
        if f >= len(args):
            return
        s = self.literal(args[f])
        if s is None:
            return
        n = f + 1
        for m in SPEC.finditer(s):
            w, p, c = m.groups()
            if c == "%":
                continue
            if w == "*":
                n += 1
            prec = None
            if "." in m.group(0):
                if p == "*":
                    prec = self.count(st, args[n])[2] if n < len(args) else None
                    bounded = True
                    n += 1
                else:
                    prec, bounded = int(p or 0), True
            else:
                bounded = False
            if n >= len(args):
                return
            if c == "s":
                off = self.insymbol(st, x.a[n], args[n])
                if off is not None:
                    self.read.add((x.f, x.l))
                    if not bounded:
                        self.report("unbounded", x, nm, "%s prints the text of a symbol up to a terminator, which a symbol of full length has not" % nm)
                    elif prec is not None and prec > self.L - off:
                        self.report("bound", x, nm, "%s prints up to %d bytes of the text of a symbol" % (nm, prec))
                elif not bounded:
                    self.terminated(st, x, args[n], nm)
            n += 1

    # -- writing ------------------------------------------------------------------
    def writes(self, e, st, x, nm, args):
        """True when the effect on the buffers is known"""
        if nm not in ("memset", "bzero", "strncpy", "stpncpy", "memcpy", "memmove", "mempcpy", "strcpy", "stpcpy", "strcat", "strncat", "sprintf", "snprintf"):
            return False
        a = addr(args[0])
        if not a or args[0] == NULL:
            for r in roots_of(args[0], set()):
                if r[0] in ("al", "v"):
                    self.blur(st, r)
            return True
        r, off = a
        if nm in ("memcpy", "memmove") and len(args) > 2 and not self.own(st, r):
            # the bytes of a new symbol
            if off == self.S and self.gepped(x.a[0]):
                n = self.count(st, args[2])[0]
                s = addr(args[1])
                if s and self.own(st, s[0]):
                    self.symbol(st, x, args[1], "a new symbol")
                if n is None and s and x.a[2][0] == "v":
                    d = self.fn.defs.get(x.a[2][1])
                    if d is not None and d.o == "call" and d.callee in ("strlen", "strnlen"):
                        self.report("copy", x, "symbol", "only the text of a symbol is copied into a new cell, whose other bytes keep what they held")
                if n is not None and n < self.L and s:
                    self.report("copy", x, "symbol", "only %d bytes of a symbol are copied" % n)
            return True
        if not self.own(st, r):
            if off == self.S and self.gepped(x.a[0]) and nm in ("strcpy", "stpcpy", "strncpy", "sprintf", "snprintf") and r[0] == "v":
                n = self.count(st, args[2])[0] if nm == "strncpy" else None
                if nm != "strncpy" or n is not None and n != self.L:
                    self.report("copy", x, "symbol", "%s does not set all the bytes of a symbol" % nm)
            return True
        size = self.alloc(st, r) - off
        if len(x.a) > 1 and self.insymbol(st, x.a[1], args[1]) == 0 and off == 0:
            st.x[("symtext", r)] = True
        else:
            st.x.pop(("symtext", r), None)
        if nm in ("memset", "bzero"):
            n = self.count(st, args[-1] if nm == "bzero" else args[2])[0]
            z = nm == "bzero" or args[1] == ("i", 0)
            if n is None:
                self.blur(st, r)
            else:
                self.put(st, r, off, ("0" if z else "g") * n)
                if n > size:
                    self.report("overflow", x, nm, "%s writes %d bytes into a buffer of %d" % (nm, n, size))
            return True
        if nm in ("strncpy", "stpncpy"):
            n, lo, hi = self.count(st, args[2])
            s = self.literal(args[1])
            symb = size == self.L and off == 0
            if n is not None and n > size or lo is not None and lo > size or symb and (hi is None and not self.clamped(x.a[2]) or hi is not None and hi > size) and not self.tested(st, args[2]):
                self.report("overflow", x, nm, "%s may write %s bytes into a buffer of %d" % (nm, n if n is not None else "more", size))
            elif symb and n is not None and n < self.L and (s is None or len(s) > n) and not self.tested(st, args[1]):
                if not (self.fits(st, n)):
                    self.report("cut", x, nm, "a text is cut to %d bytes, not %d, to make a symbol" % (n, self.L))
            elif symb and hi is not None and hi < self.L - 1 and n is None and not self.tested(st, args[2]):
                pass
            if n is not None:
                t = "t" * n if s is None else ("t" * len(s) + "0" * n)[:n]
                self.put(st, r, off, t)
            else:
                # a text of unknown length over what was there
                b = self.get(st, r)[off:]
                m = min(len(b), hi if hi is not None else len(b))
                self.put(st, r, off, "".join("t" if c in "0t" else c for c in b[:m]))
            return True
        if nm in ("memcpy", "memmove", "mempcpy"):
            n, lo, hi = self.count(st, args[2])
            s = addr(args[1])
            symb = size == self.L and off == 0
            if n is not None and n > size or lo is not None and lo > size:
                self.report("overflow", x, nm, "%s writes %d bytes into a buffer of %d" % (nm, n if n is not None else lo, size))
            if n is None:
                b = self.get(st, r)[off:]
                if symb and (hi is None and not self.clamped(x.a[2]) or hi is not None and hi > size) and not self.tested(st, args[2]):
                    self.report("overflow", x, nm, "%s may write more than %d bytes into a buffer of that size" % (nm, size))
                m = min(len(b), hi if hi is not None else len(b))
                self.put(st, r, off, "".join("t" if c in "0t" else c for c in b[:m]))
            elif s and self.own(st, s[0]):
                self.put(st, r, off, (self.get(st, s[0])[s[1]:] + "u" * n)[:n])
            else:
                lit = self.literal(args[1])
                self.put(st, r, off, (("t" * len(lit) + "0" * n)[:n] if lit is not None else "t" * n if self.insymbol(st, x.a[1], args[1]) is not None else "u" * n))
            return True
        lit = self.literal(args[1]) if nm in ("strcpy", "stpcpy") else None
        if nm in ("strcpy", "stpcpy"):
            if lit is not None:
                self.put(st, r, off, "t" * len(lit) + "0")
                if len(lit) + 1 > size:
                    self.report("overflow", x, nm, "%s writes %d bytes into a buffer of %d" % (nm, len(lit) + 1, size))
            else:
                b = self.get(st, r)[off:]
                if size == self.L and off == 0 and self.unknown(st, x, args[1]):
                    self.report("overflow", x, nm, "%s copies a text of any length into a buffer of %d bytes" % (nm, size))
                # some text, then a zero, then what was there
                self.put(st, r, off, "".join("t" if c in "0t" else c for c in b))
                bb = self.get(st, r)
                st.x[("by", r)] = bb
                if "?" not in bb:
                    self.blur(st, r)
            return True
        if nm == "snprintf":
            n = self.count(st, args[1])[0]
            if n is not None and n <= size and size == self.L and off == 0:
                s = self.literal(args[2])
                if s == "%s" and n <= self.L:
                    self.report("cut", x, nm, "a text is cut to %d bytes, not %d, to make a symbol" % (n - 1, self.L))
            self.blur(st, r)
            return True
        self.blur(st, r)
        return True

    def gepped(self, o):
        d = self.fn.defs.get(o[1]) if o[0] == "v" else None
        while d is not None and d.o == "gep":
            if d.st and d.st[0] == "struct.atom":
                return True
            d = self.fn.defs.get(d.a[0][1]) if d.a[0][0] == "v" else None
        return False

    def unknown(self, st, x, v):
        a = addr(v)
        return not (a and self.own(st, a[0])) and not st.x.get("tested")

    def clamped(self, o):
        """is the count compared with something in the function? (what the comparison found may have been forgotten where paths join)"""
        d = self.fn.defs.get(o[1]) if o[0] == "v" else None
        ids = {o[1]} | ({i[0][1] for i in d.inc if i[0][0] == "v"} if d is not None and d.o == "phi" else set())
        return any(y.o == "icmp" and any(a[0] == "v" and a[1] in ids for a in y.a) for y in self.fn.insts())

    def fits(self, st, n):
        """has the text been found to be no longer than that?"""
        return any(k[0] == "rng" and v[1] is not None and v[1] <= n or k[0] == "eq" and isinstance(v, int) and 0 <= v <= n and k[1][0] == "v" for k, v in st.facts.items())

    def tested(self, st, v):
        """is there some test of this value, or of one computed from it, that is not followed?"""
        rs = roots_of(v, set())
        if absint.UNDEF in (v,) or absint.UNDEF in v:
            return True
        if v[0] == "i" or not rs:
            return False
        for k, w in st.facts.items():
            if k[0] in ("b", "rng") and isinstance(k[1], tuple) and k[1] != v and roots_of(k[1], set()) & rs:
                return True
        return v[0] in ("bin", "el", "tr")

    # -- comparison by vector -----------------------------------------------------
    def vector(self, e, st, x):
        """ptest of the difference of two whole symbols"""
        def full(o):
            d = self.fn.defs.get(o[1]) if o[0] == "v" else None
            while d is not None and d.o == "bitcast":
                d = self.fn.defs.get(d.a[0][1]) if d.a[0][0] == "v" else None
            return d
        for o in x.a[:2]:
            if o[0] not in ("v", "g", "go"):
                self.compared.add((x.f, x.l))
                self.report("bound", x, "comparison", "only a part of the bytes of the symbols is compared")
                return
        def consts(o, depth=0):
            """the constants a mask is built from, None when it is not one"""
            if o[0] == "i":
                return [o[1]]
            if o[0] in ("u", "z"):
                return [0] if o[0] == "z" else []
            d = self.fn.defs.get(o[1]) if o[0] == "v" else None
            if d is None or d.o not in ("insertelement", "shufflevector", "bitcast") or depth > 20:
                return None
            ops = d.a[:2] if d.o != "bitcast" else d.a
            r = [consts(y, depth + 1) for y in ops]
            return None if None in r else sum(r, [])
        for o in x.a[:2]:
            c = consts(o)
            if c is not None and any(v != -1 for v in c):
                self.compared.add((x.f, x.l))
                self.report("bound", x, "comparison", "only a part of the bytes of the symbols is compared")
                return
        ds = [full(o) for o in x.a[:2]]
        if not all(ds):
            self.odd["vector at %s" % x.loc()] = "unrecognised"
            return
        if ds[0] is ds[1] and ds[0].o == "xor":
            ls = [full(o) for o in ds[0].a]
            if all(l is not None and l.o == "load" for l in ls):
                self.compared.add((x.f, x.l))
                for l in ls:
                    a = addr(e.val(st, l.a[0]))
                    if not a:
                        continue
                    if self.own(st, a[0]):
                        self.symbol(st, x, e.val(st, l.a[0]), "a comparison")
                        if a[1] != 0:
                            self.report("bound", x, "comparison", "symbols are compared from byte %d on" % a[1])
                    elif a[1] not in (0, self.S) and a[0][0] not in ("al", "g"):
                        self.report("bound", x, "comparison", "symbols are compared from byte %d on" % (a[1] - self.S))
                return
        for d in ds:
            if d.o == "call" or any(o[0] in ("x", "z", "u") for o in d.a or ()):
                self.report("bound", x, "comparison", "only a part of the bytes of the symbols is compared")
                return
        self.odd["vector at %s" % x.loc()] = "unrecognised"


UNIT = """#include <mnml/lisp.h>
#include <mnml/utils.h>
bool c12_match(const atom_t a, const symbol_t b) { return lisp_symbol_match(a, b); }
int c12_compare(const atom_t a, const symbol_t b) { return lisp_symbol_compare(a, b); }
"""


class Reads(absint.Plugin):
    """which bytes of both symbols a comparison has read when it finds them equal"""
    def __init__(self, fn):
        self.fn, self.K, self.found, self.exits, self.odd = fn, front.consts(), [], 0, None
        self.budget = 5000

    def note(self, st, root, off, n):
        if root[0] == "arg":
            base = off - (self.K["SYMBOL"] if root[1] == 0 else 0)
            k = ("rd", root)
            st.x[k] = tuple(sorted(set(st.x.get(k, ())) | {i for i in range(max(base, 0), base + n) if i < 64}))

    def deref(self, e, st, x, root, off):
        if x.o == "load":
            self.note(st, root, off, e.size(x.t) if x.t in ("ptr",) or x.t[0] == "i" else 16)

    def call(self, e, st, x):
        nm = x.callee or ""
        args = [e.val(st, a) for a in x.a]
        if nm in COMPARE:
            n = args[2][1] if args[2][0] == "i" else None
            if n is None:
                self.odd = "%s over a length that is not constant" % nm
            for a in args[:2]:
                r = addr(a)
                if r:
                    self.note(st, r[0], r[1], n or 16)
        elif not nm.startswith("llvm."):
            self.odd = "calls %s" % nm
        return None

    def ret(self, e, st, x):
        self.exits += 1
        v = e.val(st, x.a[0])
        if self.fn.name == "c12_match" and v == ("i", 0):
            return
        if self.fn.name == "c12_compare" and v[0] == "i" and v[1] != 0:
            return
        for i, what in ((0, "the cell's symbol"), (1, "the other symbol")):
            have = set(st.x.get(("rd", ("arg", i)), ()))
            miss = [b for b in range(self.K["SYMLEN"]) if b not in have]
            if miss:
                self.found.append((x, what, miss))


def matching(cfg, out):
    """the comparison itself: every byte of both symbols counts"""
    prog = reader.unit("symbols", UNIT, KEEP - {"lisp_symbol_match", "lisp_symbol_compare"} if isinstance(KEEP, set) else
                       [k for k in KEEP if not k.startswith("lisp_symbol")], cfg)
    for n, who in (("c12_match", "lisp_symbol_match"), ("c12_compare", "lisp_symbol_compare")):
        f = prog.functions[n]
        pl = Reads(f)
        Engine(f, pl).run(State())
        out.count("comparisons of symbols analysed byte by byte")
        if pl.odd:
            out.undecided["%s (%s)" % (who, cfg)] = pl.odd
            continue
        for x, what, miss in pl.found:
            out.add("C12", "bytes", who, x.loc(), what, "bytes %d to %d of %s are not looked at when two symbols are found to be the same" % (miss[0], miss[-1], what))
        # what is done with the two whole values
        lanes, parts = {}, []
        for x in f.insts():
            if x.o == "extractelement" and x.a[1][0] == "i":
                lanes.setdefault(tuple(x.a[0]), set()).add(x.a[1][1])
            if x.o == "trunc" and x.ft == "i128":
                parts.append(x)
            if x.o == "icmp" and x.a[0][0] == "v" and x.a[1][0] == "i":
                d = f.defs.get(x.a[0][1])
                if d is not None and d.o == "and" and d.a[1][0] == "i":
                    m, d = d.a[1][1], f.defs.get(d.a[0][1])
                else:
                    m = 0xFFFF
                if d is not None and d.o == "call" and (d.callee or "").startswith("llvm.x86.sse2.pmovmskb") and (m & 0xFFFF != 0xFFFF or x.a[1][1] & 0xFFFF not in (0, 0xFFFF)):
                    out.add("C12", "bytes", who, x.loc(), "mask", "the results for only some of the bytes are looked at")
        for v, ix in lanes.items():
            if len(ix) == 1:
                d = f.defs.get(v[1]) if v[0] == "v" else None
                if d is not None and d.o == "xor":
                    out.add("C12", "bytes", who, d.loc(), "half", "only one half of the difference of the symbols is looked at")


def interesting(f):
    for x in f.insts():
        if x.o == "call" and x.callee:
            n = CHK.get(x.callee, x.callee)
            if n in SYMBOL or n in CSTR or n in BOUNDED or n in PRINTF or n == "Parse" or n.startswith(("llvm.memcpy", "llvm.x86.sse41")):
                return True
    return False


def names(out, groups, cfg):
    """names handed to the system come from buffers that were written"""
    for g in groups:
        prog = front.program(g, KEEP, cfg)
        for n, f in sorted(prog.functions.items()):
            if not front.own(g, f) or not any(x.o == "call" and x.callee in NAMES for x in f.insts()):
                continue
            pl = Bytes(prog, f)
            pl.budget = 20000
            try:
                Engine(f, pl).run(State())
            except Giveup as ex:
                out.undecided["%s (%s)" % (n, cfg)] = str(ex)
            out.count("names handed to the system", len(pl.named))
            for y in pl.unset.values():
                out.add(y)


def run(tier):
    out = Outcome("Byte typestate along every path of every function that builds, compares or reads the text of a symbol: a buffer that becomes "
                  "a symbol (%s, and comparisons) has all of its %d bytes set, to text and zero padding; buffers read up to a terminator (%s, %%s) "
                  "hold one; the bytes of a symbol are compared and read over exactly their size; texts are cut at that size." %
                  (", ".join(sorted(SYMBOL)), front.consts()["SYMLEN"], ", ".join(sorted(CSTR))),
                  ["buffers whose content comes from elsewhere are taken to hold what that place promises", "texts hold no zero bytes"])
    seen = set()
    for cfg in ("debug", "debug-nosse") if tier == "quick" else ("debug", "debug-nosse", "release", "release-nosse"):
        matching(cfg, out)
        for g in [x for x in GROUPS if x in ("core", "bin", "stubs", "grammar")] + front.modules():
            prog = front.program(g, KEEP, cfg)
            for n, f in sorted(prog.functions.items()):
                k = (f.relfile(), n, cfg)
                if k in seen or not interesting(f):
                    continue
                seen.add(k)
                pl = Bytes(prog, f)
                pl.budget = 20000
                try:
                    Engine(f, pl).run(State())
                except Giveup as ex:
                    out.undecided["%s (%s)" % (n, cfg)] = str(ex)
                out.count("functions")
                out.count("symbols built", len(pl.made))
                out.count("comparisons", len(pl.compared))
                out.count("texts read", len(pl.read))
                out.undecided.update(pl.odd)
                for y in pl.found.values():
                    out.add(y)
                if pl.made and len(out.samples) < 40:
                    out.sample("%s (%s): %d symbols built, %d comparisons, %d texts read" % (n, cfg, len(pl.made), len(pl.compared), len(pl.read)), 40)
    out.need("symbols built", 10)
    out.need("comparisons", 10)
    out.need("texts read", 4)
    return out
