"""C14: the cell allocator hands out each cell once, clean and in bounds"""
from . import front, lin
from .contracts import KEEP
from .lin import add, const, div, isconst, mul, var
from .report import Finding, Outcome

END = 0xffffffff


def show(a):
    if a is None:
        return "nothing"
    def sy(s):
        if s[0] == "ld":
            return "[%s]" % show(s[1])
        if s[0] == "v":
            return "arg%d" % s[1] if s[1] < 8 else "v%d" % s[1]
        if s[0] == "div":
            return "(%s)/%d" % (show(s[1]), s[2])
        return "%s%s" % (s[0], s[1] if len(s) > 1 and isinstance(s[1], int) else "")
    t = [("" if c == 1 else "-" if c == -1 else "%d*" % c) + sy(s) for s, c in a[1]]
    return " + ".join(t + ([str(a[0])] if a[0] or not t else []))


class Judge:
    def __init__(self, out, name, f, prefix=""):
        self.out, self.name, self.f = out, name, f

    def bad(self, st, subject, text):
        self.out.add(Finding("C14", "allocator", "%s (%s)" % (self.name, self.f.relfile()), st.loc or "", subject,
                             "%s: %s; on the path where %s" % (self.name, text, " and ".join("%s %s %s" % (show(a), p, show(b)) for p, a, b in st.conds) or "always")))


def final(run, st, addr, size, loc):
    class X:
        def loc(self): return loc
    return run.load(st, addr, size, X())


def upper(st, sym):
    """greatest value of an unknown the path allows"""
    best = None
    for p, a, b in st.conds:
        d = add(a, b, -1)           # d p 0
        if p in ("ugt", "uge", "sgt", "sge"):
            d, p = mul(d, -1), {"g": "l"}[p[1]] + p[2]
            p = "u" + p
        if p in ("ult", "ule", "slt", "sle", "eq") and len(d[1]) == 1 and d[1][0][0] == sym and d[1][0][1] > 0:
            n = -d[0] - (1 if p in ("ult", "slt") else 0)
            u = n // d[1][0][1]
            best = u if best is None else min(best, u)
    return best


def chain(run, st, E, NEXT):
    """(first, last) cell of the list of fresh cells a path links up, None if it links none"""
    loop, last = None, None
    for e in st.mem:
        if e[0] == "all":
            w = [w for w in e[4]]
            if len(w) != 1 or loop is not None:
                raise lin.Unsure("cells linked in an unknown way")
            w = w[0]
            idx = div(add(add(w[1], E, -1), const(-NEXT)), run.A)
            k = isconst(add(idx, var(e[1]), -1))
            if k is None or isconst(add(w[3], var(e[1]), -1)) is None:
                raise lin.Unsure("cells linked in an unknown way")
            if w[3] != add(idx, const(1)):
                return ("odd", e, w)
            e = ("all", e[1], add(e[2], const(k)), add(e[3], const(k)))
            loop = e
            if last is not None:
                u = run.least(add(e[2], last, -1)), run.least(add(last, e[3], -1))
                if not ((u[0] is not None and u[0] >= 1) or (u[1] is not None and u[1] >= 0)):
                    return ("overwritten", e, w)
        elif e[0] == "w" and isconst(e[3]) == END and e[2] == 4:
            last = div(add(add(e[1], E, -1), const(-NEXT)), run.A)
    if loop is None:
        return None
    return ("list", loop[2], loop[3], last)


def fresh_list(j, run, st, E, P, NEXT, old, pages, start):
    """the list of fresh cells: judged for every number of pages; old: cells in use before; returns its end"""
    K = run.K
    c = chain(run, st, E, NEXT)
    if c is None:
        raise lin.Unsure("fresh cells not linked by a loop")
    if c[0] == "odd":
        j.bad(st, "fresh links", "fresh cell %s linked to %s, not to the next cell" % (show(div(add(c[2][1], E, -1), run.A)), show(c[2][3])))
        return None
    if c[0] == "overwritten":
        j.bad(st, "fresh end", "the end mark of the list of fresh cells is overwritten by the loop that links them")
        return None
    _, lo, hi, last = c
    if last is None:
        j.bad(st, "fresh end", "the list of fresh cells %s .. %s is never ended" % (show(lo), show(add(hi, const(-1)))))
        return None
    if last not in (hi, add(hi, const(-1))):
        u = run.least(add(hi, last, -1))
        v = run.least(add(last, lo, -1))
        if u is not None and u > 1 and v is not None and v >= 0:
            pass        # ended early: the cells after it are never used
        else:
            j.bad(st, "fresh end", "the list of fresh cells %s .. %s is ended at cell %s" % (show(lo), show(add(hi, const(-1))), show(last)))
            return None
    n = add(last, const(1))
    if start != lo:
        u, v = run.least(add(start, lo, -1)), run.least(add(last, start, -1))
        if not (u is not None and u >= 0 and v is not None and v >= 0):
            j.bad(st, "fresh start", "the free list starts at cell %s, but the fresh cells are %s .. %s" % (show(start), show(lo), show(last)))
            return None
    if old is not None:
        u = run.least(add(start, old, -1))
        if u is None or u < 0:
            j.bad(st, "fresh start", "the free list restarts at cell %s although cells up to %s may be in use" % (show(start), show(old)))
            return None
    ok = [e for e in st.events if e[0] == "mprotect" and e[1][0] == E and (isconst(e[1][2]) or 0) & 3 == 3]
    if not ok:
        j.bad(st, "commit", "fresh cells are used without making their memory accessible")
        return None
    e = ok[-1]
    if run.decide(st, ("eq", e[2], const(0))) is not True:
        j.bad(st, "commit", "fresh cells are used although making their memory accessible may have failed")
        return None
    size = e[1][1]
    if isinstance(pages, tuple):
        u = run.least(add(size, mul(n, run.A), -1))
        if u is None or u < 0:
            j.bad(st, "commit", "cells up to %s are handed out, but only %s bytes (cells of %d bytes) are accessible" % (show(n), show(size), run.A))
        u = run.least(add(div(mul(pages, K["PAGE_SIZE"]), run.A), n, -1))
        if u is None or u < 0:
            j.bad(st, "pages", "cells up to %s are handed out, but the next growth starts after %s pages" % (show(n), show(pages)))
    # within the reservation
    lim = K["SLAB_SIZE"]
    if isconst(size) is not None:
        big = isconst(size)
    elif len(size[1]) == 1 and size[1][0][1] > 0:
        u = upper(st, size[1][0][0])
        big = None if u is None else size[0] + size[1][0][1] * u
    else:
        raise lin.Unsure("size of the memory made accessible")
    if big is None or big > lim:
        j.bad(st, "reservation", "%s bytes are used, which can be more than the %d reserved" % (show(size), lim))
    return n


def cleared(j, run, st, cell):
    done = set()
    for e in st.mem:
        if e[0] == "z":
            d, L = isconst(add(e[1], cell, -1)), isconst(e[2])
            if d is None or L is None:
                raise lin.Unsure("clearing")
            if d < 0 or d + L > run.A:
                j.bad(st, "clear", "clears bytes %d to %d of the new cell, which has %d" % (d, d + L, run.A))
            done |= set(range(d, d + L))
        elif e[0] == "w":
            d = isconst(add(e[1], cell, -1))
            if d is None:
                continue
            b = set(range(d, d + e[2]))
            done = done | b if isconst(e[3]) == 0 else done - b
    miss = set(range(run.A)) - done
    if miss:
        j.bad(st, "clear", "the new cell is handed out with its bytes %s not cleared" % ranges(miss))


def ranges(s):
    s = sorted(s)
    return "%d..%d" % (s[0], s[-1]) if len(s) > 1 else str(s[0])


def paths(out, name, f, **kw):
    run = lin.Run(f, **kw)
    run.K = front.consts()
    run.A = run.K["ATOM_SIZE"]
    try:
        return run, run.go()
    except lin.Unsure as ex:
        out.undecided[name] = str(ex)
        return run, []


def field(off, base=var(("v", 0))):
    return add(base, const(off))


def ld(off, base=var(("v", 0)), size=8):
    return var(("ld", field(off, base), size))


def allocate(out, name, f):
    K = front.consts()
    P = ld(K["S_PAGES"])
    run, ends = paths(out, name, f, low={P[1][0][0]: 1})
    j = Judge(out, name, f)
    E, F, NEXT = ld(K["S_ENTRIES"]), ld(K["S_FIRST"]), K["REFS"]
    for kind, v, st in ends:
        out.count("paths")
        try:
            if kind != "ret":
                continue
            get = lambda off: final(run, st, field(off), 8, st.loc)
            if get(K["S_ENTRIES"]) != E:
                j.bad(st, "entries", "moves the cells")
                continue
            idx = div(add(v, E, -1), run.A)
            if any(s[0] == "div" for s, c in idx[1]):
                raise lin.Unsure("result %s is not recognised as a cell" % show(v))
            grown = any(e[0] == "mprotect" for e in st.events) or any(e[0] == "all" for e in st.mem)
            if grown and idx in (F, const(END)) and run.decide(st, ("eq", F, const(END))) is True:
                j.bad(st, "exhausted", "hands out the end mark of the free list as a cell, after growing failed")
                continue
            if grown:
                pages = get(K["S_PAGES"])
                # what the list started with before the cell was taken
                before = [e[3] for e in st.mem if e[0] == "w" and e[1] == field(K["S_FIRST"])]
                start = before[0] if len(before) > 1 else idx
                old = div(mul(P, K["PAGE_SIZE"]), run.A)
                n = fresh_list(j, run, st, E, P, NEXT, old, pages, start)
                if n is None:
                    continue
                if idx != start:
                    j.bad(st, "cell", "hands out cell %s, not the first free one, %s" % (show(idx), show(start)))
                if get(K["S_FIRST"]) != add(start, const(1)):
                    j.bad(st, "first", "after growing, the next free cell becomes %s instead of %s" % (show(get(K["S_FIRST"])), show(add(start, const(1)))))
            else:
                if idx != F:
                    j.bad(st, "cell", "hands out cell %s, not the first free one" % show(idx))
                    continue
                if run.decide(st, ("ne", F, const(END))) is not True:
                    j.bad(st, "exhausted", "takes a cell although the free list may be empty")
                    continue
                nx = var(("ld", add(v, const(NEXT)), 4))
                if get(K["S_FIRST"]) != nx:
                    j.bad(st, "first", "the next free cell becomes %s instead of the one linked from the cell handed out" % show(get(K["S_FIRST"])))
                if get(K["S_PAGES"]) != P:
                    j.bad(st, "pages", "the number of pages changes without growth")
            cleared(j, run, st, v)
            counters(j, run, st, get, 1, 0)
            out.count("cases")
        except lin.Unsure as ex:
            out.undecided["%s %s" % (name, st.loc)] = str(ex)
    out.count("functions compared")


def counters(j, run, st, get, da, df):
    K = run.K
    for w, off, d in (("allocations", K["S_ALLOC"], da), ("releases", K["S_FREE"], df)):
        if get(off) != add(ld(off), const(d)):
            j.bad(st, w, "the number of %s becomes %s, expected %s" % (w, show(get(off)), show(add(ld(off), const(d)))))


def deallocate(out, name, f):
    K = front.consts()
    run, ends = paths(out, name, f)
    j = Judge(out, name, f)
    E, F, cell = ld(K["S_ENTRIES"]), ld(K["S_FIRST"]), var(("v", 1))
    for kind, v, st in ends:
        out.count("paths")
        try:
            if kind != "ret":
                continue
            if any("('ld', (%d, ((('v', 1), 1),))" % K["TYPE"] in repr(c) or "('ld', (%d, ((('v', 1), 1),))" % K["REFS"] in repr(c) for c in st.conds):
                raise lin.Unsure("release depends on the state of the cell")
            get = lambda off: final(run, st, field(off), 8, st.loc)
            n = var(("div", add(cell, E, -1), run.A))
            if get(K["S_FIRST"]) != n:
                j.bad(st, "first", "the first free cell becomes %s instead of the released one" % show(get(K["S_FIRST"])))
            elif final(run, st, add(cell, const(K["REFS"])), 4, st.loc) != F:
                j.bad(st, "next", "the released cell links to %s instead of the first free cell" % show(final(run, st, add(cell, const(K["REFS"])), 4, st.loc)))
            if get(K["S_PAGES"]) != ld(K["S_PAGES"]) or get(K["S_ENTRIES"]) != E:
                j.bad(st, "pages", "changes the memory of the cells")
            counters(j, run, st, get, 0, 1)
            for e in st.mem:
                if e[0] == "w" and run.region(e[1]) not in (run.region(cell), run.region(var(("v", 0)))):
                    raise lin.Unsure("write elsewhere")
                if e[0] == "w" and run.region(e[1]) == run.region(cell):
                    d = isconst(add(e[1], cell, -1))
                    if d is None or d < 0 or d + e[2] > run.A:
                        j.bad(st, "cell", "writes at %s, outside the released cell" % show(e[1]))
            out.count("cases")
        except lin.Unsure as ex:
            out.undecided["%s %s" % (name, st.loc)] = str(ex)
    out.count("functions compared")


def new(out, name, f):
    K = front.consts()
    run, ends = paths(out, name, f)
    j = Judge(out, name, f)
    for kind, v, st in ends:
        out.count("paths")
        try:
            if kind != "ret" or isconst(v) == 0:
                continue
            get = lambda off: final(run, st, add(v, const(off)), 8, st.loc)
            E = get(K["S_ENTRIES"])
            mm = [e for e in st.events if e[0] == "mmap" and e[2] == E]
            if not mm:
                raise lin.Unsure("cells not reserved with mmap")
            if run.decide(st, ("ne", E, const(-1))) is not True:
                j.bad(st, "reservation", "uses the reserved memory although the reservation may have failed")
                continue
            if isconst(mm[0][1][1]) is None or isconst(mm[0][1][1]) < K["SLAB_SIZE"]:
                j.bad(st, "reservation", "reserves %s bytes, less than the %d the allocator grows to" % (show(mm[0][1][1]), K["SLAB_SIZE"]))
            fresh_list(j, run, st, E, None, K["REFS"], None, get(K["S_PAGES"]), get(K["S_FIRST"]))
            for w, off in (("allocations", K["S_ALLOC"]), ("releases", K["S_FREE"])):
                if isconst(get(off)) != 0:
                    j.bad(st, w, "the number of %s starts at %s" % (w, show(get(off))))
            out.count("cases")
        except lin.Unsure as ex:
            out.undecided["%s %s" % (name, st.loc)] = str(ex)
    out.count("functions compared")


def release(out, name, f):
    """lisp_deallocate: the parts of a pair are released once each, then the cell"""
    K = front.consts()
    run, ends = paths(out, name, f, known={"lisp_deallocate", "slab_deallocate", "lisp_decref"})
    j = Judge(out, name, f)
    lisp, cell = var(("v", 0)), var(("v", 1))
    typ, flg = ld(K["TYPE"], cell, 2), ld(K["FLAGS"], cell, 2)
    weakbit = var(("and", flg, const(K["F_WEAKREF"])))
    car, cdr = ld(K["CAR"], cell), ld(K["CDR"], cell)
    for kind, v, st in ends:
        out.count("paths")
        try:
            if kind != "ret":
                continue
            pair = run.decide(st, ("eq", typ, const(K["T_PAIR"])))
            if pair is None:
                raise lin.Unsure("kind of the cell not tested")
            weak = None
            for c in ((("eq", weakbit, const(K["F_WEAKREF"])), True), (("ne", weakbit, const(0)), True)):
                d = run.decide(st, c[0])
                if d is not None:
                    weak = d == c[1]
            if not pair:
                want = []
            elif weak is None:
                want = None
            else:
                want = [cdr] + ([] if weak else [car])
            rel, freed, cells = {}, [], []
            for e in st.mem:
                if e[0] != "w":
                    raise lin.Unsure("block write")
                base = add(e[1], const(-K["REFS"]))
                if base not in (car, cdr):
                    if run.region(e[1]) == run.region(cell):
                        continue
                    raise lin.Unsure("write at %s" % e[4])
                rel[base] = rel.get(base, 0) + 1
                if e[3] != add(var(("ld", e[1], 4)), const(-rel[base])):
                    j.bad(st, "count", "the reference count of a part becomes %s" % show(e[3]))
            for e in st.events:
                if e[0] == "lisp_decref":
                    rel[e[1][0]] = rel.get(e[1][0], 0) + 1
                elif e[0] == "lisp_deallocate":
                    freed.append(e[1][1])
                    if e[1][0] != lisp:
                        j.bad(st, "owner", "a part is released to another interpreter")
                else:
                    cells.append(e[1])
            if want is None:
                if any(p in rel for p in (car,)):
                    j.bad(st, "weak", "the first part of a pair is released without testing whether it is held weakly")
                    continue
                j.bad(st, "parts", "the first part of a pair is not released")
                continue
            for p, n in ((car, "first"), (cdr, "second")):
                k = rel.get(p, 0)
                if k != (p in want):
                    why = "is released although it is held weakly" if pair and p == car and weak else \
                          "is released although the value is no pair" if not pair else "is released %d times" % k if k else "is not released"
                    j.bad(st, "parts", "the %s part of the value %s" % (n, why))
                elif k:
                    zero = run.decide(st, ("eq", add(var(("ld", add(p, const(K["REFS"])), 4)), const(-1)), const(0)))
                    fr = freed.count(p)
                    if zero is None:
                        raise lin.Unsure("count of a part not tested")
                    if fr != (1 if zero else 0):
                        j.bad(st, "parts", "the %s part is %s" % (n, "recycled while still referenced" if not zero else "recycled %d times when its last reference goes" % fr))
                elif p in freed:
                    j.bad(st, "parts", "the %s part is recycled although it was not released" % n)
            if len(cells) != 1:
                j.bad(st, "cell", "the cell itself is recycled %d times" % len(cells))
            elif cells[0] != [ld(K["L_SLAB"], lisp), cell]:
                j.bad(st, "cell", "the cell handed to the allocator is %s" % show(cells[0][1]))
            out.count("cases")
        except lin.Unsure as ex:
            out.undecided["%s %s" % (name, st.loc)] = str(ex)
    out.count("functions compared")


def census(out, cfg):
    """only the allocator touches the free list and the counters; only lisp_deallocate recycles cells"""
    seen = set()
    for g in ["core", "grammar", "bin", "stubs"] + front.modules():
        prog = front.program(g, KEEP, cfg)
        for f in prog.functions.values():
            if not front.own(g, f) or (f.file, f.name) in seen:
                continue
            seen.add((f.file, f.name))
            geps = {}
            for x in f.insts():
                if x.o == "gep" and x.st and x.st[0] == "struct.slab":
                    geps[x.i] = x
                elif x.o == "store" and x.a[1][0] == "v" and x.a[1][1] in geps:
                    out.count("writes of allocator state")
                    if not x.f.endswith("lib/core/slab.c"):
                        out.add(Finding("C14", "state", "%s (%s)" % (f.name, f.relfile()), x.loc(), "allocator state",
                                        "%s changes the state of the cell allocator outside of it" % f.name))
                elif x.o == "call" and x.callee == "slab_deallocate":
                    out.count("recycling calls")
                    if f.name != "lisp_deallocate":
                        out.add(Finding("C14", "recycle", "%s (%s)" % (f.name, f.relfile()), x.loc(), "slab_deallocate",
                                        "%s recycles a cell without releasing its parts" % f.name))


def symbols(a):
    """the unknowns a linear form is made of, and those they are loaded through"""
    for s, _ in a[1]:
        yield s
        if s[0] == "ld":
            yield from symbols(s[1])


def room(run, st, size, n):
    """does a block of that size hold n values: True, False, None if not recognised"""
    d = add(size, add(const(run.K["CL_VALUES"]), mul(n, run.K["CL_VALUE"])), -1)
    k = isconst(d)
    if k is not None:
        return k >= 0
    if all(s in set(symbols(n)) and c < 0 for s, c in d[1]):
        if any(upper(st, s) is not None for s in set(symbols(n))):
            return None
        return False        # from some number on, there is less room than asked for
    return None


def closure_get(out, name, f):
    """the working storage of compiled functions: a closure is unlinked from the cache, or fresh, has the room asked for, and its continuation"""
    run, ends = paths(out, name, f)
    j = Judge(out, name, f)
    NEXT = run.K["CL_NEXT"]
    C, N, HEAD = var(("v", 1)), var(("v", 2)), ld(0)
    taken, made = set(), []
    for kind, v, st in ends:
        out.count("paths")
        if kind != "ret":
            continue
        try:
            fresh = [e for e in st.events if e[0] in ("malloc", "calloc") and e[2] == v]
            if fresh:
                a = fresh[0][1]
                size = a[0]
                if len(a) == 2:
                    k = isconst(a[0]), isconst(a[1])
                    if k == (None, None):
                        raise lin.Unsure("size of the closure")
                    size = mul(a[0], k[1]) if k[1] is not None else mul(a[1], k[0])
                r = room(run, st, size, N)
                if r is None:
                    raise lin.Unsure("size of the closure")
                if not r:
                    j.bad(st, "room", "a closure of %s bytes is made for arg2 values" % show(size))
                made.append((st, v, size))
            elif v == HEAD:
                about = [c for c in st.conds if set(symbols(c[1])) | set(symbols(c[2])) >= {("v", 2)}]
                if not about:
                    j.bad(st, "room", "a closure kept from before is handed out whatever number of values it was made for")
                else:
                    for p, a, b in about:
                        if b != N:
                            a, b, p = b, a, {"l": "g", "g": "l"}.get(p[1], p[1]) + p[2] if p not in ("eq", "ne") else p
                            p = "u" + p if p not in ("eq", "ne") else p
                        if b == N and len(a[1]) == 1 and a[0] == 0 and a[1][0][1] == 1 and a[1][0][0][0] == "ld" and isconst(add(a[1][0][0][1], HEAD, -1)) is not None:
                            off = isconst(add(a[1][0][0][1], HEAD, -1))
                            if p in ("ult", "ule", "slt", "sle", "ne"):
                                j.bad(st, "room", "a closure kept from before is handed out although it need not be large enough")
                            else:
                                taken.add((off, a[1][0][0][2]))
                        else:
                            raise lin.Unsure("how the size of a kept closure is judged")
                after = final(run, st, field(0), 8, st.loc)
                if after == HEAD:
                    j.bad(st, "unlink", "the closure handed out stays the next one to be handed out")
                elif after != var(("ld", add(HEAD, const(NEXT)), 8)):
                    raise lin.Unsure("what the cache holds afterwards")
            else:
                raise lin.Unsure("result %s is not recognised as a closure" % show(v))
            c = final(run, st, add(v, const(NEXT)), 8, st.loc)
            if c != C:
                j.bad(st, "link", "the closure's next one is %s instead of the one given" % show(c))
        except lin.Unsure as ex:
            out.undecided["%s (a path)" % name] = str(ex)
    for off, size in taken:
        for st, v, bytes_ in made:
            try:
                w = final(run, st, add(v, const(off)), size, st.loc)
                if any(s[0] == "ld" for s in symbols(w)):
                    j.bad(st, "record", "a new closure does not say how many values it was made for, which decides later who may use it")
                elif room(run, st, bytes_, w) is False:
                    j.bad(st, "record", "a new closure of %s bytes is marked as having room for %s values" % (show(bytes_), show(w)))
            except lin.Unsure as ex:
                out.undecided["%s (record)" % name] = str(ex)


def closure_put(out, name, f):
    run, ends = paths(out, name, f)
    j = Judge(out, name, f)
    C, HEAD = var(("v", 1)), ld(0)
    for kind, v, st in ends:
        out.count("paths")
        try:
            if kind != "ret" or final(run, st, field(0), 8, st.loc) != C:
                continue
            n = final(run, st, add(C, const(run.K["CL_NEXT"])), 8, st.loc)
            if n != HEAD and run.decide(st, ("eq", HEAD, n)) is not True:
                j.bad(st, "relink", "the closure put back is followed by %s instead of those put back before" % show(n))
        except lin.Unsure as ex:
            out.undecided["%s (a path)" % name] = str(ex)


TABLE = {"slab_allocate": (1, allocate), "slab_deallocate": (2, deallocate), "slab_new": (0, new), "lisp_deallocate": (2, release),
         "lisp_closure_get": (3, closure_get), "lisp_closure_put": (2, closure_put)}


def run(tier):
    out = Outcome("The allocator's functions, compiled, are summarised path by path over linear forms (addresses, counters and the number of pages stay "
                  "unknowns; counting loops become one write for every value of the counter). Each path must hand out the first free cell, cleared in all "
                  "its bytes, move the free list to the next one, count the event; growth must link the fresh cells after those that may be in use, end "
                  "the list inside the memory made accessible, and stay inside the reservation, for every number of pages; releasing a value must release "
                  "each part of a pair once (a weak one not at all) and recycle the cell once. Every write of allocator state in the program is located.",
                  ["arithmetic on sizes and indices does not wrap", "cells passed to release are cells of the slab (C01, C02)",
                   "paths with loops other than counting loops are not judged"])
    for cfg in ("release-nosse",) if tier == "quick" else ("release-nosse", "release"):
        prog = front.program("core", KEEP, cfg)
        for n, (k, fn) in TABLE.items():
            f = prog.functions.get(n)
            if f is None or len(f.params) != k:
                out.undecided["%s (%s)" % (n, cfg)] = "no such function" if f is None else "%d parameters" % len(f.params)
                continue
            fn(out, n, f)
            out.sample("%s (%s): every path compared" % (n, cfg))
        census(out, cfg)
    out.need("writes of allocator state", 1)
    return out
