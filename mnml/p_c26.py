"""C26: evaluation follows the rules of the language"""
from . import core, spec
from .report import Outcome
from .spec import CHAR, LISP, NIL, NUM, PAIR, SYM, nil

A = [("a", i) for i in range(8)]


def car(t): return ("car", t)
def cdr(t): return ("cdr", t)
def ENV(base, *L): return ("ENV", base, L)


def isfunc(o, f):
    return o.isa(f, PAIR) and o.isa(car(f), NIL, PAIR, SYM) and o.isa(cdr(f), PAIR) and o.isa(car(cdr(f)), NIL, PAIR) and \
        o.isa(cdr(cdr(f)), PAIR, NUM)


def r_eval(o):
    env, x = A[1], A[2]
    if o.isa(x, SYM):
        return o.call("lisp_lookup", LISP, env, x)
    if not o.isa(x, PAIR):
        return x
    f = o.eval(env, car(x))
    rest = cdr(x)
    if not isfunc(o, f):
        if o.isa(f, SYM, PAIR) and not o.equal(car(x), f):
            return o.call("lisp_eval", LISP, env, ("cons", f, rest), what="evaluation of the list with the value of its head")
        return ("anyof", ("cons", f, rest), ("cons", car(x), rest))
    params, inner, body = car(f), car(cdr(f)), cdr(cdr(f))
    if not o.ask("lisp_may_apply", params, rest):
        return nil
    b = o.call("lisp_eval_args", LISP, env, nil, params, rest, what="evaluation and binding of the arguments in the caller's environment")
    args, left = car(b), cdr(b)
    if not o.isnil(left):
        return ("cons", left, ("cons", ENV(inner, ("all", args)), body))
    over = [("all", inner)] if not o.isnil(inner) else []
    if o.isa(body, NUM):
        return o.call("indirect", ("number", body), LISP, ENV(env, *over, ("all", args)),
                      what="a call of the native function in the caller's environment below what the function remembers and its arguments")
    if o.tail(car(x)):
        return ("cons", car(x), args)
    for _ in range(3):
        r = o.prog(ENV(env, *over, ("all", args)), body)
        if not o.isa(r, PAIR) or not o.tail(r) or not o.symeq(car(r), car(x)):
            return r
        args = cdr(r)
    o.open()


def r_args(o):
    env, acc, ps, vs = A[1], ENV(A[2]), A[3], A[4]
    for _ in range(4):
        if o.isnil(ps):
            return ("cons", acc, nil)
        if o.isa(ps, SYM):
            return ("cons", acc + () if False else ("ENV", acc[1], acc[2] + ((ps, vs),)), nil)
        if o.isnil(vs):
            return ("cons", acc, ps)
        v = o.eval(env, car(vs), what="evaluation of the next argument in the caller's environment")
        acc = ("ENV", acc[1], acc[2] + ((car(ps), v),))
        ps, vs = cdr(ps), cdr(vs)
        r = o.next("lisp_eval_args", LISP, env, acc, ps, vs)
        if r is not None:
            return r
    o.open()


def r_prog(o):
    if not o.ispair(A[2]):
        return A[3]
    r = o.eval(A[1], car(A[2]))
    return o.prog(A[1], cdr(A[2]), r)


def r_bind(o):
    if o.isa(A[2], SYM):
        return ENV(A[1], (A[2], A[3]))
    if o.isa(A[2], PAIR):
        return ENV(A[1], (car(A[2]), car(A[3])), (cdr(A[2]), cdr(A[3])))
    return ENV(A[1])


def r_setq(o):
    if o.isa(A[2], PAIR) and o.isa(car(A[2]), SYM):
        return o.call("lisp_tree_add", LISP, A[1], A[2])
    return A[1]


def yes(o, want):
    t = o.row.ret
    while t[0] == "not":
        t, want = t[1], not want
    if t[0] == "i":
        got = bool(t[1])
    elif t[0] == "r":
        got = o.truth(t)
    elif t[0] == "cmp" and t[1] in ("eq", "ne") and t[2][0] == "kindof" and t[3][0] == "i":
        got = o.isa(t[2][1], t[3][1]) == (t[1] == "eq")
    else:
        raise spec.Unsure("answer")
    if got != want:
        o.fail("the answer %s expected, but the path says otherwise;" % ("yes" if want else "no"))
    return spec.ANY


def r_may(o):
    ps, vs = A[0], A[1]
    for _ in range(4):
        if o.isa(ps, SYM):
            return yes(o, True)
        if o.isnil(vs):
            return yes(o, True)
        if not o.isa(ps, PAIR) or not o.isa(vs, PAIR):
            return yes(o, False)
        ps, vs = cdr(ps), cdr(vs)
        r = o.next("lisp_may_apply", ps, vs)
        if r is not None:
            return yes(o, o.truth(r))
    o.open()


def last(o, L):
    for _ in range(4):
        if not o.ispair(cdr(L)):
            return L
        L = cdr(L)
    o.open()


def conc(o, a, b):
    if not o.ispair(a):
        return b
    o.call("setcdr", last(o, a), b, what="the second list hung to the last cell of the first")
    return a


def r_conc(o):
    return conc(o, A[1], A[2])


def r_append(o):
    r = o.next("lisp_conc", LISP, A[1], ("cons", A[2], nil))
    return r if r is not None else conc(o, A[1], ("cons", A[2], nil))


def r_dup(o):
    L, t, got = A[1], [], o.norm(o.row.ret)
    for _ in range(6):
        if got == o.norm(("dup", L)) and len(t):
            return o.row.ret
        if not o.ispair(L):
            if len(t) and got[0] == "cons":
                o.fail("a copy that ends where the list ends expected, but the path returns %s" % core.prim.show(o.row.ret))
            return o.row.ret if len(t) and o.same(got, L) else L
        t.append(L)
        if spec.holes(got):
            raise spec.Unsure("copy")
        if got[0] != "cons":
            o.fail("a new cell for each cell of the list expected, but the path returns %s" % core.prim.show(o.row.ret))
        if not o.same(got[1], car(L)):
            o.fail("the elements of the list, in order, expected, but the path returns %s" % core.prim.show(o.row.ret))
        got, L = got[2], cdr(L)
    o.open()


def r_sss(o):
    root, kv = A[1], A[2]
    if o.isnil(root):
        return ("cons", kv, nil)
    if not o.ispair(root):
        o.open()
    ev = o.peek()
    if ev is None:
        return ("cons", kv, root)       # shadows whatever follows
    if o.symeq(car(car(root)), car(kv)):
        o.call("setcar", root, kv, what="the binding of the same name replaced")
        return root
    r = o.next("lisp_sss", LISP, cdr(root), kv)
    if r is None:
        o.open()
    o.call("setcdr", root, r, what="the rest of the bindings hung back")
    return root


def r_merge(o):
    acc, L = A[1], A[2]
    for _ in range(4):
        if o.isnil(L):
            return acc
        if not o.ispair(L):
            o.open()
        acc = o.call("lisp_sss", LISP, acc, car(L), what="the next binding laid over the environment")
        L = cdr(L)
    o.open()


def r_len(o):
    L = A[0]
    for n in range(4):
        if o.isnil(L):
            return ("i", n)
        if not o.ispair(L):
            o.open()
        L = cdr(L)
    o.open()


def r_isstring(o):
    L = A[0]
    for _ in range(4):
        if o.isnil(L):
            return yes(o, True)
        if not o.isa(L, PAIR) or not o.isa(car(L), CHAR):
            return yes(o, False)
        L = cdr(L)
        r = o.next("lisp_is_string", L)
        if r is not None:
            return yes(o, o.truth(r))
    o.open()


def r_car(o):
    return car(A[1]) if o.ispair(A[1]) else nil


def r_cdr(o):
    return cdr(A[1]) if o.ispair(A[1]) else nil


TABLE = {
    "lisp_eval": (3, r_eval, {"deep": {"lisp_eval": ("a", "d", "ad", "dd"), "lisp_eval_args": ("d",), "lisp_prog": ("a",)}, "kept": ("lisp_eval_args",)}),
    "lisp_eval_args": (5, r_args, {"kept": ("lisp_eval_args",)}),
    "lisp_prog": (4, r_prog, {}), "lisp_bind": (4, r_bind, {}), "lisp_setq": (3, r_setq, {}), "lisp_may_apply": (2, r_may, {}),
    "lisp_conc": (3, r_conc, {}), "lisp_append": (3, r_append, {}), "lisp_dup": (2, r_dup, {}), "lisp_sss": (3, r_sss, {}),
    "lisp_merge": (3, r_merge, {}), "lisp_len": (1, r_len, {}), "lisp_is_string": (1, r_isstring, {}),
    "lisp_car": (2, r_car, {}), "lisp_cdr": (2, r_cdr, {}),
}


def run(tier):
    out = Outcome("Path summaries of the evaluator (lisp_eval with its helpers, argument binding, body evaluation, environments) and of the core list "
                  "operations, each path compared with a reference written from the language manual: which expressions are evaluated, in which order and "
                  "environment, what is bound to what, which cells are changed, and the value delivered.",
                  ["loops and recursions are followed a few steps; a self-call is taken to meet its own reference",
                   "a path the summary cannot name is listed as undecided and not judged"])
    core.compare("C26", TABLE, out, ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"))
    out.need("functions compared", 8)
    out.need("cases", 40)
    return out
