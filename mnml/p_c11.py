"""C11: a name always resolves to its current binding"""
from . import core, front, owner, p_c17, spec
from .contracts import KEEP
from .report import Finding, Outcome
from .spec import LISP, nil
from .p_c26 import A, car, cdr


def r_lookup(o):
    Kc = front.consts()
    env, name = A[1], A[2]
    for n in range(4):
        if o.isnil(env):
            break
        if n == 3 or not o.ispair(env):
            o.open()
        if o.symeq(car(car(env)), name):
            return cdr(car(env))
        env = cdr(env)
    memo = ("field", Kc["CACHE"], name)
    r = o.next("lisp_tree_get", LISP, ("L", "globals"), ("at", name, Kc["SYMBOL"]))
    if r is None:
        ev = o.peek()
        if ev is not None:
            o.fail("a search of the global names expected, but the path does %s" % core.prim.show(ev))
        if o.norm(o.row.ret) == o.norm(cdr(memo)) and not known(o, memo):
            o.fail("a remembered binding used only when there is one expected, but the path does not test it;")
        return cdr(memo)
    if o.isnil(r):
        return nil
    o.next("setcache", name, r)
    return cdr(r)


def known(o, memo):
    for (w, u), v in o.row.conds.items():
        if u == memo and (w == "ne" and 0 in v or w == "b" and v):
            return True
    return False


TABLE = {"lisp_lookup": (3, r_lookup, {"deep": {"lisp_tree_get": ("",)}})}


def census(out, cfg):
    Kc = front.consts()
    seen = set()
    for g in ["core", "grammar", "bin", "stubs"] + front.modules():
        try:
            prog = front.program(g, KEEP, cfg)
        except front.Broken:
            raise
        except Exception as ex:
            out.undecided["%s (%s)" % (g, cfg)] = str(ex)
            continue
        for f in prog.functions.values():
            if not front.own(g, f) or (f.file, f.name) in seen:
                continue
            seen.add((f.file, f.name))
            for x in f.insts():
                if x.o == "store":
                    a = address(f, x.a[1])
                    if a == ("struct.lisp", Kc["L_GLOBALS"]):
                        out.count("assignments of the global tree")
                        d = f.defs.get(x.a[0][1]) if x.a[0][0] == "v" else None
                        if d is None or d.o != "call" or d.callee not in ("lisp_setq", "lisp_tree_add", "lisp_make_nil", "lisp_allocate"):
                            out.undecided["%s %s" % (f.name, x.loc())] = "assignment of the global tree not recognised"
                    elif a == ("struct.atom", Kc["CACHE"]):
                        out.count("assignments of a remembered binding")
                        if x.a[0][0] not in ("n", "z") and f.name != "lisp_lookup":
                            out.undecided["%s %s" % (f.name, x.loc())] = "a binding is remembered outside of lookup"
                elif x.o == "call" and x.callee == "lisp_tree_rem" and f.name != "lisp_tree_rem" and len(x.a) > 1:
                    out.count("removals")
                    d = f.defs.get(x.a[1][1]) if x.a[1][0] == "v" else None
                    if d is not None and d.o == "load" and address(f, d.a[0]) == ("struct.lisp", Kc["L_GLOBALS"]):
                        out.add(Finding("C11", "removed-binding", "%s (%s)" % (f.name, f.relfile()), x.loc(), "lisp_tree_rem",
                                        "%s removes a global binding that a name may still remember" % f.name))


def address(f, op):
    """(struct, offset) of an address computed by a gep"""
    if op[0] != "v":
        return None
    d = f.defs.get(op[1])
    if d is None or d.o != "gep" or not d.st or d.vi:
        return None
    return (d.st[0], d.off)


def run(tier):
    out = Outcome("Path summaries of name lookup (innermost local binding first, then the remembered global binding if there is one, then the global "
                  "tree; only the live cell the tree delivered for this very name is remembered) and of definition and assignment in the tree (the cell "
                  "of an existing name stays and its value is exchanged in place); census of every assignment of the global tree, of every remembered "
                  "binding and of every removal from the tree.",
                  ["environments are followed three entries deep, descents in the tree two levels",
                   "the cells of the tree stay alive while the interpreter runs: C01 and C02"])
    cfgs = ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse")
    core.compare("C11", TABLE, out, cfgs)
    out.take(p_c17.search("C11", out, cfgs))
    for c in cfgs:
        census(out, c)
    out.need("functions compared", 2)
    out.need("cases", 20)
    return out
