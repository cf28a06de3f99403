"""C17: tree search and insertion agree"""
from . import core, spec
from .report import Outcome
from .spec import LISP, nil
from .p_c26 import A, car, cdr


def LEFT(x): return car(cdr(x))
def PCELL(x): return cdr(cdr(x))
def RIGHT(x): return cdr(PCELL(x))
def PARENT(x): return car(PCELL(x))
def KEY(x): return car(car(x))
def VALUE(x): return cdr(car(x))


def attached(tr, n):
    """the new node was hung into the tree: the colouring that follows only rotates"""
    return tr[n][0] in ("setcar", "setcdr") and tr[n][2][0] == "r" and tr[tr[n][2][1]][0] == "lisp_tree_new"


class O(core.O):
    less_left = True

    def norm(self, t):
        t = super().norm(t)
        if isinstance(t, tuple) and t and t[0] == "car" and t[1][0] == "r" and t[1][1] < len(self.row.trace):
            ev = self.row.trace[t[1][1]]
            if ev[0] == "lisp_tree_new":
                return self.norm(ev[3])
        return t

    def order(self, a, b):
        """'l', 'e' or 'g' for the names a and b"""
        k = lambda t: self.norm(t) if t[0] != "text" else t
        a, b = k(a), k(b)
        poss = set("leg")
        for (w, u), v in self.row.conds.items():
            if w != "b" or u[0] not in ("symeq", "symlt"):
                continue
            x, y = k(u[1]), k(u[2])
            if u[0] == "symeq" and {x, y} == {a, b}:
                poss &= {"e"} if v else {"l", "g"}
            elif u[0] == "symlt" and (x, y) == (a, b):
                poss &= {"l"} if v else {"e", "g"}
            elif u[0] == "symlt" and (x, y) == (b, a):
                poss &= {"g"} if v else {"e", "l"}
        if not poss:
            raise spec.Skip()
        f = ("order", a, b)
        if f in self.facts:
            poss &= self.facts[f]
        if poss != {"l"} and "l" in poss:
            if self.choose():
                poss = {"l"}
            else:
                poss -= {"l"}
        if poss == {"e", "g"}:
            poss = {"e"} if self.choose() else {"g"}
        self.facts[f] = poss
        return next(iter(poss))

    def walk(self, root, key):
        """(node with that name, None) or (None, (last node, side))"""
        x, up = root, None
        for _ in range(3):
            if self.isnil(x):
                return None, up
            if _ == 2:
                raise spec.Cut()
            c = self.order(key, KEY(x))
            if c == "e":
                return x, None
            left = (c == "l") == self.less_left
            up = (x, left)
            x = LEFT(x) if left else RIGHT(x)
        raise spec.Cut()


class R(O):
    less_left = False


def swap(o, x, kv):
    """the value of node x and the value of the pair kv change places, in either order"""
    ev = o.peek()
    new, old = cdr(kv), VALUE(x)
    n = [("setcdr", car(x), new), ("setcdr", kv, old)]
    if ev is not None and o.match(ev, n[1]):
        n.reverse()
    for w in n:
        o.call(*w, what="the value of the existing node exchanged for the new one (%s)" % core.prim.show(o.norm(w)))


def r_get(o):
    x, up = o.walk(A[1], ("text", A[2]))
    return car(x) if x is not None else nil


def r_upd(o):
    x, up = o.walk(A[1], car(A[2]))
    if x is None:
        return nil
    swap(o, x, A[2])
    return A[2]


def r_add(o):
    new = o.next("lisp_tree_new", LISP, A[1], A[2])
    if new is None:
        o.open()
    x, up = o.walk(A[1], car(A[2]))
    if x is not None:
        swap(o, x, car(new))
        return A[1]
    if up is None:
        return new
    y, left = up
    link = ("setcar", cdr(y), new) if left else ("setcdr", PCELL(y), new)
    want = [("setcar", PCELL(new), y), link]
    for _ in range(2):
        ev = o.peek()
        if ev is None and len(want) == 1:
            break
        w = next((w for w in want if o.match(ev, w)), None)
        if w is None:
            if ev is not None and spec.holes(ev):
                raise spec.Unsure("link")
            o.fail("the new node hung to the %s of %s, where a search ends, expected, but the path %s" % (
                "left" if left else "right", core.prim.show(o.norm(y)), "does nothing more" if ev is None else "does " + core.prim.show(ev)))
        o.i += 1
        want.remove(w)
        if w == link:
            if want:
                # the path is followed to here
                o.open()
            break
    o.open()


def r_new(o):
    up = o.norm(A[1])
    return ("cons", A[2], ("cons", nil, ("cons", ("anyof", PARENT(A[1]), A[1]) if not o.isnil(A[1]) else nil, nil)))


def rot(o, mirror):
    L, Rt = (RIGHT, LEFT) if mirror else (LEFT, RIGHT)

    def cell(node, side):
        """(event, cell) that holds a link"""
        return ("setcar", cdr(node)) if side is LEFT else ("setcdr", PCELL(node)) if side is RIGHT else ("setcar", PCELL(node))
    root, x = A[0], A[1]
    heap, init = {}, {}
    for ev in o.row.trace:
        if ev[0] in ("setcar", "setcdr"):
            if spec.holes(ev):
                raise spec.Unsure("link")
            heap[(ev[0], o.norm(ev[1]))] = o.norm(ev[2])
    o.i = len(o.row.trace)
    want = {}
    ret = root

    def put(node, side, v):
        w, c = cell(node, side)
        want[(w, o.norm(c))] = o.norm(v)
    if not o.isnil(x) and not o.isnil(Rt(x)):
        y, p = Rt(x), PARENT(x)
        b = L(y)
        put(x, Rt, b)
        if not o.isnil(b):
            put(b, PARENT, x)
        put(y, PARENT, p)
        if top(o, root, x, p):
            ret = y
        else:
            put(p, side(o, x, p), y)
        put(y, L, x)
        put(x, PARENT, y)
    for k in set(heap) | set(want):
        h, w = heap.get(k), want.get(k)
        at = o.norm(("car" if k[0] == "setcar" else "cdr", k[1]))
        if h != w and (h or at) != (w or at):
            o.fail("after the rotation %s must be %s, but it is %s" % (core.prim.show(at), core.prim.show(w or at), core.prim.show(h or at)))
    return ret


def top(o, root, x, p):
    """is x the root? only the root has no parent"""
    for (w, u), v in o.row.conds.items():
        if w == "b" and u[0] == "cmp" and u[1] in ("eq", "ne") and {u[2], u[3]} == {root, x}:
            is_root = (u[1] == "eq") == bool(v)
            if o.isnil(p) != is_root:
                raise spec.Skip()
            return is_root
    return o.isnil(p)


def side(o, x, p):
    """is x the left or the right child of p?"""
    for (w, u), v in o.row.conds.items():
        if w == "b" and u[0] == "cmp" and u[1] in ("eq", "ne"):
            s = {o.norm(u[2]), o.norm(u[3])}
            same = (u[1] == "eq") == bool(v)
            for a, b in ((LEFT, RIGHT), (RIGHT, LEFT)):
                if s == {o.norm(x), o.norm(a(p))}:
                    return a if same else b
    if "side" not in o.facts:
        o.facts["side"] = o.choose()
    return LEFT if o.facts["side"] else RIGHT


kw = {"flags": False, "parts": 6, "limit": 1}
SEARCH = {
    "lisp_tree_get": (3, r_get, kw), "lisp_tree_upd": (3, r_upd, kw),
    "lisp_tree_add": (3, r_add, dict(kw, horizon=attached, deep={"lisp_tree_new": ("aa",)})),
}
SHAPE = {
    "lisp_tree_new": (3, r_new, kw), "lisp_tree_lrot": (2, lambda o: rot(o, False), dict(kw, parts=8)),
    "lisp_tree_rrot": (2, lambda o: rot(o, True), dict(kw, parts=8)),
}


def search(prop, out, configs):
    """the three descents must agree with a search tree, whichever side the smaller names are on"""
    tries = []
    for cls in (O, R):
        o = Outcome(out.explanation, [])
        core.compare(prop, SEARCH, o, configs, cls)
        if not o.findings:
            break
        tries.append(o)
    else:
        o = min(tries, key=lambda o: len(o.findings))
    return o


def run(tier):
    out = Outcome("Path summaries of insertion, update and search in the symbol tree, followed two levels down: each path must go to the side a search "
                  "tree puts the name on (the same side in all three), exchange the value of a node of the same name, hang a new node where the search "
                  "for its name ends, and link it to its parent. The links each rotation leaves behind, on every path, are compared with those of a "
                  "rotation.",
                  ["descents are followed two levels; deeper levels run through the same loop",
                   "the balance of the tree (colours) is not judged: it affects only speed",
                   "the names in the tree are assumed ordered, as insertion and rotations leave them"])
    cfg = ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse")
    out.take(search("C17", out, cfg))
    core.compare("C17", SHAPE, out, cfg)
    out.need("functions compared", 4)
    out.need("cases", 20)
    return out
