"""Reader for the Lisp library sources (share/mnml/*.l): nested lists with line numbers"""
import glob, os, re
from . import front

TOK = re.compile(r'''(?P<c>\#[^\n]*|;[^\n]*)|(?P<s>"(?:\\.|[^"\\])*")|(?P<h>\^(?:\\.|.))|(?P<q>['`~,])|(?P<p>[()])|(?P<a>[^\s()"'`~,]+)|(?P<w>\s+)|(?P<x>.)''', re.S)


class Node(list):
    line = 0


class Atom(str):
    line = 0
    kind = "a"


def parse(text):
    line, stack, quote = 1, [Node()], []
    stack[0].line = 1

    def put(x):
        while quote and quote[-1][1] == len(stack):
            q = Node([Atom(quote.pop()[0]), x])
            q.line = x.line
            x = q
        stack[-1].append(x)
    for m in TOK.finditer(text):
        k, t = m.lastgroup, m.group()
        if k == "q":
            quote.append(({"'": "quote", "`": "quote", "~": "splice", ",": "unquote"}[t], len(stack)))
        elif k == "p" and t == "(":
            n = Node(); n.line = line
            stack.append(n)
        elif k == "p":
            if len(stack) < 2:
                raise front.Broken("unbalanced parenthesis at line %d" % line)
            put(stack.pop())
        elif k in ("s", "h", "a"):
            a = Atom(t); a.line = line; a.kind = k
            put(a)
        line += t.count("\n")
    if len(stack) != 1:
        raise front.Broken("unbalanced parenthesis at the end")
    return stack[0]


_lib = None
_paths = {}


def path(name):
    """path of a library script in the repository"""
    library()
    return _paths[name]


def library():
    """file name -> parsed forms"""
    global _lib
    if _lib is None:
        _lib = {}
        for p in sorted(glob.glob(front.REPO + "/share/mnml/*.l")) + sorted(glob.glob(front.REPO + "/bin/mnmlc")):
            _paths[os.path.basename(p)] = os.path.relpath(p, front.REPO)
            _lib[os.path.basename(p)] = parse(open(p, encoding="utf-8").read())
    return _lib


def loads(form):
    """what a (load …) form loads: [("file", name)] and [("module", name, [symbols] or None)]"""
    res = []
    for a in form[1:]:
        if isinstance(a, Atom) and a.kind == "s":
            res.append(("file", str(a)[1:-1]))
        elif isinstance(a, Node) and len(a) == 2 and a[0] == "quote" and isinstance(a[1], Node) and a[1]:
            res.append(("module", str(a[1][0]), [str(x) for x in a[1][1:] if isinstance(x, Atom)]))
        elif isinstance(a, Node) and len(a) == 2 and a[0] == "quote" and isinstance(a[1], Atom):
            res.append(("module", str(a[1]), None))
    return res


def defines(lib, name, seen=None):
    """global names a script defines, itself or through the scripts it loads"""
    seen = seen if seen is not None else set()
    if name in seen or name not in lib:
        return set()
    seen.add(name)
    res = set()
    for f in lib[name]:
        if isinstance(f, Node) and len(f) > 1 and isinstance(f[0], Atom):
            if f[0] in ("def", "setq") and isinstance(f[1], Atom):
                res.add(str(f[1]))
            if f[0] == "load":
                for l in loads(f):
                    if l[0] == "file":
                        res |= defines(lib, os.path.basename(l[1]), seen)
    return res
