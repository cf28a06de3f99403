"""C22: the compiler only emits operations the runtime provides.

The compiler's tables and templates (share/mnml/cc.l, cps.l) are read as data. Every operator in a table is one of the
interpreter's primitives and has as many operands as that primitive has parameters, in the generator as in the type rules. Its
template is expanded (conditions that depend on the program compiled are left open and every outcome is expanded) to the C text
it stands for, and that text is a compile-fail witness: it must be accepted by the compiler against the current headers, and
every function it calls must be one the runtime library defines with external linkage."""
import os, re, subprocess
from . import front, lispsrc, sem
from .lispsrc import Atom, Node
from .report import Finding, Outcome

GEN, RULES = "cc.l", "cps.l"
TABLES = (("cc.l", "cc:gen:block"), ("cps.l", "cps:type:findr"))     # operands are followed by the continuation
LIMIT, FUEL = 200, 20000
CALLEE = "other"


class Lost(Exception):
    """a form of Lisp or a value the expansion does not know"""


class U:
    """a value that depends on the program compiled"""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "?" + self.what


class Str(str):
    pass


class Pair:
    """a pair whose second half is no list that is known"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __repr__(self):
        return "(%r . %r)" % (self.a, self.b)


class Fun:
    def __init__(self, params, body, env, name=None, got=()):
        self.params, self.body, self.env, self.name, self.got = params, body, env, name, list(got)

    def __repr__(self):
        return "fun:%s" % (self.name or id(self.body))


NIL, T = [], Atom("T")


def text(x):
    if isinstance(x, Str):
        return str(x)
    if isinstance(x, U):
        return "0"
    if isinstance(x, (Atom, str)):
        return str(x)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, list):
        return " ".join(text(e) for e in x)
    raise Lost("printing %r" % (x,))


def literal(a):
    """the value of an atom written in the source, quoted"""
    if a.kind == "s":
        return Str(re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), a[1:-1]))
    if a.kind == "h":
        return Str(a[1:])
    if re.fullmatch(r"[+-]?\d+", a):
        return int(a)
    if a == "NIL":
        return NIL
    return Atom(a)


def split(form):
    """(proper elements, tail or None) of a list written in the source"""
    if len(form) >= 3 and isinstance(form[-2], Atom) and form[-2] == "." and form[-2].kind == "a":
        return list(form[:-2]), form[-1]
    return list(form), None


def subst(x, name, by):
    if isinstance(x, Node):
        n = Node(subst(e, name, by) for e in x)
        n.line = x.line
        return n
    return by if isinstance(x, Atom) and x.kind == "a" and x == name else x


def clauses(match):
    """[(pattern, [forms], line)] of a (match …) or (cond …), with the clauses spliced in by (foldl …) written out"""
    out = []
    for c in match[2:]:
        if isinstance(c, Node) and len(c) == 2 and c[0] == "splice":
            f = c[1]
            # (foldl (\ (acc e) (cons (cons PAT RES) acc)) NIL '(ops…))
            if not (isinstance(f, Node) and len(f) == 4 and f[0] == "foldl" and isinstance(f[1], Node) and len(f[1]) == 3 and f[1][0] == "\\"
                    and len(f[1][1]) == 2 and isinstance(f[3], Node) and f[3][:1] == ["quote"]):
                raise Lost("clauses spliced in by another form, line %d" % c.line)
            acc, e = f[1][1]
            b = f[1][2]
            if not (len(b) == 3 and b[0] == "cons" and b[2] == acc and len(b[1]) == 3 and b[1][0] == "cons"):
                raise Lost("clauses made otherwise, line %d" % c.line)
            pat, res = b[1][1], b[1][2]
            for op in f[3][1]:
                p = subst(pat, e, op)
                if isinstance(p, Node) and p[:1] == ["list"]:
                    n = Node(p[1:]); n.line = p.line
                    p = n
                if isinstance(res, Node) and res[:1] == ["quote"]:
                    # inside a quotation the bound name is a name like any other
                    r = [res[1]]
                elif isinstance(res, Node) and res[:1] == ["list"]:
                    n = Node()
                    n.line = res.line
                    for x in subst(res, e, op)[1:]:
                        if isinstance(x, Node) and x[:1] == ["quote"]:
                            n.append(x[1])
                        elif isinstance(x, Node) and x[:1] == ["str"]:
                            a = Atom('"%s"' % x[1]); a.kind = "s"; a.line = x.line
                            n.append(a)
                        else:
                            n.append(x)
                    r = [n]
                else:
                    raise Lost("clauses made otherwise, line %d" % c.line)
                out.append((p, r, c.line))
            continue
        if not isinstance(c, Node) or not c:
            raise Lost("clause, line %d" % match.line)
        head, tail = split(c)
        if tail is not None and len(head) == 1:
            out.append((head[0], [tail], c.line))
        else:
            n = Node(head[1:]); n.line = c.line
            out.append((head[0], [n], c.line))
    return out


class Eval:
    """expansion of the templates. Outcomes of conditions that are not known are taken from a script of choices."""
    def __init__(self, defs, choices):
        self.defs, self.choices, self.taken, self.memo, self.out, self.fuel = defs, list(choices), [], {}, [], FUEL

    def choose(self, key, n):
        if n == 1:
            return 0
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        c = self.choices[i] if i < len(self.choices) else 0
        self.taken.append((c, n))
        self.memo[key] = c
        return c

    def true(self, v):
        if isinstance(v, U):
            return self.choose(v.what, 2) == 0
        return not (isinstance(v, list) and not v)

    def bind(self, pat, v, env):
        if isinstance(pat, Node):
            ps, tail = split(pat)
            for p in ps:                                    # what is missing is NIL, what is left over is dropped
                if isinstance(v, U):
                    self.bind(p, U("car " + v.what), env)
                    v = U("cdr " + v.what)
                    continue
                a, v = (v.a, v.b) if isinstance(v, Pair) else (v[0], v[1:]) if isinstance(v, list) and v else (NIL, NIL)
                self.bind(p, a, env)
            if tail is not None:
                self.bind(tail, v, env)
            return
        if pat != "_":
            env[str(pat)] = v

    def prog(self, forms, env):
        r = NIL
        for f in forms:
            r = self.ev(f, env)
        return r

    def call(self, f, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise Lost("does not end")
        if isinstance(f, Atom) and not isinstance(f, Str):
            f = self.look(f, {})
        if isinstance(f, Fun):
            args = f.got + list(args)
            if callable(f.body):
                if f.params and len(args) < f.params:
                    return Fun(f.params, f.body, f.env, f.name, args)
                return f.body(*args)
            env = dict(f.env)
            if isinstance(f.params, Atom):                # (def f @ …): all the arguments
                env["@"] = args
                return self.prog(f.body, env)
            ps, tail = split(f.params)
            if len(args) < len(ps):
                return Fun(f.params, f.body, f.env, f.name, args)
            if len(args) > len(ps) and tail is None:
                raise Lost("too many arguments for %s" % f.name)
            for p, a in zip(ps, args):
                self.bind(p, a, env)
            if tail is not None:
                self.bind(tail, args[len(ps):], env)
            return self.prog(f.body, env)
        raise Lost("call of %r" % (f,))

    def look(self, a, env):
        if a in env:
            return env[a]
        if a in ("NIL", "T"):
            return NIL if a == "NIL" else T
        if a in self.defs:
            return self.defs[a]
        if a in BUILT:
            c = BUILT[a].__code__
            return Fun(0 if c.co_flags & 4 else c.co_argcount - 1, BUILT[a].__get__(self), {}, str(a))
        raise Lost("name %s" % a)

    def ev(self, x, env):
        if isinstance(x, Atom):
            if x.kind in "sh" or re.fullmatch(r"[+-]?\d+", x):
                return literal(x)
            return self.look(x, env)
        if not isinstance(x, Node):
            raise Lost("form %r" % (x,))
        if not x:
            return NIL
        h = x[0]
        if isinstance(h, Atom) and h not in env:
            s = getattr(self, "x_" + SPECIAL.get(h, "-"), None)
            if s:
                return s(x, env)
        f = self.ev(h, env)
        return self.call(f, [self.ev(a, env) for a in x[1:]])

    def x_quote(self, x, env):
        return quoted(x[1])

    def x_lambda(self, x, env):
        return Fun(x[1], x[2:], env)

    def x_prog(self, x, env):
        return self.prog(x[1:], env)

    def x_if(self, x, env):
        if self.true(self.ev(x[1], env)):
            return self.ev(x[2], env)
        return self.prog(x[3:], env)

    def x_when(self, x, env):
        return self.prog(x[2:], env) if self.true(self.ev(x[1], env)) else NIL

    def x_unless(self, x, env):
        return NIL if self.true(self.ev(x[1], env)) else self.prog(x[2:], env)

    def x_and(self, x, env):
        r = T
        for e in x[1:]:
            r = self.ev(e, env)
            if not self.true(r):
                return NIL
        return r

    def x_let(self, x, env):
        env = dict(env)
        for b in x[1]:
            head, tail = split(b)
            if tail is None or len(head) != 1:
                if len(b) < 1:
                    raise Lost("binding")
                n = Node(b[1:]); n.line = b.line
                head, tail = [b[0]], n
            self.bind(head[0], self.ev(tail, env), env)
        return self.prog(x[2:], env)

    def x_def(self, x, env):
        raise Lost("local definition")

    def x_pipe(self, x, env):
        v = self.ev(x[1], env)
        for st in x[2:]:
            v = self.call(self.ev(st, env), [v])
        return v

    def x_match(self, x, env):
        v = self.ev(x[1], env)
        cl = clauses(x)
        open_ = []
        for i, (p, forms, line) in enumerate(cl):
            e = dict(env)
            m = matches(p, v, e)
            if m is True and not open_:
                return self.prog(forms, e)
            if m is not False:
                open_.append((forms, e, p))
            if m is True:
                break
        if not open_:
            return NIL
        real = [o for o in open_ if o[2] != "_" and o[2] != "NIL"] or open_     # the cases the template is written for
        forms, e, p = real[self.choose("match %r" % (shape(v),), len(real))]
        return self.prog(forms, e)

    def x_cond(self, x, env):
        v = self.ev(x[1], env)
        for p, forms, line in clauses(x):
            if isinstance(p, Atom) and (p == "_" or is_a(p, v)):
                return self.prog(forms, env)
        return NIL


def shape(v):
    return [shape(e) for e in v] if isinstance(v, list) else v.what if isinstance(v, U) else repr(v) if isinstance(v, Pair) else v


def is_a(p, v):
    if isinstance(v, U):
        return p == "sym?"
    return {"sym?": isinstance(v, Atom) and v != "T", "num?": isinstance(v, int), "lst?": isinstance(v, list), "nil?": v == [],
            "str?": isinstance(v, Str)}.get(str(p), False)


def matches(p, v, env):
    """True, False, or None when the value leaves it open"""
    if isinstance(p, Node):
        ps, tail = split(p)
        if isinstance(v, U):
            return None
        r = True
        for q in ps:
            if isinstance(v, U):
                r = None
                break
            if isinstance(v, Pair):
                a, v = v.a, v.b
            elif isinstance(v, list) and v:
                a, v = v[0], v[1:]
            else:
                return False
            m = matches(q, a, env)
            if m is False:
                return False
            r = r and m
        if tail is not None:
            m = matches(tail, v, env)
            return False if m is False else r and m
        if isinstance(v, U):
            return None
        return r if isinstance(v, list) and not v else False
    if p == "_":
        return True
    if isinstance(v, U):
        return None
    w = literal(p)
    return type(w) is type(v) and w == v if not isinstance(w, list) else w == v


def quoted(x):
    if isinstance(x, Node):
        ps, tail = split(x)
        if tail is not None:
            raise Lost("quoted pair")
        return [quoted(e) for e in ps]
    return literal(x)


SPECIAL = {"quote": "quote", "\\": "lambda", "prog": "prog", "if": "if", "when": "when", "unless": "unless", "and": "and", "let": "let", "|>": "pipe",
           "match": "match", "cond": "cond", "def": "def"}


def b_prin(self, *a):
    self.out += [text(e) for e in a]
    return NIL


def b_prinl(self, *a):
    self.out += [text(e) for e in a] + ["\n"]
    return NIL


def same(self, a, b):
    if isinstance(a, U) and isinstance(b, U) and a.what == b.what:
        return T
    if isinstance(a, U) or isinstance(b, U):
        return U("%r = %r" % tuple(sorted((repr(a), repr(b)))))
    return T if a == b else NIL


def b_differ(self, a, b):
    r = same(self, a, b)
    return U("not " + r.what) if isinstance(r, U) else NIL if r else T


def b_not(self, a):
    return NIL if self.true(a) else T


def b_arith(name, fn):
    def go(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return fn(a, b)
        if isinstance(a, (int, U)) and isinstance(b, (int, U)):
            return U("%r %s %r" % (a, name, b))
        raise Lost(name)
    return go


def b_cmp(name, fn):
    def go(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return T if fn(a, b) else NIL
        return U("%r %s %r" % (a, name, b))
    return go


def known_list(x, name):
    if not isinstance(x, list):
        raise Lost("%s of %r" % (name, x))
    return x


def b_car(self, a):
    if isinstance(a, U):
        return U("car " + a.what)
    if isinstance(a, Str):
        return Str(a[:1]) if a else NIL
    return known_list(a, "car")[0] if a else NIL


def b_cdr(self, a):
    if isinstance(a, U):
        return U("cdr " + a.what)
    if isinstance(a, Str):
        return Str(a[1:])
    return known_list(a, "cdr")[1:]


def b_filter(self, f, l):
    return [e for e in known_list(l, "filter") if self.true(self.call(f, [e]))] if not isinstance(l, U) else U("filter " + l.what)


def b_iter(self, f, l):
    if isinstance(l, U):
        # each element is some reference: once stands for all
        if self.choose("any " + l.what, 2) == 0:
            return NIL
        l = [Pair(Atom("_2"), U("count in " + l.what))]      # references: an association of names
    for e in l:
        self.call(f, [e])
    return NIL


def b_iter2(self, f, l, m):
    for a, b in zip(known_list(l, "iter2"), known_list(m, "iter2")):
        self.call(f, [a, b])
    return NIL


def b_foldl(self, f, acc, l):
    for e in known_list(l, "foldl"):
        acc = self.call(f, [acc, e])
    return acc


def b_assoc(self, k, l):
    if k == CALLEE and isinstance(l, U):
        return NIL                                          # the name of a function of the program has no type and no place
    return U("%r in %s" % (k, shape(l)))


def b_len(self, l):
    return len(l) if isinstance(l, list) else U("len " + l.what)


def b_str(self, a):
    return Str(text(a)) if not isinstance(a, U) else U("str " + a.what)


def b_eval(self, a):
    return a


BUILT = {"prin": b_prin, "prinl": b_prinl, "printl": b_prinl, "=": same, "<>": b_differ, "not": b_not, "car": b_car, "cdr": b_cdr, "filter": b_filter,
         "iter": b_iter, "iter2": b_iter2, "foldl": b_foldl, "assoc": b_assoc, "len": b_len, "str": b_str, "eval": b_eval,
         "+": b_arith("+", lambda a, b: a + b), "-": b_arith("-", lambda a, b: a - b),
         ">": b_cmp(">", lambda a, b: a > b), "<": b_cmp("<", lambda a, b: a < b), ">=": b_cmp(">=", lambda a, b: a >= b), "<=": b_cmp("<=", lambda a, b: a <= b),
         "aton": lambda self, a: U("aton " + a.what) if isinstance(a, U) else int(a),
         "last": lambda self, l: known_list(l, "last")[-1] if l else NIL, "rev": lambda self, l: known_list(l, "rev")[::-1],
         "list": lambda self, *a: list(a), "cons": lambda self, a, b: [a] + b if isinstance(b, list) else Pair(a, b),
         "nil?": lambda self, a: U("nil? " + a.what) if isinstance(a, U) else T if a == [] else NIL,
         "lst?": lambda self, a: T if isinstance(a, list) else NIL, "sym?": lambda self, a: T if is_a("sym?", a) else NIL}


def definitions(name):
    """functions a script defines"""
    out = {}
    for f in lispsrc.library().get(name, []):
        if isinstance(f, Node) and f[:1] == ["def"] and len(f) >= 4:
            body = f[3:]
            if len(body) > 1 and isinstance(body[0], Atom) and body[0].kind == "s":
                body = body[1:]
            out[str(f[1])] = (f[2], body, f)
    return out


def find(form, head):
    if isinstance(form, Node):
        if form[:1] == [head]:
            yield form
        for e in form:
            yield from find(e, head)


def table(defs, fn, say):
    """operators of a table: {(operator, operands written)}: line. A pattern (op _ _ cont) has one element that is the continuation."""
    out = {}
    for m in find(defs[fn][2], "match"):
        for p, forms, line in clauses(m):
            if isinstance(p, Node) and p and isinstance(p[0], Atom) and p[0] not in ("_", "quote"):
                ps, tail = split(p)
                if tail is None and all(isinstance(q, Atom) and q == "_" for q in ps[1:]):
                    out.setdefault((str(p[0]), len(ps) - 1), line)
        break
    return out


def expand(defs, entry, args, pre=None):
    """every text the template stands for: [text], or Lost"""
    todo, done, texts = [[]], set(), []
    while todo:
        ch = todo.pop()
        if tuple(ch) in done:
            continue
        done.add(tuple(ch))
        if len(done) > LIMIT:
            break
        e = Eval(defs, ch)
        e.call(defs[entry], args)
        taken = [c for c, n in e.taken]
        for i in range(len(ch), len(e.taken)):
            for k in range(1, e.taken[i][1]):
                todo.append(taken[:i] + [k])
        t = "".join(e.out)
        if t not in texts:
            texts.append(t)
    return texts


def compile_(src, config):
    """(errors [(line, text)], functions called that are not defined in the text)"""
    d = front.scratch()
    c, o = os.path.join(d, "w22.c"), os.path.join(d, "w22-%s.bc" % config)
    open(c, "w").write(src)
    r = subprocess.run([front.LLVM + "/clang"] + [f for f in front.flags(config) if f != "-w"] + ["-Wno-everything", "-Dstatic=__attribute__((used)) static", "-O0", "-ferror-limit=0", "-Werror=implicit-function-declaration", "-Werror=int-conversion",
                       "-Werror=incompatible-pointer-types", "-Werror=incompatible-function-pointer-types", "-emit-llvm", "-c", c, "-o", o], stderr=subprocess.PIPE, text=True)
    errs = [(int(m.group(1)), m.group(2)) for m in re.finditer(r"w22\.c:(\d+):\d+: (?:fatal )?error: (.*)", r.stderr)]
    if r.returncode and not errs:
        errs = [(0, r.stderr[:300])]
    und = []
    if not r.returncode:
        und = [l.split()[-1] for l in subprocess.check_output([front.LLVM + "/llvm-nm", "-u", o], text=True).splitlines()]
    return errs, und


def provided(config):
    out = set()
    bc = front.bitcode(config)
    for f in bc["core"] + bc["grammar"]:
        for l in subprocess.check_output([front.LLVM + "/llvm-nm", "--defined-only", "--extern-only", f], text=True, stderr=subprocess.DEVNULL).splitlines():
            out.add(l.split()[-1])
    return out


def run(tier):
    out = Outcome("The operator tables of the compiler (generator and type rules) are read from the library scripts: each operator must be a primitive "
                  "with as many parameters as the table gives it operands (a primitive that takes its arguments raw takes any number), and both tables "
                  "must agree. The C text each template stands for, for every outcome of the conditions the compiled program decides, is type-checked "
                  "against the current headers as a compile-fail witness, and every runtime function it calls must be defined by the runtime library.",
                  ["operands are names (the templates put abort() for anything else)",
                   "what the emitted code computes is not compared with the interpreter",
                   "the C compiler's declarations of the standard library are taken as given"])
    prims = {}
    for g in front.modules():
        prog, nat, tab, end = sem.natives(g, "debug-nosse")
        for n in nat:
            if n.err or n.name is None:
                out.undecided[str(n.loadfn)] = "parameters not known"
            else:
                prims[n.name] = (None if n.rest else len(n.params))
    tables = {}
    for script, fn in TABLES:
        defs = definitions(script)
        if fn not in defs:
            out.undecided[script] = "no %s" % fn
            continue
        try:
            tables[script] = table(defs, fn, out)
        except Lost as e:
            out.undecided["%s %s" % (script, fn)] = str(e)
            continue
        for (op, n), line in sorted(tables[script].items()):
            out.count("operators")
            loc = "%s:%d" % (lispsrc.path(script), line)
            if op not in prims:
                if not out.undecided:
                    out.add(Finding("C22", "no primitive", lispsrc.path(script), loc, op, "the compiler knows %s, which is no primitive of the interpreter" % op))
                continue
            want = prims[op]
            if want is not None and want != n - 1:
                out.add(Finding("C22", "arity", lispsrc.path(script), loc, "%s/%d" % (op, n - 1),
                                "the compiler gives %s %d operands; the primitive has %d parameters" % (op, n - 1, want)))
    if len(tables) == 2:
        a, b = (tables[s] for s, _ in TABLES)
        for x in sorted(set(a) ^ set(b)):
            s = TABLES[0 if x in a else 1][0]
            out.add(Finding("C22", "tables", lispsrc.path(s), "%s:%d" % (lispsrc.path(s), (a.get(x) or b.get(x))), "%s/%d" % (x[0], x[1] - 1),
                            "%s with %d operands is in one of the compiler's tables only" % (x[0], x[1] - 1)))
    # the templates
    raw = definitions(GEN)
    defs = {}
    for k, (params, body, form) in raw.items():
        defs[k] = Fun(params, body, {}, k)
    for k in ("o|", "o>", "<o", "/**/"):
        defs[k] = Fun(None, lambda *a: Str(""), {}, k)
    loc = lispsrc.path(GEN)
    pieces = []          # (operator, C text of one definition)

    def sym(x):
        a = Atom(x)
        return a
    kvar, nxt, cont = sym("_3"), sym("_4"), U("CONT")
    jobs = []
    for (op, n), line in sorted(tables.get(GEN, {}).items()):
        body = [sym(op)] + [sym("_%d" % i) for i in range(n - 1)] + [nxt]
        if op in ("if", "unless", "when"):
            body = [sym(op), sym("_0")] + [[sym("car"), sym("_%d" % (i + 1)), nxt] for i in range(n - 1)]
        jobs.append((op, line, body))
    if GEN in tables:
        ln = raw["cc:gen:block"][2].line
        jobs.append(("call of the continuation", ln, [nxt, sym("_0")]))
        jobs.append(("call", ln, [sym(CALLEE), sym("_0"), sym("_1"), nxt]))
        jobs.append(("call of itself", ln, [sym("NAME0"), sym("_0"), sym("_1"), nxt]))
    ARGS = [sym("pa"), sym("pb")]
    head = []
    try:
        p = expand(defs, "cc:gen:prologue", [])
        head = [p[0]]
    except (Lost, KeyError, TypeError) as e:
        out.undecided["cc:gen:prologue"] = "template: %s" % e
    uid = 0
    if head:
        for op, line, body in jobs:
            try:
                ts = expand(defs, "cc:gen:function", [sym("NAME0"), ARGS, U("REFS"), U("TYPES"), cont, kvar, body])
            except (Lost, KeyError, TypeError, IndexError, RecursionError) as e:
                out.undecided["template of %s" % op] = str(e)
                continue
            for t in ts:
                out.count("texts")
                if "Unsupported operation" in t or "Unsupported predicate" in t:
                    out.add(Finding("C22", "no template", loc, "%s:%d" % (loc, line), op, "the compiler accepts %s but has no code for it" % op))
                    continue
                uid += 1
                pieces.append((op, line, t.replace("_mnml_NAME0_3(", "_mnml_f%d(" % uid, 1)))
            out.count("templates")
        for name, args in (("cc:gen:identity", [sym("NAME0"), U("TYPES"), kvar]), ("cc:gen:prototype", [sym("NAME0"), ARGS]),
                           ("cc:gen:main", [sym("NAME0"), ARGS, U("REFS"), sym("_4")]), ("cc:gen:entry", [sym("NAME0"), ARGS, U("TYPES")]),
                           ("cc:gen::module", [sym("MODULE0"), [sym("NAME0")]])):
            if name not in defs:
                continue
            try:
                ts = expand(defs, name, args)
            except (Lost, KeyError, TypeError, IndexError, RecursionError) as e:
                out.undecided[name] = str(e)
                continue
            out.count("templates")
            for t in ts[:1]:
                out.count("texts")
                pieces.append((name, raw[name][2].line, t))
        configs = ["debug", "release"] if tier == "quick" else list(front.CONFIGS)
        protos = "static atom_t _mnml_NAME0_4(const lisp_t lisp, const atom_t E, closure_t C, value_t V);\n" \
                 "static atom_t _mnml_NAME0(const lisp_t lisp, const atom_t E, value_t pa, value_t pb, closure_t C, callback_t K);\n"
        src, where = head[0] + protos, {}
        order = [p for p in pieces if not p[0].startswith("cc:gen")] + [p for p in pieces if p[0].startswith("cc:gen")]
        for op, line, t in order:
            start = src.count("\n") + 1
            src += t + "\n"
            for i in range(start, src.count("\n") + 1):
                where[i] = (op, line)
        for cfg in configs:
            errs, und = compile_(src, cfg)
            for l, msg in errs:
                op, line = where.get(l, ("prologue", raw["cc:gen:prologue"][2].line))
                out.add(Finding("C22", "does not compile", loc, "%s:%d" % (loc, line), "%s: %s" % (op, msg),
                                "the code emitted for %s is rejected: %s [%s]" % (op, msg, cfg)))
            have = provided(cfg)
            for f in und:
                if f in have:
                    out.count("runtime functions")
                elif f.startswith(("lisp_", "slab_", "tree_", "module_")):
                    use = next(((op, line) for op, line, t in order if f + "(" in t), ("the runtime macros", 1))
                    out.add(Finding("C22", "not provided", loc, "%s:%d" % (loc, use[1]), "%s: %s" % (use[0], f),
                                    "the code emitted for %s calls %s, which the runtime library does not provide [%s]" % (use[0], f, cfg)))
        for op, line, t in pieces[:3]:
            out.sample("%s: %s" % (op, " ".join(t.split())[:200]))
    out.need("operators", 1)
    return out
