"""The reader: the scanner's automaton (as ragel builds it), the actions on its transitions and the rules of the grammar, each action compiled
as a function of its own and summarised over linear forms."""
import html, os, re, subprocess
from . import front, lin
from .lin import add, const, isconst, var

KINDS = ["POPEN", "PCLOSE", "DOT", "CQUOTE", "BACKTICK", "TILDE", "NUMBER", "CHAR", "STRING", "SYMBOL", "C_NIL", "C_TRUE", "C_WILDCARD"]


# -- compiling pieces of the sources

def unit(name, text, keep=(), config="debug-nosse", inline=True):
    d = os.path.join(front.scratch(), "unit-" + name)
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, name + ".c")
    open(c, "w").write(text)
    bc, kf, oj = c[:-2] + ".bc", c + ".keep", c + ".json"
    front.sh([front.LLVM + "/clang"] + front.flags(config) + ["-I" + front.grammar(), "-O1", "-Xclang", "-disable-llvm-passes",
                                                               "-emit-llvm", "-c", c, "-o", bc])
    open(kf, "w").write("\n".join(sorted(keep)) + "\n")
    front.sh([front.dumper(), bc, kf, oj] + ([] if inline else ["noinline"]))
    import json
    return front.Program(name, json.load(open(oj)))


class Fsm:
    def __init__(self, xml):
        self.actions, self.tables, self.states, self.entry = {}, {}, {}, {}
        for m in re.finditer(r'<action id="(\d+)"(?: name="([^"]*)")?[^>]*>(.*?)</action>', xml, re.S):
            self.actions[int(m.group(1))] = (m.group(2) or "", m.group(3))
        for m in re.finditer(r'<action_table id="(\d+)"[^>]*>([^<]*)</action_table>', xml):
            self.tables[int(m.group(1))] = [int(t) for t in m.group(2).split()]
        for m in re.finditer(r'<entry name="([^"]*)">(\d+)</entry>', xml):
            self.entry[m.group(1)] = int(m.group(2))
        for m in re.finditer(r'<state id="(\d+)"[^>]*>(.*?)</state>', xml, re.S):
            tr = []
            for a, b, s, t in re.findall(r'<t>(-?\d+) (-?\d+) (\S+) (\S+)</t>', m.group(2)):
                tr.append((int(a), int(b), None if s == "x" else int(s), None if t == "x" else int(t)))
            sa = re.search(r'<state_actions>(\S+) (\S+) (\S+)</state_actions>', m.group(2))
            eof = re.search(r'<eof_t>(\S+) (\S+)</eof_t>', m.group(2))
            f = lambda s: None if s == "x" else int(s)
            self.states[int(m.group(1))] = (tr, tuple(f(x) for x in sa.groups()) if sa else (None, None, None),
                                            tuple(f(x) for x in eof.groups()) if eof else None)

    def step(self, s, c):
        if c > 127:
            c -= 256
        for a, b, t, acts in self.states[s][0]:
            if a <= c <= b:
                return t, acts
        return None, None


def fsm():
    d = front.grammar()
    x = os.path.join(d, "lexer.xml")
    front.sh(["ragel", "-x", "lexer.rl", "-o", x], cwd=d)
    return Fsm(open(x).read())


def body(xmltext):
    """C text of an action: the scanner's own moves become returns"""
    t = re.sub(r"<goto>[^<]*</goto>", " return; ", xmltext)
    t = re.sub(r"<(hold|ret|next|call|exec|get_tokend)[^>]*>(.*?)</\1>", " ", t, flags=re.S)
    t = re.sub(r"<[^>]*>", "", t)
    return html.unescape(t)


def preamble():
    s = open(front.REPO + "/lib/grammar/lexer.rl").read()
    return s[:s.index("%%{")]


class Actions:
    """name of an action's text -> path summary of the function it makes"""

    def __init__(self, texts):
        self.texts = sorted(set(texts))
        src = "#include <mnml/lexer.h>\nconst long probe_ts = (long)__builtin_offsetof(struct lexer, ts);\nconst long probe_te = (long)__builtin_offsetof(struct lexer, te);\n" \
            "const long probe_depth = (long)__builtin_offsetof(struct lexer, depth);\n" + preamble() + "\n" + "".join("const long probe_%s = (long)(%s);\n" % (k, k) for k in KINDS)
        for n, t in enumerate(self.texts):
            src += "\nvoid action_%d(lexer_t lexer)\n{\n%s\n}\n" % (n, t)
        self.prog = unit("actions", src, keep={"Parse", "parse_error", "strncpy", "strtoll", "__isoc23_strtoll", "__isoc23_strtol", "strtol", "strndup"})
        g = self.prog.globals
        val = lambda k: g["probe_" + k]["init"][1] if g["probe_" + k]["init"][0] == "i" else 0
        self.off = {k: val(k) for k in ("ts", "te", "depth")}
        self.kind = {val(k): k for k in KINDS}
        self.rows = {}
        for n, t in enumerate(self.texts):
            f = self.prog.functions["action_%d" % n]
            r = Action(self.prog, f)
            try:
                r.go()
                self.rows[t] = r
            except lin.Unsure as ex:
                self.rows[t] = str(ex)


class Action(lin.Run):
    NAMED = {"Parse", "parse_error", "strncpy", "memcpy", "strtoll", "strndup", "malloc", "calloc", "strtol", "atoll", "memset", "__isoc23_strtoll"}

    def __init__(self, prog, f):
        super().__init__(f, budget=20000)
        self.prog = prog

    def mayalias(self, a, b):
        # the text, the token's copy and the scanner's own record are different memory
        ra, rb = self.region(a), self.region(b)
        new = lambda r: any(s[0] == "res" for s in r)
        if new(ra) != new(rb):
            return False
        return bool(ra & rb)

    def load(self, st, addr, size, x):
        n = dict(addr[1])
        if any(s[0] == "res" for s in n):
            try:
                return super().load(st, addr, size, x)
            except lin.Unsure:
                return var(("copy", addr, size))
        return super().load(st, addr, size, x)

    def call(self, x, st):
        c = x.callee
        args = [self.val(st, a) for a in x.a]
        if c in ("__isoc23_strtoll", "__isoc23_strtol"):
            c = c[9:]
        if c in ("malloc", "calloc", "strndup", "strtoll", "strtol", "atoll", "Parse", "parse_error"):
            st.env[x.i] = var(("res", x.i))
            st.events.append((c, args, st.env[x.i], x.loc(), len(st.mem)))
        elif c in ("strncpy", "memcpy") or (c or "").startswith("llvm.memcpy"):
            st.events.append(("copy", args, st.env.get(x.i), x.loc(), len(st.mem)))
            st.env[x.i] = args[0]
        else:
            return super().call(x, st)


# -- the characters the reader takes after ^

def escapes(out=None):
    m = fsm()
    acts = Actions([t for _, t in alltexts(m)])
    res = {}
    for c in range(33, 127):
        v = charvalue(m, acts, "^\\" + chr(c))
        if v is not None:
            res[chr(c)] = v
    return res


def alltexts(m):
    L = []
    for i, (nm, x) in m.actions.items():
        for part in subactions(x):
            L.append((i, part[1]))
    return L


def subactions(x):
    """[(act, text)] of an action: the plain text, the embedded token action, or the cases of a switch"""
    if "<lm_switch>" in x:
        return [(int(a), body(t)) for a, t in re.findall(r'<sub_action id="(\d+)">(.*?)</sub_action>', x, re.S)]
    t = re.findall(r"<sub_action>(.*?)</sub_action>", x, re.S)
    if t:
        return [(None, body(t[0]))]
    if "<text>" in x:
        return [(None, body(x))]
    return []


class Scan:
    """the scanner started at a token: moves over characters, reports (text of the action, distance of the token's end from the next character)"""

    def __init__(self, m):
        self.m = m

    def start(self):
        return (self.m.entry["main"], None, None)

    def run(self, tables, act, te, at):
        """effect of a list of actions at character number `at`; -> act, te, [(text, te)], error"""
        out = []
        if tables is None:
            return act, te, out
        for i in self.m.tables[tables]:
            nm, x = self.m.actions[i]
            k = re.search(r"<set_tokend>(-?\d+)</set_tokend>", x)
            if k and "<lm_switch>" not in x:
                te = at + int(k.group(1))
            k = re.search(r"<set_act>(\d+)</set_act>", x)
            if k:
                act = int(k.group(1))
            for a, t in subactions(x):
                if a is None or a == act:
                    out.append((t, te))
        return act, te, out

    def feed(self, cfg, c, at):
        """-> next configuration (None: no move), actions run"""
        s, act, te = cfg
        t, acts = self.m.step(s, c)
        if acts is None and t is None:
            e = self.m.states[s][1]
            _, _, o = self.run(e[2] if len(e) > 2 else None, act, te, at)
            return None, o
        act, te, o = self.run(acts, act, te, at)
        return (t, act, te) if t is not None else None, o

    def eof(self, cfg, at):
        s, act, te = cfg
        e = self.m.states[s][2]
        if e is None:
            return None
        act, te, o = self.run(e[1], act, te, at)
        return o


def token(m, text, then=" "):
    """[(action text, start.., end)] the scanner performs on a token followed by a delimiter"""
    sc = Scan(m)
    cfg, L = sc.start(), []
    for i, c in enumerate(text + then):
        cfg, o = sc.feed(cfg, ord(c), i)
        L += [(t, te, i) for t, te in o]
        if cfg is None:
            return L, False
        if o and any("Parse" in t for t, _ in o) and cfg[0] == m.entry["main"]:
            break
    return L, True


def sym_of(acts):
    f = var(("v", 0))
    return (var(("ld", add(f, const(acts.off["ts"])), 8)), var(("ld", add(f, const(acts.off["te"])), 8)), var(("ld", add(f, const(acts.off["depth"])), 8)))


def bytesub(a, ts, te, text):
    """a linear form with the token's characters and its end put in"""
    def walk(s):
        if s == dict(te[1]) and False:
            return None
        if s[0] == "ld" and s[2] == 1:
            d = isconst(add(lsub(s[1]), ts, -1))
            if d is not None and 0 <= d < len(text):
                return const(ord(text[d]))
        return None

    def lsub(b):
        r = const(b[0])
        for s, c in b[1]:
            if s == te[1][0][0]:
                r = add(r, add(ts, const(len(text))), c)
            else:
                w = walk(s)
                r = add(r, w if w is not None else var(s), c)
        return r
    return lsub(a)


def path_for(acts, text, word, run):
    """the paths of an action that a given token can take, with the values put in"""
    ts, te, depth = sym_of(acts)
    sub = lambda a: bytesub(a, ts, te, word)
    for kind, value, st in run.ends:
        ok = True
        for p, a, b in st.conds:
            d = run.decide(lin.State(), (p, sub(a), sub(b)))
            if d is False:
                ok = False
                break
        if ok and kind == "ret":
            yield st, sub


def charvalue(m, acts, word):
    """the code the reader makes of a character token, None if it is none"""
    L, ok = token(m, word)
    L = [x for x in L if "Parse" in x[0]]
    if not ok or len(L) != 1 or L[0][1] != len(word):
        return None
    run = acts.rows[L[0][0]]
    if isinstance(run, str):
        raise lin.Unsure(run)
    vals = set()
    for st, sub in path_for(acts, L[0][0], word, run):
        for e in st.events:
            if e[0] == "Parse" and isconst(e[1][1]) in acts.kind:
                if acts.kind[isconst(e[1][1])] != "CHAR":
                    return None
                vals.add(isconst(sub(e[1][2])))
    if len(vals) != 1:
        raise lin.Unsure("value of %s" % word)
    v = next(iter(vals))
    if v is None:
        raise lin.Unsure("value of %s" % word)
    return v & 255


# -- the grammar

def rules():
    """[(left, variable, [(symbol, variable)], C text)], types of the symbols"""
    s = open(front.REPO + "/lib/grammar/parser.y").read()
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    s = re.sub(r"//[^\n]*", " ", s)
    types, R, i = {}, [], 0
    inc = ""
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        if s[i] == "%":
            m = re.match(r"%(\w+)\s*(\w+)?\s*", s[i:])
            j = i + m.end()
            if j < len(s) and s[j] == "{":
                k = close(s, j)
                if m.group(1) == "type":
                    types[m.group(2)] = s[j + 1:k].strip()
                elif m.group(1) == "token_type":
                    types[None] = s[j + 1:k].strip()
                elif m.group(1) == "include":
                    inc += s[j + 1:k]
                i = k + 1
            else:
                e = s.find(".", j)
                n = s.find("\n", j)
                i = (e + 1) if e != -1 and (n == -1 or e < n) else (n + 1 if n != -1 else len(s))
            continue
        m = re.match(r"(\w+)\s*(?:\(\s*(\w+)\s*\))?\s*::=\s*([^.]*)\.\s*", s[i:])
        if not m:
            raise lin.Unsure("grammar text not recognised at %r" % s[i:i + 30])
        rhs = [(a, b or None) for a, b in re.findall(r"(\w+)\s*(?:\(\s*(\w+)\s*\))?", m.group(3))]
        i += m.end()
        code = ""
        if i < len(s) and s[i] == "{":
            k = close(s, i)
            code = s[i + 1:k]
            i = k + 1
        R.append((m.group(1), m.group(2), rhs, code))
    return R, types, inc


def close(s, i):
    d, q = 0, None
    while i < len(s):
        c = s[i]
        if q:
            if c == "\\":
                i += 1
            elif c == q:
                q = None
        elif c in "\"'":
            q = c
        elif c == "{":
            d += 1
        elif c == "}":
            d -= 1
            if d == 0:
                return i
        i += 1
    raise lin.Unsure("grammar text not closed")


class Rule(lin.Run):
    lossy = True

    def __init__(self, prog, f):
        super().__init__(f, budget=20000)
        self.prog = prog

    def mayalias(self, a, b):
        return True

    def load(self, st, addr, size, x):
        # the count of references is not looked at
        return var(("ld", addr, size))

    def call(self, x, st):
        c = x.callee
        args = [self.val(st, a) for a in x.a]
        if c and (c.startswith("llvm.") or c in ("abort", "exit")):
            return super().call(x, st)
        if c in ("lisp_incref", "lisp_decref"):
            st.env[x.i] = args[0]
            return
        if c in lin.QUIET and c not in ("free",):
            st.env[x.i] = var(("v", x.i))
            return
        st.env[x.i] = var(("res", x.i))
        st.events.append((c or ("indirect", self.val(st, x.c)), args, st.env[x.i], x.loc(), len(st.mem)))


def grammar_rows(config="debug-nosse"):
    """[(left, right symbols, run or reason, position of each right symbol's value)]"""
    R, types, inc = rules()
    ty = lambda s: types.get(s, types.get(None, "void*")) if not (s.isupper() or s[0].isupper()) else types.get(None, "void*")
    src = inc + "\n#include <mnml/lexer.h>\n#include <mnml/slab.h>\n#include <string.h>\n"
    for n, (left, lv, rhs, code) in enumerate(R):
        ps = ["lexer_t lexer"] + ["%s %s" % (ty(s), v or "unnamed_%d" % k) for k, (s, v) in enumerate(rhs)]
        lt = types.get(left)
        src += "\n%s rule_%d(%s)\n{\n" % (lt or "void", n, ", ".join(ps))
        if lt and lv:
            src += "%s %s;\n%s\nreturn %s;\n}\n" % (lt, lv, code, lv)
        elif lt:
            src += "%s\nreturn 0;\n}\n" % code
        else:
            src += "%s\n}\n" % code
    core = {"lisp_make_nil", "lisp_make_number", "lisp_make_char", "lisp_make_symbol", "lisp_make_true", "lisp_make_wildcard", "lisp_make_quote",
            "lisp_make_string", "lisp_make_string_static", "lisp_cons", "lisp_incref", "lisp_decref", "lisp_deallocate"}
    prog = unit("rules", src, keep=core, config=config)
    out = []
    for n, (left, lv, rhs, code) in enumerate(R):
        r = Rule(prog, prog.functions["rule_%d" % n])
        try:
            r.go()
        except lin.Unsure as ex:
            r = str(ex)
        out.append((left, lv, rhs, r, n))
    return out, types
