"""C28: reading text yields exactly the value it denotes"""
import itertools
from . import core, front, lin, reader
from .spec import LISP
from .lin import add, const, isconst, var
from .p_c14 import show
from .report import Finding, Outcome

ALPHA = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = set("0123456789")
MARKS = set("!@$%&*_+-={}[]:;|\\<>?,./")
PREFIX = {"'": "CQUOTE", "`": "BACKTICK", "~": "TILDE"}
WORDS = {"NIL": "C_NIL", "T": "C_TRUE", "_": "C_WILDCARD", ".": "DOT"}
ESCAPES = {"e": 27, "n": 10, "r": 13, "t": 9, "\\": 92}
CHARS = [chr(c) for c in range(1, 127)]


# -- tokens: a small automaton of what the language says; state -> kind when complete

def tok_start():
    return ("start", "")


def tok_step(s, c):
    """next state, None when c cannot continue the token"""
    k, w = s[0], s[1]
    if k == "start":
        if c == "(":
            return ("POPEN", w)
        if c == ")" and not w:
            return ("PCLOSE", w)
        if c in PREFIX and not w:
            return ("start", c)
        if c == "^" and not w:
            return ("ch", w)
        if c == '"' and not w:
            return ("str", w)
        if c == "#" and not w:
            return ("com", w)
        if c in " \t\r\n" and not w:
            return ("NONE", w)
        if c in DIGIT:
            return ("num", w)
        if c in ALPHA or c in MARKS:
            return ("sym", w, 1, c if c in WORDS or c == "N" or c == "-" else "")
        return None
    if k == "com":
        return s if c != "\n" else None
    if k == "ch":
        return ("ch1", w) if c == "\\" else ("CH", w) if " " <= c <= "~" else None
    if k == "ch1":
        return ("CH", w) if c in ESCAPES else None
    if k == "str":
        return ("STR", w) if c == '"' else ("str1", w) if c == "\\" else s
    if k == "str1":
        return ("str", w)
    if k == "num":
        return s if c in DIGIT else None
    if k == "sym":
        n, v = s[2], s[3]
        if v == "-" and c in DIGIT:
            return ("num", w)
        if not (c in ALPHA or c in MARKS or c in DIGIT) or n == 16:
            return None
        v = v + c if v and any(x.startswith(v + c) for x in WORDS) else ""
        return ("sym", w, n + 1, v)
    return None


def tok_kind(s):
    k, w = s[0], s[1]
    if k in ("POPEN", "PCLOSE"):
        return k
    if k == "num":
        return "NUMBER"
    if k in ("com", "NONE"):
        return "NONE"
    if k == "CH":
        return "CHAR"
    if k == "STR":
        return "STRING"
    if k == "sym":
        if not w and s[3] in WORDS:
            return WORDS[s[3]]
        if w and s[3] in WORDS:
            return None         # a quoted NIL, T, _ or dot is left to the implementation
        return "SYMBOL"
    return None


class Bad(Exception):
    def __init__(self, subject, text):
        super().__init__(text)
        self.subject = subject


def tokens(out, m, acts, bad):
    """every token of the language, followed by a delimiter: what the scanner does with it"""
    sc = reader.Scan(m)
    start = (tok_start(), sc.start(), 0)
    # the number of a character only matters relative to the token's end: keep the distance
    seen, todo = {}, []

    def key(rs, cfg, at):
        return (rs, cfg[0], cfg[1], None if cfg[2] is None else at - cfg[2])
    todo.append((tok_start(), sc.start(), 0, (), ""))
    pairs = set()
    while todo:
        rs, cfg, at, evs, word = todo.pop()
        k = (key(rs, cfg, at), evs)
        if k in seen or len(word) > 40:
            continue
        seen[k] = word
        out.count("states of the scanner and the token language together")
        kind = tok_kind(rs)
        if kind is not None:
            ends = ["the end of the text"] + ([" "] if rs[0] != "com" else []) + ["\n"] + (["(", ")"] if rs[0] != "com" else [])
            for d in ends:
                if d == "the end of the text":
                    if cfg[0] == m.entry["main"] and evs:
                        o = []
                    else:
                        o = sc.eof(cfg, at)
                        if o is None:
                            continue
                elif cfg[0] == m.entry["main"] and evs:
                    o = []
                else:
                    nc, o = sc.feed(cfg, ord(d), at)
                got = list(evs) + [(t, None if te is None else at - te) for t, te in o]
                out.count("tokens with what follows them")
                if kind == "NONE" and d in "()":
                    continue
                judge(out, acts, kind, rs[1], word, d, got, pairs, bad)
        if cfg[0] == m.entry["main"] and evs:
            continue
        for c in CHARS:
            ns = tok_step(rs, c)
            if ns is None:
                continue
            nc, o = sc.feed(cfg, ord(c), at)
            got = evs + tuple((t, None if te is None else at + 1 - te) for t, te in o)
            if nc is None or any("parse_error" in t and "Parse(" not in t for t, _ in o):
                # does the token language have a word that starts like this?
                if alive(ns):
                    bad("token", "%r" % (word + c), "the scanner rejects the text %r, which starts a %s" % (word + c, alive(ns)))
                continue
            todo.append((ns, nc, at + 1, got, word + c))
    return pairs


TWICE = {}


def alive(s):
    names = {"num": "number", "sym": "symbol", "ch": "character", "ch1": "character", "CH": "character", "str": "string", "str1": "string", "STR": "string",
             "POPEN": "list", "PCLOSE": "list", "com": "comment", "NONE": "blank", "start": "quotation"}
    return names.get(s[0])


def judge(out, acts, kind, prefix, word, d, got, pairs, bad):
    """the actions run for a token: prefix first, then the token itself over its whole text"""
    calls = []
    for t, dist in got:
        r = acts.rows.get(t)
        if isinstance(r, str):
            out.undecided["action %s" % t.strip()[:40]] = r
            return
        ks = {acts.kind.get(isconst(e[1][1])) for k, v, st in r.ends for e in st.events if e[0] == "Parse"} - {None}
        err = any(e[0] == "parse_error" for k, v, st in r.ends for e in st.events)
        if not ks and err:
            bad("token", "%r" % word, "the scanner rejects the %s %r when %r follows" % (kind, word, d))
            return
        if not ks:
            continue
        if len(ks) > 1:
            out.undecided["action %s" % t.strip()[:40]] = "hands over %s" % sorted(ks)
            return
        calls.append((next(iter(ks)), t, dist))
    if kind == "NONE":
        if calls:
            bad("token", "%r" % word, "the text %r is handed over as %s, expected nothing" % (word, " ".join(c[0] for c in calls)))
        return
    want = ([PREFIX[prefix]] if prefix else []) + [kind]
    while prefix and len(calls) > 2 and calls[0][0] == calls[1][0] == want[0]:
        # the grammar has no use for the same prefix twice and drops the second (see run)
        TWICE.setdefault(want[0], word)
        calls.pop(0)
    if [c[0] for c in calls] != want:
        bad("token", "%r %r" % (word, d), "the text %r followed by %r is handed over as %s, expected %s" % (word, d, " ".join(c[0] for c in calls) or "nothing", " ".join(want)))
        return
    if calls[-1][2] != 0:
        bad("extent", "%r" % word, "the token %r is taken to end %s characters before its end" % (word, calls[-1][2]))
        return
    pairs.add((kind, prefix, calls[-1][1]))
    if prefix:
        pairs.add((PREFIX[prefix], "", calls[0][1]))


def values(out, m, acts, pairs, bad):
    """what each action hands over, from the place and extent of the token"""
    ts, te, depth = reader.sym_of(acts)
    for kind, prefix, t in sorted(pairs):
        r = acts.rows[t]
        first = prefix or {"CHAR": "^", "STRING": '"'}.get(kind)
        k0 = 1 if prefix else 0
        n = 0
        for end, value, st in r.ends:
            if end != "ret":
                continue
            # the paths this token can take
            ok = True
            for p, a, b in st.conds:
                sub = lambda v: reader.bytesub(v, ts, ("x", ((("none",), 1),)), first or "a") if first else v
                if r.decide(lin.State(), (p, firstchar(a, ts, first, kind), firstchar(b, ts, first, kind))) is False:
                    ok = False
            if not ok:
                continue
            ps = [(i, e) for i, e in enumerate(st.events) if e[0] == "Parse"]
            toks = [(i, e) for i, e in ps if isconst(e[1][1]) in acts.kind]
            ends = [(i, e) for i, e in ps if isconst(e[1][1]) == 0]
            if any(e[0] == "parse_error" for e in st.events):
                if kind != "PCLOSE" or r.decide(st, ("eq", depth, const(0))) is not True:
                    bad("value", kind, "a %s is rejected" % kind)
                continue
            out.count("token actions judged")
            n += 1
            if len(toks) != 1:
                bad("value", kind, "a %s is handed over %d times" % (kind, len(toks)))
                continue
            i, e = toks[0]
            v = e[1][2]
            try:
                value_of(out, acts, r, st, kind, k0, v, e, ts, te)
            except Bad as b:
                bad("value", kind + " " + b.subject, "%s%s: %s" % (kind, " after " + prefix if prefix else "", b))
                continue
            except lin.Unsure as ex:
                out.undecided["value of %s" % kind] = str(ex)
            # depth and end of an expression
            d = depth
            for w in st.mem:
                if w[0] == "w" and w[1] == add(var(("v", 0)), const(acts.off["depth"])):
                    d = w[3]
            wantd = add(depth, const({"POPEN": 1, "PCLOSE": -1}.get(kind, 0)))
            if d != wantd:
                bad("depth", kind, "after %s the depth is %s, expected %s" % (kind, show(d), show(wantd)))
                continue
            whole = kind in ("NUMBER", "CHAR", "STRING", "SYMBOL", "C_NIL", "C_TRUE", "C_WILDCARD", "PCLOSE")
            zero = r.decide(st, ("eq", wantd, const(0)))
            if not whole and ends:
                bad("end", kind, "%s ends an expression" % kind)
            elif whole and zero is True and len(ends) != 1:
                bad("end", kind, "an expression that ends with %s is not handed on" % kind)
            elif whole and zero is False and ends:
                bad("end", kind, "%s ends the expression although a list is still open" % kind)
            elif whole and zero is None and not (ends and kind in WORDS.values() and False):
                bad("end", kind, "after %s the end of the expression does not depend on the open lists" % kind)
            elif ends and ends[0][0] < i:
                bad("end", kind, "the expression is ended before its last part is handed over")
        if n == 0:
            out.undecided["value of %s%s" % (prefix, kind)] = "no path"


def firstchar(a, ts, first, kind):
    """put the first character of the token into a condition"""
    r = const(a[0])
    for s, c in a[1]:
        if s[0] == "ld" and s[2] == 1 and s[1] == ts:
            if first:
                r = add(r, const(ord(first)), c)
                continue
            # a token without a prefix starts with none of the prefix characters
            s = ("plain",)
        r = add(r, var(s), c)
    if r == var(("plain",)):
        return ("plainfirst",) and const(ord("a"))
    return r


def copied(st, src):
    return [e for e in st.events if e[0] == "copy" and e[1][1] == src]


def value_of(out, acts, r, st, kind, k0, v, e, ts, te):
    start, length = add(ts, const(k0)), add(add(te, ts, -1), const(-k0))
    if kind in ("POPEN", "PCLOSE", "DOT", "CQUOTE", "BACKTICK", "TILDE", "C_NIL", "C_TRUE", "C_WILDCARD", "CHAR"):
        return
    if len(v[1]) != 1 or v[0]:
        raise lin.Unsure("value %s" % show(v))
    if kind == "STRING":
        ev = [x for x in st.events if x[2] == v]
        if not ev:
            raise lin.Unsure("value %s" % show(v))
        ev = ev[0]
        if ev[0] == "strndup":
            if ev[1][0] != add(ts, const(1)) or ev[1][1] != add(add(te, ts, -1), const(-2)):
                raise Bad("extent", "the text handed over starts at %s and has length %s; expected everything between the quotes" %
                          (show(add(ev[1][0], ts, -1)), show(ev[1][1])))
            return
        raise lin.Unsure("text of a string made by %s" % ev[0])
    if kind == "NUMBER":
        ev = [x for x in st.events if x[2] == v]
        if not ev or ev[0][0] not in ("strtoll", "strtol", "atoll"):
            raise lin.Unsure("value of a number")
        a, base = ev[0][1][0], isconst(ev[0][1][2]) if len(ev[0][1]) > 2 else 9
        if base != 10:
            raise Bad("base", "a number is read in base %s" % base)
        if a == start:
            return      # reads on until the first character that is no digit
        src = [x for x in st.events if x[0] == "copy" and x[1][0] == a]
        if len(src) != 1:
            raise lin.Unsure("text of a number")
        c = src[0][1]
        if c[1] != start:
            raise Bad("start", "the number is read from character %s of the token on, expected %d" % (show(add(c[1], ts, -1)), k0))
        if c[2] != length:
            raise Bad("extent", "%s characters of the number are read, expected %s" % (show(c[2]), show(length)))
        for w in st.mem:
            if w[0] == "w" and w[1] == add(a, length) and isconst(w[3]) == 0:
                return
            if w[0] == "z" and w[1] == a and isconst(add(w[2], length, -1)) and isconst(add(w[2], length, -1)) > 0:
                return
        raise Bad("terminator", "the copy of the number's text is not terminated after its last digit")
    if kind == "SYMBOL":
        src = [x for x in st.events if x[0] == "copy" and x[1][0] == v]
        if len(src) != 1:
            raise lin.Unsure("text of a symbol")
        c = src[0][1]
        if c[1] != start:
            raise Bad("start", "the symbol is read from character %s of the token on, expected %d" % (show(add(c[1], ts, -1)), k0))
        full = const(acts.symlen)
        if c[2] == length:
            return
        if c[2] == full and r.decide(st, ("ule", length, full)) is not True and r.decide(st, ("ult", length, full)) is not True:
            return
        raise Bad("extent", "%s characters of the symbol are read, expected %s" % (show(c[2]), show(length)))


def chars(out, m, acts, bad):
    for c in CHARS:
        if " " <= c <= "~" and c != "\\":
            charis(out, m, acts, "^" + c, ord(c), bad)
    for e, n in ESCAPES.items():
        charis(out, m, acts, "^\\" + e, n, bad)


def charis(out, m, acts, word, code, bad):
    try:
        v = reader.charvalue(m, acts, word)
    except lin.Unsure as ex:
        out.undecided["value of %s" % word] = str(ex)
        return
    out.count("characters")
    if v is None:
        bad("character", word, "the character %s is not accepted" % word)
    elif v != code:
        bad("character", word, "the character %s is read as code %d, expected %d" % (word, v, code))


# -- the grammar: values of derivations

def terms(left, lv, rhs, r):
    """value of a rule as a term over its parts"""
    if isinstance(r, str):
        raise lin.Unsure(r)
    res = []
    for kind, value, st in r.ends:
        if kind != "ret":
            continue
        ev = {repr(e[2]): e for e in st.events}

        def term(v):
            if len(v[1]) == 1 and v[0] == 0 and v[1][0][1] == 1:
                s = v[1][0][0]
                if s[0] == "v":
                    return ("part", s[1] - 1)
                if s[0] == "and" and isconst(s[2]) is not None:
                    return ("mask", isconst(s[2]), term(s[1]))
                if s[0] == "tr":
                    return ("tr", s[1], term(s[2]))
                e = ev.get(repr(v))
                if e is not None:
                    return (e[0],) + tuple(term(a) for a in (e[1] if e[0] == "strlen" else e[1][1:]))
                if s[0] == "ld":
                    return ("field",)
            if isconst(v) is not None:
                return ("i", isconst(v))
            return ("?",)
        if value is None:
            calls = [e for e in st.events if isinstance(e[0], tuple)]
            t = tuple(("call", tuple(term(a) for a in e[1][1:])) for e in calls)
        else:
            t = term(value)
        res.append((tuple(st.conds), t))
    if len({t for c, t in res}) == 1:
        return [((), res[0][1])]
    return res


def choose(alts, parts):
    """the alternatives of a rule that apply to these parts"""
    K = front.consts()
    KIND = {"number": 4, "char": 3, "symbol": 6, "true": 2, "wildcard": 7}

    def part(v):
        """the value an address stands for"""
        if v[0] == 0 and len(v[1]) == 1 and v[1][0][1] == 1:
            s = v[1][0][0]
            if s[0] == "v" and 0 <= s[1] - 1 < len(parts):
                return parts[s[1] - 1]
            if s[0] == "ld":
                for off in (K["CAR"], K["CDR"]):
                    b = part(add(s[1], const(-off)))
                    if b is not None and b[0] == "list" and b[1]:
                        return b[1][0] if off == K["CAR"] else ("list", b[1][1:], b[2]) if b[1][1:] else b[2] or NILV
        return None

    def num(v):
        n = v[0]
        for s, c in v[1]:
            if s[0] != "ld" or s[2] != 2:
                return None
            b = part(add(s[1], const(-K["TYPE"])))
            if b is None:
                return None
            k = 1 if b == NILV else 5 if b[0] == "list" else 6 if b[0] == "sym" else KIND.get(b[1]) if b[0] == "atom" else None
            if k is None:
                return None
            n += c * k
        return n
    r = []
    for conds, t in alts:
        ok = True
        for p, a, b in conds:
            x, y = num(a), num(b)
            if x is None or y is None or p not in ("eq", "ne"):
                continue
            if (x == y) != (p == "eq"):
                ok = False
        if ok:
            r.append(t)
    return r


class V(tuple):
    pass


def value(t, parts):
    """term -> value: ('atom', kind, part) | ('list', elements, tail) | ('eval', x)"""
    k = t[0]
    if k == "part":
        return parts[t[1]]
    if k == "mask":
        return ("masked", t[1], value(t[2], parts))
    if k == "tr":
        return ("cut", t[1], value(t[2], parts))
    A = [value(x, parts) if x[0] not in ("i", "?", "field") else x for x in t[1:]]
    if k == "lisp_make_nil":
        return ("list", (), None)
    if k == "lisp_make_quote":
        return ("sym", "quote")
    if k == "lisp_cons":
        x, l = A
        if l[0] == "list":
            return norm(("list", (x,) + l[1], l[2]))
        return norm(("list", (x,), l))
    if k == "lisp_append":
        l, x = A
        if l[0] != "list" or l[2] is not None:
            raise lin.Unsure("append to %s" % (l,))
        return ("list", l[1] + (x,), None)
    if k == "lisp_conc":
        l, x = A
        if l == ("list", (), None):
            return x
        if l[0] != "list" or l[2] is not None:
            raise lin.Unsure("conc to %s" % (l,))
        return norm(("list", l[1], x))
    if k in ("lisp_dup", "lisp_incref"):
        return A[-1]
    if k == "lisp_eval":
        return ("eval", A[0], A[1])
    if k == "lisp_make_char" and A[0][0] == "cut":
        A[0] = A[0][2]
    if k == "lisp_make_char" and A[0][0] == "masked" and A[0][1] & 255 == 255:
        A[0] = A[0][2]
    if k in ("lisp_make_number", "lisp_make_char", "lisp_make_symbol", "lisp_make_true", "lisp_make_wildcard", "lisp_make_string"):
        return ("atom", k[10:]) + tuple(A)
    if k == "strlen":
        return ("strlen",) + tuple(A)
    raise lin.Unsure("value made by %s" % (k,))


def norm(v):
    if v[0] == "list" and v[2] is not None and v[2][0] == "list":
        return norm(("list", v[1] + v[2][1], v[2][2]))
    return v


NILV = ("list", (), None)


def want(toks):
    """value of a sequence of tokens, None if the language says nothing about it"""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def prefix():
        if peek() == "CQUOTE":
            take()
            x = item()
            return None if x is None else norm(("list", (("sym", "quote"),), x)) if x != NILV else ("list", (("sym", "quote"),), None)
        if peek() == "BACKTICK":
            take()
            x = item()
            return None if x is None else ("eval", NILV, x)
        return item()

    def item():
        t = peek()
        if t is None:
            return None
        if t == "POPEN":
            take()
            L, tail = (), None
            while True:
                t = peek()
                if t is None:
                    return None
                if t == "PCLOSE":
                    take()
                    return ("list", L, None)
                if t == "DOT":
                    if not L:
                        return None
                    take()
                    x = prefix()
                    if x is None or peek() != "PCLOSE":
                        return None
                    take()
                    return norm(("list", L, x))
                if t == "TILDE":
                    if not L:
                        return None
                    take()
                    x = prefix()
                    if x is None:
                        return None
                    # the rest of the list follows the spliced elements
                    if peek() != "PCLOSE":
                        return None
                    take()
                    return norm(("list", L, ("eval", NILV, x)))
                x = prefix()
                if x is None:
                    return None
                L += (x,)
        if t in ATOMS:
            take()
            return ATOMS[t]
        return None
    v = prefix()
    return v if v is not None and pos[0] == len(toks) else None


ATOMS = {"NUMBER": ("atom", "number", ("tok",)), "CHAR": ("atom", "char", ("tok",)), "SYMBOL": ("atom", "symbol", ("tok",)),
         "STRING": ("atom", "string", ("tok",), ("strlen", ("tok",))), "C_NIL": NILV, "C_TRUE": ("atom", "true"), "C_WILDCARD": ("atom", "wildcard")}


def sentences(rows, N, out):
    """nonterminal -> {token sequences up to length N: set of values}"""
    T = {}
    terms_ = []
    for left, lv, rhs, r, n in rows:
        try:
            terms_.append((left, rhs, terms(left, lv, rhs, r), n))
        except lin.Unsure as ex:
            out.undecided["rule %s ::= %s" % (left, " ".join(s for s, _ in rhs))] = str(ex)
            terms_.append((left, rhs, None, n))
    nts = {t[0] for t in terms_}
    T = {x: {} for x in nts}
    # bottom-up by length
    for L in range(1, N + 1):
        changed = True
        while changed:
            changed = False
            for left, rhs, term, n in terms_:
                if left == "root":
                    continue
                for toks, parts in combos(rhs, L, T, nts):
                    vals = set()
                    if term is None or any(p == "?" for p in parts):
                        v = "?"
                    else:
                        try:
                            ps = [("tok",) if p is None else p for p in parts]
                            vs = {value(t, ps) for t in choose(term, ps)}
                            v = vs.pop() if len(vs) == 1 else "?"
                        except lin.Unsure as ex:
                            v = "?"
                    s = T[left].setdefault(toks, set())
                    if v not in s:
                        s.add(v)
                        changed = True
    return T


def combos(rhs, L, T, nts):
    """ways to fill a right side with exactly L tokens"""
    def go(i, left):
        if i == len(rhs):
            if left == 0:
                yield (), ()
            return
        s = rhs[i][0]
        need = len(rhs) - i - 1
        if s in nts:
            for toks, vals in list(T[s].items()):
                if len(toks) <= left - need:
                    for rt, rv in go(i + 1, left - len(toks)):
                        for v in list(vals):
                            yield toks + rt, (v,) + rv
        elif left > need:
            for rt, rv in go(i + 1, left - 1):
                yield (s,) + rt, (None,) + rv
    yield from go(0, L)


def grammar(out, tier, bad):
    rows, types = reader.grammar_rows()
    out.count("rules of the grammar", len(rows))
    # atoms stand for each other inside lists: use one of them there
    N = 8 if tier == "quick" else 9
    small = [r for r in rows if not (r[0] == "item" and len(r[2]) == 1 and r[2][0][0] in ATOMS and r[2][0][0] not in ("SYMBOL",))]
    T1 = sentences(rows, 3, out)
    T = sentences(small, N, out)
    others = []
    for a in sorted(ATOMS):
        if a != "SYMBOL":
            one = [r for r in rows if not (r[0] == "item" and len(r[2]) == 1 and r[2][0][0] in ATOMS and r[2][0][0] != a)]
            others.append(sentences(one, 8, out))
    for left, lv, rhs, r, n in rows:
        if left == "root":
            try:
                t = terms(left, lv, rhs, r)
            except lin.Unsure as ex:
                out.undecided["root"] = str(ex)
                continue
            if [s for s, _ in rhs] == ["prefix"] and [x for c, x in t] != [(("call", (("part", 0),)),)]:
                bad("root", "root", "a complete expression is not handed to the consumer exactly once")
    for tab in [T1, T] + others:
        got = tab.get("prefix", {})
        for toks, vals in sorted(got.items()):
            w = want(toks)
            if w is None:
                continue
            out.count("token sequences")
            if "?" in vals:
                out.undecided["value of %s" % " ".join(toks)] = "a part of it has no value here"
                continue
            for v in vals:
                if v != w:
                    bad("grammar", " ".join(toks), "the tokens %s are read as %s, expected %s" % (" ".join(toks), say(v), say(w)))
                    break
    # everything the language allows is derivable
    alphabet = ["POPEN", "PCLOSE", "DOT", "TILDE", "CQUOTE", "BACKTICK", "SYMBOL"]
    got = T.get("prefix", {})
    M = 6
    for L in range(1, M + 1):
        for toks in itertools.product(alphabet, repeat=L):
            if L > 1 and toks[0] == "SYMBOL":
                continue
            if want(toks) is not None:
                out.count("token sequences of the language")
                if toks not in got:
                    bad("grammar", " ".join(toks), "the tokens %s are not accepted" % " ".join(toks))
    for p, word in sorted(TWICE.items()):
        out.count("prefixes handed over twice and dropped once by the parser")
        if any(a == b == p for toks in got for a, b in zip(toks, toks[1:])):
            bad("token", "%r" % word, "the text %r is handed over with %s twice" % (word, p))
    for t in ATOMS:
        if (t,) not in T1.get("prefix", {}):
            bad("grammar", t, "%s is not accepted" % t)


def say(v):
    if v[0] == "list":
        return "(%s%s)" % (" ".join(say(x) for x in v[1]), " . " + say(v[2]) if v[2] is not None else "")
    if v[0] == "eval":
        return "value-of[%s]" % say(v[2])
    if v[0] == "atom":
        return v[1] + (" masked with %d" % v[2][1] if len(v) > 2 and v[2][0] == "masked" else "") + (" cut to %d bytes" % v[2][1] if len(v) > 2 and v[2][0] == "cut" else "")
    return str(v[-1])


def moved(st, off, L):
    """fields of the scanner after a path"""
    now = {k: var(("ld", add(L, const(off[k])), 8)) for k in off}
    for w in st.mem:
        for k in off:
            if w[0] == "w" and w[1] == add(L, const(off[k])):
                now[k] = w[3]
    return now


def tail(out, bad):
    """what is kept of the text when it ends inside a token"""
    s = open(front.REPO + "/lib/grammar/lexer.rl").read()
    if s.count("%% write exec;") != 1:
        out.undecided["rest of the text"] = "no single place where the scanner runs"
        return
    i = s.index("%% write exec;")
    k = s.rindex("\nlexer_parse(", 0, i)
    j = s.index("{", k)
    head = s[j + 1:i]
    if head.count("{") != head.count("}"):
        out.undecided["rest of the text"] = "the scanner runs inside a nested block"
        return
    after = s[i + len("%% write exec;"):]
    e = reader.close("{" + after, 0)
    code = after[:e - 1]
    src = "#include <mnml/lexer.h>\n" + "".join("const long probe_%s = (long)__builtin_offsetof(struct lexer, %s);\n" % (k, k) for k in ("ts", "te", "rem")) + \
        reader.preamble() + \
        "\nextern const char *at_p, *at_pe, *at_eof;\nvoid begin(const lexer_t lexer, char * const str, const size_t len, const bool end)\n{\n%s\nat_p = p; at_pe = pe; at_eof = eof;\n}\n" % head + \
        "\nvoid rest(const lexer_t lexer, char * const str, const size_t len, const char* p, const char* pe)\n{\n%s\n}\n" % code
    prog = reader.unit("rest", src, keep={"memmove"})
    g = prog.globals
    off = {k: (g["probe_" + k]["init"][1] if g["probe_" + k]["init"][0] == "i" else 0) for k in ("ts", "te", "rem")}

    class R(lin.Run):
        def mayalias(self, a, b):
            return bool(self.region(a) & self.region(b))

        def call(self, x, st):
            if x.callee in ("memmove", "memcpy", "llvm.memmove.p0.p0.i64", "llvm.memcpy.p0.p0.i64"):
                args = [self.val(st, a) for a in x.a]
                st.events.append((x.callee, args, args[0], x.loc(), len(st.mem)))
                st.env[x.i] = args[0]
                return
            return super().call(x, st)
    r = R(prog.functions["begin"])
    try:
        L, strp, n, last = (var(("v", k)) for k in range(4))
        kept = {k: var(("ld", add(L, const(off[k])), 8)) for k in off}
        for kind, v, st in r.go():
            out.count("ways the scanner starts")
            rem = var(("ld", add(L, const(off["rem"])), 8))
            got = {}
            for w in st.mem:
                if w[0] == "w" and len(w[1][1]) == 1 and w[1][1][0][0][:2] == ("o", "g"):
                    got[w[1][1][0][0][2]] = w[3]
            for k, e in (("at_p", add(strp, rem)), ("at_pe", add(strp, n))):
                if k in got and got[k] != e:
                    bad("rest", k, "the scanner %s at %s, expected %s" % ({"at_p": "starts", "at_pe": "stops"}[k], show(got[k]), show(e)))
            now = moved(st, off, L)
            if now["ts"] != kept["ts"]:
                if now["ts"] != strp or now["te"] != add(strp, add(kept["te"], kept["ts"], -1)):
                    bad("rest", "begin", "the unfinished token is taken to be at %s to %s before the scanner goes on" % (show(now["ts"]), show(now["te"])))
            elif now["te"] != kept["te"]:
                bad("rest", "begin", "the end of the part recognised so far becomes %s before the scanner goes on" % show(now["te"]))
            if "at_eof" in got:
                d = r.decide(st, ("eq", last, const(0)))
                if d is None:
                    d = r.decide(st, ("ne", last, const(0)))
                    d = None if d is None else not d
                if d is not None and got["at_eof"] != (const(0) if d else add(strp, n)):
                    bad("rest", "eof", "the end of the text is taken to be at %s" % show(got["at_eof"]))
    except lin.Unsure as ex:
        out.undecided["start of the text"] = str(ex)
    f = prog.functions["rest"]
    r = R(f)
    try:
        ends = r.go()
    except lin.Unsure as ex:
        out.undecided["rest of the text"] = str(ex)
        return
    L, strp, pe = var(("v", 0)), var(("v", 1)), var(("v", 4))
    fld = lambda k: add(L, const(off[k]))
    ts0, te0 = var(("ld", fld("ts"), 8)), var(("ld", fld("te"), 8))
    for kind, v, st in ends:
        out.count("ways the scanner stops")
        now = {}
        for k in off:
            now[k] = var(("ld", fld(k), 8))
            for w in st.mem:
                if w[0] == "w" and w[1] == fld(k):
                    now[k] = w[3]
        none = r.decide(st, ("eq", ts0, const(0)))
        if none is True:
            if now["rem"] != const(0):
                bad("rest", "rem", "when the text ends after a token, %s characters are kept, expected none" % show(now["rem"]))
        elif none is False:
            keep = add(pe, ts0, -1)
            mv = [e for e in st.events]
            if now["rem"] != keep:
                bad("rest", "rem", "when the text ends inside a token, %s characters are kept, expected %s" % (show(now["rem"]), show(keep)))
            elif len(mv) != 1 or mv[0][1][0] != strp or mv[0][1][1] != ts0 or mv[0][1][2] != keep:
                bad("rest", "move", "when the text ends inside a token, its beginning is not kept at the start of the buffer")
            elif now["ts"] != strp:
                bad("rest", "ts", "when the text ends inside a token, the token is taken to start at %s" % show(now["ts"]))
            elif now["te"] != add(strp, add(te0, ts0, -1)):
                bad("rest", "te", "when the text ends inside a token, the end of the part recognised so far becomes %s, expected %s" %
                    (show(now["te"]), show(add(strp, add(te0, ts0, -1)))))
        else:
            out.undecided["rest of the text %s" % st.loc] = "path that does not depend on an open token"


def is_char(o, c, k):
    """is the character c the character k? It may be looked at in full or by its low byte"""
    n = ("number", c)
    for (w, u), v in o.row.conds.items():
        if isinstance(u, tuple) and u[:1] == ("tr",) and o.norm(u[2]) == o.norm(n):
            n = u
    return o.compare("eq", n, ("i", k))


def r_escapes(o):
    """the characters of a string: a backslash stands for nothing itself; the character after it, or what it spells, follows"""
    L, esc, res = ("a", 1), o.truth(("a", 2)), ("a", 3)
    for _ in range(4):
        if o.isnil(L):
            return res
        if any(ev[0] not in ("lisp_append", "lisp_process_escapes") for ev in o.row.trace):
            o.open()
        c = ("car", L)
        if not esc and is_char(o, c, 92):
            esc = True
        else:
            if esc and is_char(o, c, 110):
                c = ("chr", ("i", 10))
            elif esc and is_char(o, c, 116):
                c = ("chr", ("i", 9))
            res, esc = o.call("lisp_append", LISP, res, c, what="the character the text spells, at the end of those before it"), False
        L = ("cdr", L)
        r = o.next("lisp_process_escapes", LISP, L, ("i", int(esc)), res)
        if r is not None:
            return r
    o.open()


def run(tier):
    out = Outcome("The scanner's automaton (as ragel builds it) run in lockstep with an automaton of the documented tokens over every character; each action of the "
                  "scanner and each rule of the grammar compiled as a function of its own and summarised over linear forms; the values of all derivations up to a "
                  "length compared with the value the tokens denote.",
                  ["a token is followed by a blank, a parenthesis or the end of the text", "texts with errors are not judged",
                   "lemon's tables follow the grammar (it reports conflicts)", "lists are compared up to 8 tokens (9 in the thorough tier)"])
    said = {}

    def bad(rule, subject, text):
        k = (rule, text.split(" is handed over ")[-1] if rule == "token" else subject)
        said[k] = said.get(k, 0) + 1
        if said[k] > 1 or sum(1 for x in said if x[0] == rule) > 8:
            return
        loc = "lib/grammar/parser.y" if rule in ("grammar", "root") else "lib/grammar/lexer.rl"
        out.add(Finding("C28", rule, {"grammar": "grammar rules", "root": "grammar rules"}.get(rule, "scanner") + " (%s)" % loc, loc, subject, text))
    m = reader.fsm()
    acts = reader.Actions([t for _, t in reader.alltexts(m)])
    acts.symlen = front.consts()["SYMLEN"]
    pairs = tokens(out, m, acts, bad)
    values(out, m, acts, pairs, bad)
    chars(out, m, acts, bad)
    tail(out, bad)
    core.compare("C28", {"lisp_process_escapes": (4, r_escapes, {})}, out)
    try:
        grammar(out, tier, bad)
    except lin.Unsure as ex:
        out.undecided["grammar"] = str(ex)
    out.sample("tokens and actions: %s" % ", ".join(sorted({p + k for k, p, t in pairs})))
    out.need("tokens with what follows them", 1)
    return out
