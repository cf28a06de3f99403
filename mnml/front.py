"""Front end: compiles /repo's current sources to LLVM IR (nothing is executed) and loads the dumped program."""
import atexit, concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
LLVM = "/usr/lib/llvm-18/bin"


class Broken(Exception):
    """The analysis itself cannot give an answer (build failure, vanished anchor)."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mnml-verif-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def sh(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


_dumper = None


def dumper():
    global _dumper
    if _dumper is None:
        exe = os.path.join(scratch(), "irdump")
        sh(["gcc", "-O1", "-w", "-o", exe, os.path.join(HERE, "..", "tools", "irdump.c"),
            "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        _dumper = exe
    return _dumper


MODULES = ["io", "logic", "math", "std", "sys", "unix"]


def modules():
    return sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(REPO + "/lib/mnml/*/lib.c"))


def sources():
    """group -> list of C files, as the CMake build collects them"""
    g = {"core": sorted(glob.glob(REPO + "/lib/core/*.c")), "bin": [REPO + "/bin/mnml.c"],
         "stubs": sorted(glob.glob(REPO + "/lib/stubs/*.c"))}
    for m in modules():
        g[m] = sorted(glob.glob(REPO + "/lib/mnml/%s/*.c" % m))
    return g


def grammar():
    """Runs lemon and ragel as the build does; returns the directory holding lexer.c/parser.c/parser.h"""
    d = os.path.join(scratch(), "grammar")
    if not os.path.isdir(d):
        os.mkdir(d)
        for f in ("parser.y", "lexer.rl"):
            shutil.copy(REPO + "/lib/grammar/" + f, d)
        tmpl = None
        for t in ("/usr/share/lemon/lempar.c", "/usr/lib/lemon/lempar.c"):
            if os.path.exists(t):
                tmpl = t
        sh(["lemon"] + (["T=" + tmpl] if tmpl else []) + ["-q", "parser.y"], cwd=d)
        sh(["ragel", "lexer.rl", "-o", "lexer.c"], cwd=d)
    return d


CONFIGS = {
    "debug": ["-DLISP_ENABLE_DEBUG", "-DLISP_ENABLE_SSE", "-msse4.2"],
    "debug-nosse": ["-DLISP_ENABLE_DEBUG"],
    "release": ["-DLISP_ENABLE_SSE", "-msse4.2", "-DNDEBUG", "-include", "stdio.h"],
    "release-nosse": ["-DNDEBUG", "-include", "stdio.h"],
}


def flags(config):
    return CONFIGS[config] + [
        "-D_GNU_SOURCE", "-DYYNOERRORRECOVERY", '-DMNML_VERSION="0"', '-DMNML_COMPILER_ID="C"',
        '-DMNML_COMPILER_VERSION="0"', '-DMNML_BUILD_TIMESTAMP="0"', "-std=gnu99", "-I" + REPO + "/include",
        "-I" + REPO, "-fdebug-compilation-dir=/nowhere", "-w", "-fno-builtin", "-g", "-fno-discard-value-names"]


_bc = {}


def bitcode(config):
    """group -> list of bitcode files"""
    if config in _bc:
        return _bc[config]
    d = os.path.join(scratch(), "bc-" + config)
    os.makedirs(d, exist_ok=True)
    jobs, res = [], {}
    src = dict(sources())
    gd = grammar()
    src["grammar"] = [gd + "/lexer.c"]
    for g, fs in src.items():
        res[g] = []
        for f in fs:
            o = os.path.join(d, g + "-" + os.path.basename(f)[:-2] + ".bc")
            cmd = [LLVM + "/clang"] + flags(config) + (["-I" + gd] if g == "grammar" else []) + [
                "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", f, "-o", o]
            jobs.append(cmd)
            res[g].append(o)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    _bc[config] = res
    return res


class Inst:
    __slots__ = ("i", "o", "t", "l", "f", "a", "c", "fty", "inc", "s", "d", "cs", "ty", "sz", "vi", "off", "rt", "st",
                 "p", "ft", "n", "ety", "blk", "fn")

    def __init__(self, d, blk, fn):
        self.i = d["i"]; self.o = d["o"]; self.t = d["t"]; self.l = d.get("l", 0); self.f = d.get("f", "")
        self.a = d.get("a", ()); self.c = d.get("c"); self.fty = d.get("fty"); self.inc = d.get("in"); self.s = d.get("s")
        self.d = d.get("d"); self.cs = d.get("cs"); self.ty = d.get("ty"); self.sz = d.get("sz"); self.vi = d.get("vi")
        self.off = d.get("off"); self.rt = d.get("rt"); self.st = d.get("st"); self.p = d.get("p"); self.ft = d.get("ft")
        self.n = d.get("n", ""); self.ety = d.get("ety"); self.blk = blk; self.fn = fn

    @property
    def callee(self):
        return self.c[1] if self.c and self.c[0] == "g" else None

    def loc(self):
        f = self.f
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        elif "/grammar/" in f or f in ("lexer.rl", "parser.y", "parser.c", "lexer.c"):
            f = "lib/grammar/" + os.path.basename(f)
        return "%s:%d" % (f, self.l)


class Func:
    def __init__(self, name, d, prog):
        self.name = name; self.prog = prog
        self.ty = d["ty"]; self.file = d.get("f", ""); self.line = d.get("l", 0)
        self.params = d["params"]; self.local = d["local"]
        self.ncall = d.get("ncall", 0); self.taken = d.get("taken", 0); self.rec = d.get("rec", 0)
        self.blocks = [[Inst(x, bi, self) for x in b] for bi, b in enumerate(d["blocks"])]
        self.defs = {x.i: x for b in self.blocks for x in b}

    def insts(self):
        for b in self.blocks:
            for x in b:
                yield x

    def calls(self, name=None):
        for x in self.insts():
            if x.o == "call" and (name is None or x.callee == name or (isinstance(name, (set, frozenset, tuple, list)) and x.callee in name)):
                yield x

    def succs(self, bi):
        t = self.blocks[bi][-1]
        if t.o == "br":
            return list(t.s)
        if t.o == "switch":
            return [t.d] + [c[1] for c in t.cs]
        return []

    def relfile(self):
        f = self.file
        if f.startswith(REPO + "/"):
            return f[len(REPO) + 1:]
        if f.endswith((".rl", ".y")) or "/grammar/" in f or f in ("parser.c", "lexer.c"):
            return "lib/grammar/" + os.path.basename(f)
        return f


def renumber(f, base):
    """a copy of a function with its own value numbers, for one calling context"""
    def op(o):
        if not o:
            return o
        if o[0] == "v":
            return ["v", o[1] + base]
        if o[0] == "go":
            return ["go", op(o[1]), o[2]]
        return o
    g = Func.__new__(Func)
    g.__dict__.update({k: v for k, v in f.__dict__.items() if k != "flow"})
    g.params = [[p[0] + base] + list(p[1:]) for p in f.params]
    g.blocks = []
    for b in f.blocks:
        nb = []
        for x in b:
            y = Inst.__new__(Inst)
            for k in Inst.__slots__:
                setattr(y, k, getattr(x, k))
            y.i = x.i + base
            y.a = [op(o) for o in x.a or ()]
            y.c = op(x.c) if x.c else x.c
            y.inc = [[op(o), p] for o, p in x.inc] if x.inc else x.inc
            y.vi = [[op(o[0])] + list(o[1:]) for o in x.vi] if x.vi else x.vi
            y.fn = g
            nb.append(y)
        g.blocks.append(nb)
    g.defs = {x.i: x for b in g.blocks for x in b}
    return g


class Program:
    def __init__(self, group, d):
        self.group = group
        self.globals = d["globals"]
        self.functions = {n: Func(n, f, self) for n, f in d["functions"].items() if f["def"]}
        self.decls = {n: f["ty"] for n, f in d["functions"].items()}

    def string(self, op):
        """C string a constant operand points to, or None"""
        off = 0
        while op and op[0] == "go":
            off += op[2]; op = op[1]
        if op and op[0] == "g" and op[1] in self.globals:
            g = self.globals[op[1]]
            if g["const"] and "init" in g:
                i = g["init"]
                if isinstance(i, dict) and "s" in i:
                    return i["s"][off:].split("\0")[0]
                if i == ["z"]:
                    return ""
        return None


def own(group, fn):
    """does the function belong to this group's own sources (not to linked-in core or headers)?"""
    f = fn.relfile()
    if group == "core":
        return f.startswith("lib/core/")
    if group == "grammar":
        return f.startswith("lib/grammar/")
    if group == "bin":
        return f.startswith("bin/")
    if group == "stubs":
        return f.startswith("lib/stubs/")
    return f.startswith("lib/mnml/%s/" % group)


_progs = {}


def program(group, keep, config="debug", inline=True, with_core=True):
    """The linked, inlined program of one group. keep: names left as calls."""
    key = (group, tuple(sorted(keep)), config, inline, with_core)
    if key in _progs:
        return _progs[key]
    bc = bitcode(config)
    files = list(bc[group])
    if with_core and group not in ("core", "grammar"):
        files += bc["core"] + bc["grammar"]
    if group in ("core", "grammar"):
        files = bc["core"] + bc["grammar"]
    h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
    ll = os.path.join(scratch(), "l-%s.bc" % h)
    sh([LLVM + "/llvm-link", "-o", ll] + files)
    kf = ll + ".keep"
    open(kf, "w").write("\n".join(sorted(keep)) + "\n")
    oj = ll + ".json"
    sh([dumper(), ll, kf, oj] + ([] if inline else ["noinline"]))
    p = Program(group, json.load(open(oj)))
    os.remove(ll); os.remove(oj)
    _progs[key] = p
    return p


_consts = None


def consts():
    """Layout and enumerator values, taken from the headers themselves"""
    global _consts
    if _consts is None:
        names = {
            "REFS": "__builtin_offsetof(struct atom, refs)", "FLAGS": "__builtin_offsetof(struct atom, flags)",
            "CACHE": "__builtin_offsetof(struct atom, cache)", "NUMBER": "__builtin_offsetof(struct atom, number)",
            "SYMBOL": "__builtin_offsetof(struct atom, symbol)",
            "CAR": "__builtin_offsetof(struct atom, pair.car)", "CDR": "__builtin_offsetof(struct atom, pair.cdr)",
            "ATOM_SIZE": "sizeof(struct atom)", "LISP_SIZE": "sizeof(struct lisp)",
            "L_SLAB": "__builtin_offsetof(struct lisp, slab)", "L_GLOBALS": "__builtin_offsetof(struct lisp, globals)",
            "L_MODULES": "__builtin_offsetof(struct lisp, modules)", "L_ICHAN": "__builtin_offsetof(struct lisp, ichan)",
            "L_OCHAN": "__builtin_offsetof(struct lisp, ochan)",
            "S_FIRST": "__builtin_offsetof(struct slab, first)", "S_ALLOC": "__builtin_offsetof(struct slab, n_alloc)",
            "S_FREE": "__builtin_offsetof(struct slab, n_free)", "S_PAGES": "__builtin_offsetof(struct slab, n_pages)",
            "S_ENTRIES": "__builtin_offsetof(struct slab, entries)", "SYMLEN": "LISP_SYMBOL_LENGTH",
            "T_NONE": "T_NONE", "T_NIL": "T_NIL", "T_TRUE": "T_TRUE", "T_CHAR": "T_CHAR", "T_NUMBER": "T_NUMBER",
            "T_PAIR": "T_PAIR", "T_SYMBOL": "T_SYMBOL", "T_WILDCARD": "T_WILDCARD",
            "F_TAIL_CALL": "F_TAIL_CALL", "F_HAS_COLOR": "F_HAS_COLOR", "F_WEAKREF": "F_WEAKREF",
            "SLAB_SIZE": "SLAB_SIZE", "PAGE_SIZE": "PAGE_SIZE", "FD_SETSIZE": "FD_SETSIZE", "PATH_MAX": "PATH_MAX",
            "CL_NEXT": "__builtin_offsetof(struct closure, C)", "CL_VALUES": "__builtin_offsetof(struct closure, V)", "CL_VALUE": "sizeof(value_t)",
        }
        c = os.path.join(scratch(), "probe.c")
        open(c, "w").write("#include <mnml/lisp.h>\n#include <mnml/closure.h>\n#include <mnml/slab.h>\n#include <sys/select.h>\n#include <limits.h>\n" +
                           "".join("const long probe_%s = (long)(%s);\n" % kv for kv in names.items()))
        bc = c[:-2] + ".bc"
        sh([LLVM + "/clang"] + flags("debug") + ["-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", c, "-o", bc])
        open(c + ".keep", "w").write("")
        sh([dumper(), bc, c + ".keep", c + ".json"])
        g = json.load(open(c + ".json"))["globals"]
        _consts = {k: (g["probe_" + k]["init"][1] if g["probe_" + k]["init"][0] == "i" else 0) for k in names}
        # the kind bit-field sits between refs and flags; locate it from the bit-field access of a probe
        _consts["TYPE"] = _consts["REFS"] + 4 if _consts["FLAGS"] == _consts["REFS"] + 6 else None
        if _consts["TYPE"] is None:
            raise Broken("cell layout changed: kind field not located")
    return _consts
