"""C09: module tables and documented names"""
import os, re
from . import front, lispsrc, sem
from .report import Finding, Outcome

MANUAL = "docs/manual/Reference.md"


def documented():
    """(name, module, line) of every row of the reference's summary tables"""
    rows = []
    for i, l in enumerate(open(os.path.join(front.REPO, MANUAL), encoding="utf-8"), 1):
        cells = [c.strip() for c in l.replace("|>", "\0").strip().strip("|").split("|")]
        if len(cells) == 4:
            cells = [c.replace("\0", "|>") for c in cells]
            m = re.match(r"`\((\S+?)[\s)]", cells[1])
            n = re.match(r"`(\S+)`$", cells[0])
            mod = re.match(r"`(\S+)`$", cells[2])
            if m and n:
                rows.append((m.group(1).rstrip("`"), n.group(1), mod.group(1) if mod else None, i))
    return rows


def run(tier):
    out = Outcome("The table of each binary module, read from its compiled initialiser, and the definition each row's load function makes, "
                  "read by abstract interpretation of that function: the name the row answers to is the symbol that is bound and returned, "
                  "it fits a symbol, no two rows share a name or an implementation, the implementation is defined beside its load function, "
                  "every function of the module that defines a primitive is in the table, the table ends with an empty row, the module "
                  "answers to the name of its library. Each name of the reference's summary is in the module it names (rows of "
                  "library scripts: defined by that script or one it loads).",
                  ["the loader's search of a table is judged in C25/C26"])
    K = front.consts()
    provided = {}
    for cfg in ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"):
        for g in front.modules():
            prog, nat, table, end = sem.natives(g, cfg)
            mod = "lib/mnml/%s/lib.c" % g

            def bad(rule, subject, text, loc=None):
                out.add(Finding("C09", rule, "%s (%s)" % (g, mod), loc or mod, subject, text))
            out.count("modules")
            if not end:
                bad("unterminated", "table", "the table of module %s does not end with an empty row" % g)
            f = prog.functions.get("lisp_module_name")
            names = {prog.string(x.a[0]) for x in f.insts() if x.o == "ret"} if f is not None else set()
            if None not in names and names != {g}:
                bad("module name", "name", "module %s calls itself %s" % (g, ", ".join(sorted(names))))
            seen, fns, loads = {}, {}, set()
            for n in nat:
                out.count("rows")
                loads.add(n.loadfn)
                loc = getattr(n, "loc", mod)
                if n.err or n.name is None:
                    out.undecided["%s: row of %s (%s)" % (g, n.loadfn, cfg)] = n.err or "name not known"
                    continue
                provided.setdefault(n.name, set()).add(g)
                out.sample("%s: %s is bound to %s by %s" % (g, n.name, n.fn, n.loadfn))
                if n.name != n.symbol:
                    bad("name", n.name, "the row that answers to %s defines %s" % (n.name, n.symbol), loc)
                if len(n.name) > K["SYMLEN"]:
                    bad("length", n.name, "%s does not fit a symbol" % n.name, loc)
                rets = {r[1] if isinstance(r, tuple) and r[0] == "sym" else None for r in n.ret}
                if rets - {n.symbol, None}:
                    bad("returned", n.name, "loading %s returns %s" % (n.symbol, ", ".join(sorted(r for r in rets if r))), loc)
                if n.name in seen:
                    bad("duplicate", n.name, "two rows answer to %s" % n.name, loc)
                seen[n.name] = n
                if n.fn in fns:
                    bad("shared", n.name, "%s is bound to the implementation of %s" % (n.name, fns[n.fn]), loc)
                fns[n.fn] = n.name
                lf, nf = prog.functions.get(n.loadfn), n.f
                if lf is not None and nf is not None and lf.relfile() != nf.relfile():
                    bad("implementation", n.name, "%s, loaded by %s, is bound to %s of %s" % (n.name, lf.relfile(), n.fn, nf.relfile()), loc)
            # functions that define a primitive: they take the address of a native and assign a global
            for f in prog.functions.values():
                if f.local or not front.own(g, f) or f.name in loads:
                    continue
                if any(x.callee == "lisp_setq" for x in f.calls()) and any(takes(prog, o) for x in f.insts() for o in x.a):
                    bad("unlisted", f.name, "%s defines a primitive that is in no row of the table" % f.name, "%s:%d" % (f.relfile(), f.line))
    scripts = lispsrc.library()
    for name, row, mod, line in documented():
        out.count("documented names")
        loc = "%s:%d" % (MANUAL, line)
        if mod in front.modules():
            if mod not in provided.get(name, ()):
                out.add(Finding("C09", "missing", "%s (lib/mnml/%s/lib.c)" % (mod, mod), loc, name, "%s is documented to be in %s, which does not provide it" % (name, mod)))
        elif mod is not None:
            if mod + ".l" in scripts:
                if name not in lispsrc.defines(scripts, mod + ".l"):
                    out.add(Finding("C09", "missing", "%s (share/mnml/%s.l)" % (mod, mod), loc, name, "%s is documented to be in %s, which does not define it" % (name, mod)))
            else:
                out.undecided["%s (%s)" % (name, loc)] = "no module or script called %s" % mod
    out.need("rows", 50)
    out.need("documented names", 60)
    return out


def takes(prog, o):
    """is the operand the address of a function of the primitives' kind?"""
    while o and o[0] in ("go", "x") and isinstance(o[1], (list, tuple)):
        o = o[1]
    return bool(o) and o[0] == "g" and o[1] in prog.functions and prog.functions[o[1]].ty == "ptr (ptr, ptr)"
