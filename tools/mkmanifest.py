#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (claimed checks) and the reasons for what is not claimed."""
import json, os
ROOT = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
SUM = ("Every path of each primitive up to the depth of the summary (12 effects; loops beyond that are compared up to there). "
       "What the manual leaves open is left open; a path the analysis cannot name is counted, not judged.")
CHECKS = {
    "C01": ("ownership typestate analysis (abstract interpretation of the compiled program with runtime-call contracts)",
            "Every path of every function, up to merging of states at joins; contracts of the runtime interface are themselves checked "
            "against their bodies. Trusted: allocator and symbol-tree surgery (C14, C17), the model of the compiled instructions."),
    "C02": ("use-after-release dataflow on the ownership analysis' abstract states",
            "As C01; borrowed parts are followed to the value they were borrowed from."),
    "C03": ("abstract-interpretation path summaries: order, count and target of every evaluation of an argument", SUM),
    "C04": ("abstract-interpretation path summaries: environment each evaluation, binding and lookup receives", SUM),
    "C05": ("freshness typestate: which lists an operation made or copied itself, inferred over all functions and grammar rules to a fixpoint; everything changed in place must be one of them",
            "conc, setq, <- and def are destructive by definition. The symbol tree and the channel lists are reached through the interpreter only (C06, C11, C17)."),
    "C06": ("path summaries of the channel primitives compared with a stack discipline", SUM),
    "C07": ("resource typestate analysis over the compiled program (acquire, release, hand over)",
            "Every path of every function but the generated scanner driver lexer_parse (its tables are out of reach); exits by abort are not judged."),
    "C08": ("interval and linear-inequality analysis of every write into an object of known size, with inferred contracts of function parameters",
            "Every function; lengths and places as linear forms under dominating conditions. Trusted: sizes do not wrap; the scanner's own tables."),
    "C09": ("abstract interpretation of every load function and module table, checked against the manual's tables",
            "Every row of every table; names of library scripts are resolved through the scripts' own loads."),
    "C10": ("path summaries of the equality functions, each answer compared with structural equality under every case left open",
            "Builds without SSE; circular data is not judged; recursion answers by the same rule."),
    "C11": ("path summaries of lookup, assignment and tree update against a reference; whole-program census of who touches cache, tree and binding cells",
            "Builds without SSE; lookup chains compared up to the depth of the summary, then by the loop's own rule."),
    "C12": ("byte typestate (abstract interpretation) of every buffer that becomes a symbol or holds the text of one; bytes read by the comparison itself",
            "Every path of every function that builds, compares or reads symbols, with and without SSE; buffers filled elsewhere are trusted."),
    "C13": ("abstract-interpretation path summaries of the tail-call finder, every position it collects compared with the tail positions of each form",
            "One-sided: tail calls that are missed are not judged. Lists three elements deep. Marks shared between functions are not judged."),
    "C14": ("abstract interpretation with linear forms: path summaries of every allocator function, counting loops summarised, compared with the free-list invariant",
            "Every path of every function of slab.c; counting loops only; sizes do not wrap."),
    "C15": ("path summaries over linear forms (abstract interpretation) of the printers: buffer position and text of every path compared with reference; escapes compared with the scanner's automaton",
            "Printers that loop instead of recurring are not judged; numbers through printf's own format; printable characters."),
    "C16": ("abstract-interpretation effect summaries of every path, compared with written reference semantics", SUM),
    "C17": ("shape-based abstract interpretation of tree insertion, lookup, update and rotation, every link of the result compared with the in-order sequence",
            "Every path of the six tree functions, one step of descent per iteration; colouring and balance are not judged, only order and links."),
    "C18": ("path-sensitive effect analysis of every function reaching an operation that ends the process, guard facts of divisions, signal and reading-loop typestate; plus the analyses of C19 and C20",
            "Every path of the functions concerned, in both configurations; stack exhaustion is not judged; two known findings (forged function values)."),
    "C19": ("typestate analysis of results that may be missing, path-sensitive, helpers followed",
            "Every use of a result of the listed calls, on every path (loops to a fixed point); allocation by malloc is taken not to fail; a failed descriptor given to close is harmless."),
    "C20": ("typestate analysis of value kinds with provenance (abstract interpretation), callee requirements checked at every call site",
            "Accesses whose cell has no known origin are counted and not judged; the interpreter's own structures are trusted; two known findings (forged function values)."),
    "C21": ("name resolution over the parsed library scripts, module tables from the compiled code",
            "Every use, load and definition of every script; names also bound as locals of the same script are taken to be found through the caller."),
    "C23": ("abstract-interpretation effect summaries of every path, compared with written reference semantics", SUM),
    "C24": ("abstract-interpretation effect summaries of every path, compared with written reference semantics", SUM),
    "C25": ("abstract-interpretation effect summaries of every path, compared with written reference semantics", SUM),
    "C26": ("abstract-interpretation path summaries of the evaluator and list operations, compared with written reference semantics",
            "Every path up to the summary's horizon (loops and recursion are compared step by step against the same rule)."),
    "C22": ("expansion of the compiler's operator tables and templates, arities against compiled parameter lists, compile-fail witness of the emitted text "
            "against the current headers, symbols against the runtime library",
            "every operator of the tables; every text a template stands for; what the emitted code computes is not judged"),
    "C27": ("arity checking of every call in the parsed library scripts against compiled parameter lists and definitions",
            "Calls of locals and computed functions, and calls with dotted or spliced arguments, are not judged."),
    "C28": ("product of the scanner's automaton (from ragel) with an automaton of the documented tokens; path summaries over linear forms of every scanner action; values of all grammar derivations up to a length compared with the denoted value",
            "A token is followed by a blank, a parenthesis or the end of the text; texts with errors are not judged; lemon's tables are taken to follow the grammar; lists up to 8 tokens (9 thorough)."),
}
NA = {}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Static analysis only; every check recompiles /repo's current sources to LLVM IR (never runs them) and analyses that."}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
