#!/usr/bin/env python3
# Generates /verif/properties.jsonl. Run by hand after an edit; checks only read the result.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Value references are balanced on every path",
  "Every operation of the interpreter (evaluator, built-in, reader, loader) gives back exactly the references to values it took: on every path through it, early exits and error exits included, each reference it acquired is released, stored or returned exactly once, so a program never leaks cells and never frees a cell that is still in use.",
  ["programs", "inputs"], "for every function of the core, the grammar actions and every built-in, every control-flow path, whatever the argument values",
  "The leak check of the tests only covers the paths a test script takes; error branches (wrong argument type, missing file, unknown symbol) of most built-ins are never taken by a test.",
  ["lib/core", "lib/mnml", "lib/grammar/parser.y", "include/mnml/lisp.h", "include/mnml/utils.h", "bin/mnml.c"],
  [("reference counting", "include/mnml/slab.h UP/DOWN, include/mnml/lisp.h X"), ("consume/borrow conventions", "lib/core/lisp.c, lib/core/eval.c, lib/core/utils.c")],
  ["lisp->slab n_alloc/n_free at exit (slabinfo, mnml -d)"])
p("C02", "No value is used after it was given up",
  "No operation of the interpreter reads, stores, passes on or returns a value (or a part borrowed from a value) after it has released its own reference to that value, unless it still holds another reference.",
  ["programs", "inputs"], "for every function of the core and every built-in, every control-flow path",
  "A freed cell usually still holds its old content, so a use after release gives the right answer in most runs and only corrupts data when the cell was recycled in between.",
  ["lib/core", "lib/mnml", "lib/grammar/parser.y", "bin/mnml.c"],
  [("reference counting", "include/mnml/lisp.h X"), ("cell recycling", "lib/core/slab.c slab_deallocate")])
p("C03", "Built-ins read exactly the arguments they declare",
  "Each built-in takes from its call exactly the parameters it declared to the interpreter, each under its own name and in the declared order, and treats everything after them as the caller's environment; the declared parameter count and style (fixed, trailing rest, or raw argument list) is the one its reference manual entry shows.",
  ["programs", "configurations"], "for every built-in of every module, in builds with and without run-time argument checks",
  "The name check compiled into debug builds only fires for built-ins a test calls, and is absent from release builds, where a mismatch silently reads another argument or the caller's variables.",
  ["include/mnml/module.h", "lib/mnml", "docs/manual/Reference.md"],
  [("parameter declaration", "include/mnml/module.h LISP_MODULE_SETUP"), ("parameter extraction", "include/mnml/module.h LISP_ARGS")])
p("C04", "Built-ins evaluate user code in the caller's environment",
  "Whenever a built-in evaluates an expression, a body or a callback supplied by the program, it does so in the caller's environment (possibly extended by bindings the form itself introduces), so the built-in's own parameter names are never visible to, and never capture, the program's variables.",
  ["programs"], "for every evaluation performed by every built-in, whatever names the program uses",
  "Capture only shows when a program happens to use a variable with the same name as a built-in's parameter (ANY, REM, COND, C, X...).",
  ["lib/mnml", "lib/core/eval.c"],
  [("residual environment", "include/mnml/module.h LISP_ARGS"), ("evaluation entry points", "lib/core/eval.c lisp_eval, lib/core/lisp.c lisp_prog")])
p("C05", "Evaluation never alters values or environments it shares",
  "Apart from the forms documented as destructive (conc, setq, <-, def), no operation modifies in place a list, pair, closure or environment that something else may also hold: in-place list operations are applied only to lists the operation itself has just built or copied.",
  ["programs", "histories"], "for every in-place list operation in the core, the grammar and the built-ins",
  "Sharing is invisible in a test that looks at one result; the damage shows later, in another variable that shares the structure.",
  ["lib/core", "lib/mnml", "lib/grammar/parser.y"],
  [("in-place list operations", "lib/core/lisp.c lisp_conc, lib/core/utils.c lisp_append, lisp_sss, lisp_merge"), ("copy before extend", "lib/core/eval.c, lib/mnml/std/let.c lisp_dup")])
p("C06", "Input and output redirection is always undone",
  "Every operation that redirects the current input or output channel restores the previous channel before it returns, on every path, and closes the stream it redirected to only after the channel was restored; no other operation changes the channel stacks.",
  ["programs", "fault_sequences"], "for every operation that pushes or pops a channel, every path including failures to open a file",
  "Tests redirect to a file that opens; the failing-open, nested and early-exit paths are not sampled.",
  ["lib/mnml/io/in.c", "lib/mnml/io/out.c", "lib/core/utils.c", "lib/core/read.c", "bin/mnml.c", "include/mnml/utils.h"],
  [("channel stacks", "include/mnml/utils.h PUSH_IO_CONTEXT, POP_IO_CONTEXT")])
p("C07", "Operating-system resources are released on every path",
  "File descriptors, streams, directory handles, dynamic library handles, address lists and heap buffers that an operation acquires are, on every path out of it, either released exactly once or handed to the program as part of its result (or to a long-lived structure that owns them).",
  ["inputs", "fault_sequences"], "for every acquisition in the core, the built-ins, the grammar and the interpreter binary, every path including every failure of a later step",
  "Tests cannot make each system call fail in turn and do not count descriptors or heap blocks.",
  ["lib/core", "lib/mnml", "lib/grammar/lexer.rl", "bin/mnml.c"],
  [("acquire/release pairs", "lib/mnml/unix, lib/mnml/io, lib/core/module.c, lib/core/utils.c, lib/core/closure.c")])
p("C08", "Fixed-size buffers are never overrun",
  "No string, path, file name, environment variable, number or descriptor supplied by the program or its environment can make the interpreter write outside a fixed-size buffer: every such write is limited to the capacity of its destination, including the terminating byte.",
  ["inputs", "configurations"], "for every write to a fixed-size buffer in the core, the built-ins and the interpreter binary, for inputs of any length",
  "Tests use short paths and names; overruns need a string of exactly, or more than, the buffer size.",
  ["lib/core", "lib/mnml", "bin/mnml.c"],
  [("list to C string", "lib/core/utils.c lisp_make_cstring"), ("path building", "lib/core/utils.c lisp_get_fullpath, lib/core/module.c")])
p("C09", "Every documented primitive is exported under its documented name",
  "Each primitive in the reference manual is provided by a loadable module under exactly the documented name, each primitive a module contains is listed in that module's table under its own name and bound to its own implementation, names fit the symbol size, are unique within the module, and each table is properly terminated.",
  ["configurations", "programs"], "for every primitive and module in the tree and every entry of the reference manual",
  "Tests load what they use; a dropped or mistyped table entry for an untested primitive passes.",
  ["lib/mnml", "include/mnml/module.h", "docs/manual/Reference.md"],
  [("module tables", "lib/mnml/*/lib.c ENTRIES"), ("name and loader", "include/mnml/module.h LISP_MODULE_SETUP")])
p("C10", "Equality, inequality and matching agree for every kind of value",
  "Equality is decided by the full content of both values for every kind of value (kind, full number or character, all bytes of a symbol, both halves of a pair), inequality is its exact negation for every combination of kinds, and pattern matching is equality with wildcards on the pattern side matching anything.",
  ["inputs"], "for every pair of values of every kind",
  "There are 49 kind combinations and unbounded contents; tests sample a few.",
  ["lib/core/utils.c", "lib/mnml/std/match.c", "lib/mnml/logic"],
  [("structural comparison", "lib/core/utils.c lisp_equ, lisp_neq"), ("pattern comparison", "lib/mnml/std/match.c atom_match"), ("symbol comparison", "include/mnml/utils.h lisp_symbol_match")])
p("C11", "A name always resolves to its current binding",
  "Looking up a name considers the innermost local binding first and otherwise the current global value: a value remembered for a name is only ever the live global binding cell, which is never removed, replaced or freed while the interpreter runs, and redefinition updates that cell in place.",
  ["programs", "histories"], "for every sequence of definitions, redefinitions, assignments, local bindings and lookups",
  "Staleness depends on the order of lookups and redefinitions through the same syntax node; tests sample few orders.",
  ["lib/core/lisp.c", "lib/core/tree.c", "lib/mnml/std"],
  [("lookup and cache", "lib/core/lisp.c lisp_lookup"), ("in-place update", "lib/core/tree.c lisp_tree_add, lisp_tree_upd")])
p("C12", "Symbols are 16 zero-padded bytes everywhere",
  "Every symbol is created as its text padded with zero bytes to the full symbol size, is compared over all its bytes, and its text, which carries no terminator at full length, is only ever read with an explicit bound; texts longer than a symbol are cut, never written past it.",
  ["inputs"], "for every symbol creation, comparison and text access, for names of every length up to and beyond the limit",
  "Only names of exactly the maximal length, or sharing a long prefix, expose an unbounded read or a partial comparison.",
  ["include/mnml/lisp.h", "include/mnml/utils.h", "include/mnml/types.h", "lib/core", "lib/mnml", "lib/grammar/lexer.rl"],
  [("symbol makers", "include/mnml/lisp.h MAKE_SYMBOL_*"), ("symbol comparison", "include/mnml/utils.h")])
p("C13", "Only self-calls in tail position are turned into loops",
  "A recursive call is treated as a tail call only when it is the last thing the function does: the last expression of the body, or, within that, the value branches of if, cond, match, and the last expression of prog, when and unless; a call whose result is still needed, or that is followed by more expressions, is performed as an ordinary call.",
  ["programs"], "for every function body built from the control forms the interpreter recognises",
  "A wrongly marked call is silently dropped or reordered only for bodies of a particular shape; tests cover one or two shapes.",
  ["lib/core/utils.c", "lib/core/eval.c", "lib/mnml/std/def.c", "lib/mnml/std/let.c"],
  [("tail position collection", "lib/core/utils.c lisp_collect_tails, lisp_mark_tail_calls"), ("tail call loop", "lib/core/eval.c lisp_eval_func")])
p("C14", "The cell allocator hands out each cell once, clean and in bounds",
  "A cell handed out by the allocator is not in use, lies within committed memory and has all its fields cleared; releasing the last reference of a pair releases both its parts (the weak one excepted) exactly once before the cell is recycled; exhaustion is detected before any cell outside the reserved memory is touched, and the allocation and release counters count every event. The cache of closures that compiled functions work in likewise hands each closure to one user at a time, with room for at least as many values as were asked for and linked to the closure it continues, and keeps those given back.",
  ["histories"], "for every sequence of allocations and releases, including growth up to and past the reserved size",
  "Tests never come near the memory limit and cannot enumerate allocation histories.",
  ["lib/core/slab.c", "lib/core/lisp.c", "lib/core/closure.c", "include/mnml/slab.h"],
  [("free list", "lib/core/slab.c slab_allocate, slab_deallocate, slab_expand"), ("recursive release", "lib/core/lisp.c lisp_deallocate"), ("closures of compiled code", "lib/core/closure.c lisp_closure_get, lisp_closure_put")])
p("C15", "Printing emits every part of a value, in order, readable back",
  "Printing a value emits the text of every part of it, in order and without dropping output already produced, whatever its nesting or size; each kind of value prints in a form the reader maps back to the same kind, and every character the quoted form escapes is an escape the reader accepts with the same meaning.",
  ["inputs"], "for every value of every kind and size",
  "Dropped output depends on where a value falls relative to the output buffer and on the kinds it mixes; tests print small flat values.",
  ["lib/core/print.c", "lib/grammar/lexer.rl"],
  [("buffered writer", "lib/core/print.c lisp_write, lisp_prin_pair, lisp_prin_atom"), ("character escapes", "lib/core/print.c, lib/grammar/lexer.rl tok_char")])
p("C16", "Control forms evaluate only what they select, and only once",
  "Each control form (if, when, unless, while, cond, match, prog, |>, or, and, not, eval, quote, list, time, and the print family) evaluates exactly the expressions its manual entry says, each once, in order, and returns the value that entry says; the branches and operands it does not select are not evaluated at all, and cond and match evaluate their subject once however many clauses they try.",
  ["programs"], "for every control form and every built-in that receives unevaluated arguments, every path",
  "Double or eager evaluation is only visible when the expression has a side effect in the branch a test does not look at.",
  ["lib/mnml/std", "lib/mnml/logic/or.c", "lib/core/lisp.c", "lib/core/eval.c"],
  [("control forms", "lib/mnml/std/if.c, when.c, unless.c, cond.c, match.c, while.c, lib/mnml/logic/or.c"), ("sequencing", "lib/core/lisp.c lisp_prog")])
p("C17", "Global names stay findable: tree search and insertion agree",
  "A global name once defined can be found by every later lookup or assignment: insertion, lookup and update descend the symbol tree by the same ordering to the same side, and rebalancing keeps every node linked exactly once with its subtrees on their proper sides.",
  ["histories"], "for every set of names in every insertion order",
  "The number of insertion orders is unbounded; tests insert a few sequences.",
  ["lib/core/tree.c", "include/mnml/tree.h"],
  [("descent", "lib/core/tree.c tree_add_node, tree_get_node, lisp_tree_upd"), ("rotations", "lib/core/tree.c lisp_tree_lrot, lisp_tree_rrot")])
p("C18", "Errors in a program never terminate the interpreter",
  "A program error (wrong type, missing file, unknown module, unknown name, failing system call, division by zero) makes the operation return NIL or an error value; no built-in or core operation ends the process, except quit, a failed exec, exhaustion of the cell memory and the internal consistency checks.",
  ["programs", "inputs", "fault_sequences"], "for every built-in and core operation and every failing step in it",
  "Tests do not drive each operation into each of its failures.",
  ["lib/core", "lib/mnml", "lib/grammar/lexer.rl", "bin/mnml.c"],
  [("error returns", "lib/mnml, lib/core/utils.c, lib/core/module.c")])
p("C19", "Failure results are checked before they are used",
  "The result of every operation that can fail by returning no value (end of input, path resolution, file, directory and library opening, environment lookups, memory reservation, descriptor-returning system calls) is tested before it is used, on every path.",
  ["fault_sequences", "configurations"], "for every call of such an operation, every path from the call to a use of its result",
  "Each failure needs its own environment (unset variable, missing directory, exhausted descriptors); tests run in one healthy environment.",
  ["lib/core", "lib/mnml", "bin/mnml.c"],
  [("nullable results", "lib/core/read.c lisp_read, lib/core/utils.c lisp_get_fullpath, libc getenv, fopen, fdopen, opendir, dlopen, realpath")])
p("C20", "Pair access is guarded by a kind check",
  "No built-in follows a program-supplied value as if it were a pair, or calls it as a function, without having established on that path that it is one, so passing a value of the wrong kind never makes the interpreter follow a number or a symbol's bytes as an address.",
  ["inputs", "programs"], "for every pair access on program-supplied data in every built-in, whatever kinds of values the program passes",
  "Tests pass values of the expected kind; each access would need a test with each wrong kind.",
  ["lib/mnml", "lib/core"],
  [("kind tests", "include/mnml/types.h IS_PAIR, IS_LIST, IS_SYMB"), ("safe accessors", "include/mnml/lisp.h lisp_car, lisp_cdr")])
p("C21", "Library scripts load everything they use",
  "Every library script can be loaded first, on its own, by a fresh interpreter: each global name its code refers to is a primitive it loads, a name defined by the script itself or by the scripts it loads, or a name documented as preloaded, and each script or module it loads exists and provides the requested names.",
  ["configurations", "programs"], "for every script under share/mnml and the compiler driver, every reference in it on every branch",
  "A missing load is masked whenever another script loaded earlier in the same session provides the name.",
  ["share/mnml", "bin/mnmlc"],
  [("load forms", "share/mnml/*.l (load ...)")])
p("C22", "The compiler only emits operations the runtime provides",
  "Each operation the Lisp-to-C compiler knows is compiled to runtime calls that exist with the same parameter count, and each primitive it treats specially is a primitive of the interpreter with the same name and arity.",
  ["programs"], "for every operator the compiler recognises",
  "Only the two library files compiled during the build are ever compiled by a test.",
  ["share/mnml/cc.l", "share/mnml/cps.l", "bin/mnmlc", "include/mnml"],
  [("operator tables and emitters", "share/mnml/cc.l, share/mnml/cps.l")])
p("C23", "Value primitives compute what the manual says, for every argument",
  "Each primitive that computes a value from its arguments (the kind predicates, str?, =, <>, the arithmetic and ordering operators, car, cdr, cons, conc, len, chr, sym) returns the value its manual entry gives for every kind and value of its arguments, takes its operands in the written order, returns NIL (never a made-up value) for arguments of the wrong kind where it checks them, and evaluates nothing.",
  ["inputs"], "for every argument value of every kind, on every path of each primitive",
  "The tests apply each operator to one or two values; swapped operands, a wrong comparison at equality, or a wrong kind test only show for other values.",
  ["lib/mnml/std", "lib/mnml/math", "lib/mnml/logic", "docs/manual/Reference.md"],
  [("predicates", "lib/mnml/std/*p.c"), ("arithmetic and ordering", "lib/mnml/math"), ("equality", "lib/mnml/logic/equ.c, neq.c"), ("list operations", "lib/mnml/std/car.c, cdr.c, cons.c, conc.c, len.c")])
p("C24", "Definitions and assignments bind exactly what they say",
  "def binds its name globally to a function with exactly the given parameters and body (a leading documentation string dropped); setq binds its unevaluated name globally to the value of its expression; <- updates the innermost local binding of the symbol, or else its global binding, and returns the previous value; let evaluates each bound expression in the caller's environment extended by the bindings before it and the body under all of them; a function value captures the caller's environment, parameters and body; load evaluates each of its arguments and loads the module, the listed symbols or the script it names, returning the last result.",
  ["programs", "histories"], "for every use of a defining or assigning form, with every shape of arguments, on every path",
  "A binding placed in the wrong environment, a previous value that is lost, or a let clause that does not see the one before it show only in programs that combine nesting and shadowing, which the tests do in a few places.",
  ["lib/mnml/std/def.c", "lib/mnml/std/setq.c", "lib/mnml/std/set.c", "lib/mnml/std/let.c", "lib/mnml/std/lambda.c", "lib/mnml/std/load.c"],
  [("global bindings", "lib/core/lisp.c lisp_setq, lib/core/tree.c"), ("local bindings", "lib/core/lisp.c lisp_bind, lisp_merge")])
p("C25", "System primitives act on the given argument and report what happened",
  "Each system and stream primitive (fork, pipe, wait, dup, close, unlink, accept, listen, connect, in, out, read, readline) performs its system call on exactly the descriptor, process, file, address or channel it was given, in the documented argument order; on success it returns that call's result, on failure a failure value, never the one for the other; in and out evaluate their body once, with the opened stream as current channel, and return the body's value; readline returns the whole line without its newline, and nothing but the newline is dropped; a file, library or host name handed to the system is the name the argument spells, never a buffer nothing was written to; in looks for files beside the file being read and opens them for reading, out opens them for writing.",
  ["inputs", "faults"], "for every argument and every outcome of every system call the primitive makes",
  "System call failures (full descriptor tables, refused connections, missing processes) and inputs such as an unterminated last line are never produced by the tests.",
  ["lib/mnml/unix", "lib/mnml/io"],
  [("system calls", "lib/mnml/unix/*.c"), ("streams", "lib/mnml/io/in.c, out.c, readline.c, read.c")])
p("C26", "Evaluation follows the evaluator's rules",
  "Every expression evaluates by the same rules: an atom to itself, a symbol to its binding, a list by evaluating its head and applying it; a function is applied to its arguments, each evaluated once, from left to right, in the caller's environment (or taken raw when the function's parameter list is a single symbol); its body runs in the caller's environment extended by the environment of its definition and then by its parameters; too few arguments give a function that remembers those already given, too many give NIL, a self tail call repeats the body with the new arguments; and a head that is no function leaves the list headed by its value, evaluated again when the head became a different symbol or list. The list operations underneath (copy, append, concatenate, length, string test, head, tail, bind) give what their names say for every list.",
  ["programs", "inputs"], "for every expression, every environment and every number of arguments, on every path of the evaluator and of the list operations it uses",
  "Tests evaluate some hundred expressions; partial application of a partial application, shadowing between the three environments, destructuring parameters and evaluation order with side effects combine in unbounded ways.",
  ["lib/core/eval.c", "lib/core/lisp.c", "lib/core/utils.c"],
  [("evaluation", "lib/core/eval.c lisp_eval, lisp_eval_pair, lisp_eval_func, lisp_bind_args"), ("list operations", "lib/core/lisp.c lisp_conc, lisp_cons, lisp_car, lisp_cdr; lib/core/utils.c lisp_append, lisp_dup, lisp_merge, lisp_len, lisp_is_string")])
p("C27", "Library scripts give operations the arguments they take",
  "No call in a library script passes a primitive or a library function more arguments than it takes (such a call is NIL), or an operation that reads its arguments raw fewer than its manual entry requires, and every stage of a composition with |> is an operation that still misses exactly the argument piped to it.",
  ["programs", "inputs"], "for every call in every library script, on every branch",
  "The tests run a few of the scripts on a few inputs; a call on another branch silently becomes NIL or a function.",
  ["share/mnml", "bin/mnmlc", "docs/manual/Reference.md"],
  [("calls", "share/mnml/*.l"), ("arity", "LISP_ARGS of each primitive; def of each library function; lib/core/eval.c partial application")])
p("C28", "Reading text yields exactly the value the text denotes",
  "Reading a text yields exactly the value it denotes: every number, character, string, symbol and constant is recognised over its whole extent (and no further) and becomes the value it spells, the prefix characters ' ` ~ mean quotation, evaluation and splicing and are never part of what follows them, escapes stand for their characters, comments and blanks for nothing, lists keep all elements in order with their dotted tail, an expression is handed on exactly once when its last parenthesis closes, and a text that arrives in pieces reads the same as in one.",
  ["inputs"], "for every text, split anywhere into pieces",
  "The tests read short well-formed texts; a boundary (the longest symbol, a prefix before a negative number, an escape before the closing quote, a piece ending inside a token) only shows on the text that has it.",
  ["lib/grammar"],
  [("scanner", "lib/grammar/lexer.rl"), ("grammar", "lib/grammar/parser.y"), ("pieces", "lib/grammar/lexer.rl lexer_parse"), ("escapes", "lib/core/utils.c lisp_process_escapes")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write(
    "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
