"""Ownership conventions of the runtime interface, one line per function.

args: one letter per parameter: '-' not a value, 'b' borrowed, 'c' consumed (the callee releases or stores it).
ret:  'own' a reference the caller must give back, 'own0' the same or NULL, '-' no value.
kind: 'eval' runs program code (anything in the interpreter may change), 'keep' stores what it consumes inside the
      result or a longer-lived structure, 'pure' otherwise.
Every line is itself an obligation: the body of each of these functions is analysed under it.
"""


class C:
    def __init__(self, args, ret="-", kind="pure", ty=None, why=""):
        self.args, self.ret, self.kind, self.ty, self.why = args, ret, kind, ty, why


NIL, TRUE, CHAR, NUMBER, PAIR, SYMBOL, WILD = 1, 2, 3, 4, 5, 6, 7

API = {
    "lisp_make_char": C("--", "own", ty=CHAR), "lisp_make_number": C("--", "own", ty=NUMBER),
    "lisp_make_nil": C("-", "own", ty=NIL), "lisp_make_true": C("-", "own", ty=TRUE),
    "lisp_make_symbol": C("--", "own", ty=SYMBOL), "lisp_make_wildcard": C("-", "own", ty=WILD),
    "lisp_make_quote": C("-", "own", ty=SYMBOL), "lisp_make_symbol_from_string": C("---", "own", ty=SYMBOL),
    "lisp_make_string": C("---", "own"),
    "lisp_car": C("-b", "own"), "lisp_cdr": C("-b", "own"),
    "lisp_cons": C("-cc", "own", "keep", PAIR), "lisp_conc": C("-cc", "own", "keep"),
    "lisp_append": C("-cc", "own", "keep"), "lisp_bind": C("-ccc", "own", "keep"),
    "lisp_setq": C("-cc", "own", "keep"), "lisp_sss": C("-cc", "own", "keep"), "lisp_merge": C("-cb", "own", "keep"),
    "lisp_dup": C("-b", "own"), "lisp_lookup": C("-bb", "own"),
    "lisp_eval": C("-bc", "own", "eval"), "lisp_prog": C("-bcc", "own", "eval"), "lisp_read": C("-c", "own0", "eval"),
    "lisp_load_file": C("--", "own", "eval"), "module_load": C("-c", "own", "eval"),
    "module_load_defaults": C("-", "-", "eval"), "module_init": C("-", "-", "eval"),
    "lisp_prin": C("-b-"), "lisp_len": C("b"), "lisp_equ": C("bb"), "lisp_neq": C("bb"), "lisp_is_string": C("b"),
    "lisp_make_cstring": C("b---"), "lisp_process_escapes": C("-c-c", "own"), "lisp_may_apply": C("bb"),
    "lisp_mark_tail_calls": C("-bbb"), "lisp_debug": C("-b-"),
    "lisp_tree_get": C("-b-", "own"), "lisp_tree_add": C("-cc", "own", "keep"), "lisp_tree_upd": C("-bb", "upd"),
    "lisp_tree_new": C("-bc", "own", "keep", PAIR), "lisp_tree_lrot": C("cb", "own"), "lisp_tree_rrot": C("cb", "own"),
    "lisp_tree_dfs": C("-b-", "own"), "lisp_drop": C("-c"),
    "syntax_error": C("-"), "parse_error": C("-"),
    "lisp_get_type": C("b"), "lisp_get_char": C("b"), "lisp_get_number": C("b"), "lisp_get_symbol": C("b"),
    "lexer_parse": C("----", "-", "eval"), "lexer_create": C("--"), "lexer_destroy": C("-"), "lexer_pending": C("-"),
    "Parse": C("----", "-", "eval"),
    "lisp_io_push": C("-"), "lisp_io_pop": C("-"),
}

# reference-count primitives and the allocator: modelled, not contracted
PRIM = ["lisp_incref", "lisp_decref", "lisp_allocate", "lisp_deallocate", "slab_allocate", "slab_deallocate"]

KEEP = sorted(set(API) | set(PRIM) | {"lisp_get_fullpath", "lisp_prefix", "lisp_tree_rem", "lisp_timestamp",
                                      "lisp_new", "lisp_delete", "module_fini", "slab_new", "slab_delete"})

# functions passed by address, by signature
INDIRECT = {
    "ptr (ptr, ptr)": C("-b", "own", "eval", why="native function of a primitive: environment lent, result handed over"),
    "void (ptr, ptr)": C("-c", "-", "pure", why="reader consumer: takes the expression"),
    "ptr (ptr)": C("-", "own", "eval", why="primitive loader: returns the bound symbol"),
    "void (ptr, ptr, ptr)": C("-b-", "-", "pure", why="REPL stage: looks at the result"),
    "i1 (ptr, ptr)": C("bb", "-", "pure", why="tree visitor"),
    "ptr (...)": None, "ptr ()": None, "void (ptr)": C("-"), "void (i32)": C("-"),
}
