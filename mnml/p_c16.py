"""C16: control forms"""
from . import front, refs, specs
from .report import Outcome

ASSUME = ["the helpers of the evaluator (lisp_eval, lisp_prog, lisp_equ, ...) do what their own properties say (C10, C11, C26)",
          "symbols are compared over all their bytes (C12)"]
RULE = ("Effect summaries by abstract interpretation: for each primitive, every path through its compiled form is summarised as what it "
        "learns about its arguments, the ordered list of evaluations and calls it makes (which expression, in which environment) and the "
        "value it returns; each summary must agree, under every outcome the path leaves open, with the written reference semantics of the "
        "primitive. Loops are followed until their effects repeat beyond the depth of the summary. ")


def table(prop, tab, tier, text, least):
    out = Outcome(RULE + text, ASSUME)
    specs.compare(prop, tab, front.modules(), out, ("debug-nosse",) if tier == "quick" else ("debug-nosse", "release-nosse"))
    out.need("primitives compared", least)
    return out


def run(tier):
    return table("C16", refs.CONTROL, tier, "Control forms: which operands are evaluated, how often, in what order and where.", 10)
