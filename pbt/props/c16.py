"""C16: accepted first-order proofs are sound."""
from .. import ndgen
from ..engine import Part
from ..soundness import check

ID = "C16"
RULE = (
    "a case is a first-order proof: made by applying rules forwards, one or two mutations away from such a proof, a proof "
    "around the side condition of a rule of a quantifier, or one of an enumeration of steps with quantifiers; if it is "
    "accepted, each of its lines is evaluated in the finite models of one and two elements (three in the thorough tier: "
    "all of them if they are few, else a sample of 4096); non-trivial: the proof is accepted, and it applies a rule"
)
ASSUMPTIONS = ["rows are unique", "variables, constants, functions and predicates have different names"]


def first_order(case):
    return check(case, True)


PARTS = [
    Part("terms", first_order, cases=ndgen.copy_steps),
    Part("quantifiers", first_order, cases=ndgen.quantifier_steps),
    Part("generic boxes", first_order, cases=ndgen.generic_steps),
    Part("namesakes", first_order, cases=ndgen.namesakes),
    Part("substitutions", first_order, cases=ndgen.substitutions),
    Part("wide", first_order, cases=ndgen.wide_quantifiers),
    Part("far", first_order, cases=ndgen.far_steps),
    Part("box endings", first_order, cases=ndgen.box_endings),
    Part("nested", first_order, cases=ndgen.nested(5, ndgen.quantifier_steps, ndgen.generic_steps, ndgen.wide_quantifiers, ndgen.copy_steps)),
    Part("dressed", first_order, ndgen.mutated_dressed("fol"), quick=600, thorough=20000),
    Part("correct", first_order, ndgen.correct("fol"), quick=2000, thorough=80000),
    Part("mutated", first_order, ndgen.mutated("fol"), quick=6000, thorough=200000),
    Part("side conditions", first_order, ndgen.quantified(), quick=6000, thorough=200000),
]
FINDING_PARTS = [Part("ambiguous names", first_order)]
