"""C15: accepted propositional proofs are sound."""
from .. import ndgen
from ..engine import Part
from ..soundness import check

ID = "C15"
RULE = (
    "a case is a propositional proof: made by applying rules forwards, one or two mutations away from such a proof, or "
    "one of an enumeration of all the steps over a small pool of formulae; if it is accepted, each of its lines is "
    "evaluated in all the interpretations of its atoms; non-trivial: the proof is accepted, and it applies a rule"
)
ASSUMPTIONS = ["rows are unique", "no atom is named 'false' (a known finding)"]


def propositional(case):
    return check(case, False)


PARTS = [
    Part("steps", propositional, cases=ndgen.single_steps),
    Part("boxes", propositional, cases=ndgen.box_steps),
    Part("more citations", propositional, cases=ndgen.more_steps),
    Part("disjunctions", propositional, cases=ndgen.case_steps),
    Part("box endings", propositional, cases=ndgen.propositional_endings),
    Part("wide", propositional, cases=ndgen.wide_steps),
    Part("schemas", propositional, cases=ndgen.schemas),
    Part("nested", propositional, cases=ndgen.nested(7, ndgen.schemas, ndgen.single_steps, ndgen.box_steps, ndgen.case_steps)),
    Part("dressed", propositional, ndgen.mutated_dressed("pl"), quick=1200, thorough=40000),
    Part("correct", propositional, ndgen.correct("pl"), quick=3000, thorough=100000),
    Part("mutated", propositional, ndgen.mutated("pl"), quick=10000, thorough=300000),
]
# for the known findings: names that the strings of formulae do not tell apart are not generated
FINDING_PARTS = [Part("ambiguous names", propositional)]
