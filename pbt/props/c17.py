"""C17: every correct derivation is accepted."""
from .. import nd, ndgen
from ..core import Skip, dumps, require
from ..engine import Part

ID = "C17"
RULE = (
    "a case is a proof that is correct by construction: rules are applied forwards to the formulae in scope (with boxes "
    "for assumptions and generic terms, nested, and closed by the rules that discharge them), as the textbook rules state "
    "them; the reference checker has to agree that it is correct, and the library has to accept it; non-trivial: the "
    "proof uses at least three different rules"
)
ASSUMPTIONS = [
    "rows are unique; variables, constants, functions and predicates have different names",
    "derivations in which the constructors simplify the formula that a rule concludes are not generated",
]


def check(case):
    lines = case["proof"]
    if nd.reference(lines) is not True:
        raise AssertionError("the generator made a proof that the reference does not accept: %s" % dumps(lines))
    verdict = nd.check(lines, case["logic"])
    require(verdict is True, "a correct proof is answered {!r}: {}", verdict, dumps(lines))
    rules = set(used(lines))
    return len(rules) >= 3, sorted(rules) + ["lines %d" % (len(list(nd.lines_of(lines))) // 5 * 5)]


def right(case):
    """One of the instances of the rules that the reference finds correct."""
    if nd.reference(case["proof"]) is not True:
        raise Skip
    check(case)
    return True, ["schema"]


def used(lines):
    for line in lines:
        if line[0] == "f":
            yield line[3]
        elif line[0] == "b":
            yield "box"
            yield from used(line[2])


PARTS = [
    Part("far", right, cases=ndgen.far_steps),
    Part("box endings", right, cases=ndgen.box_endings),
    Part("wide", right, cases=ndgen.wide_steps),
    Part("wide quantifiers", right, cases=ndgen.wide_quantifiers),
    Part("schemas", right, cases=ndgen.schemas),
    Part("quantifiers", right, cases=ndgen.quantifier_steps),
    Part("generic boxes", right, cases=ndgen.generic_steps),
    Part("namesakes", right, cases=ndgen.namesakes),
    Part("substitutions", right, cases=ndgen.substitutions),
    Part("nested", right, cases=ndgen.correct_nested(ndgen.schemas, ndgen.quantifier_steps, ndgen.generic_steps, ndgen.box_steps, ndgen.wide_steps, ndgen.wide_quantifiers)),
    Part("dressed pl", check, ndgen.dressed("pl"), quick=900, thorough=30000),
    Part("dressed fol", check, ndgen.dressed("fol"), quick=700, thorough=30000),
    Part("pl", check, ndgen.correct("pl"), quick=5000, thorough=150000),
    Part("fol", check, ndgen.correct("fol"), quick=4000, thorough=150000),
]
