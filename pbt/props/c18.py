"""C18: a proof is accepted only if each line follows by its rule from lines in scope."""
import copy

from hypothesis import strategies as st

from .. import nd, ndgen
from ..core import Skip, dumps, freeze, require
from ..engine import Part

from pylogics_modalities.syntax.fol import Term

ID = "C18"
RULE = (
    "a case is a proof: a correct one after one or two mutations (of a formula, a rule, the citations, the order of the "
    "lines, the boxes, the generic terms), a proof around the side condition of a rule of a quantifier, or one of an "
    "enumeration of single steps over small pools of formulae; the oracle is a reference checker written on plain data; "
    "non-trivial: the reference rejects the proof, or it has a box"
)
ASSUMPTIONS = [
    "rows are unique; variables, constants, functions and predicates have different names",
    "what the reference leaves open is not compared: inferences up to the order or the grouping of commutative operands, "
    "generic terms that occur bound elsewhere, instances that the constructors simplify, superfluous citations, "
    "assumptions outside the boxes",
]


def check(case):
    logic, lines = case["logic"], case["proof"]
    flat = nd.flat(lines, logic)
    shallow = copy.copy(flat)
    proof = nd.ND.Proof(flat)
    require(len(flat) == len(shallow) and all(x is y for x, y in zip(flat, shallow)), "Proof changes its argument {}", dumps(lines))
    before = freeze(list(map(list, shown(proof))))
    verdict = nd.ND.check(proof)
    require(type(verdict) is bool, "the verdict on {} is {!r}", dumps(lines), verdict)
    require(freeze(list(map(list, shown(proof)))) == before, "checking changes the proof {}", dumps(lines))
    require(nd.ND.check(proof) is verdict, "checking {} twice gives two answers", dumps(lines))
    expected = nd.reference(lines)
    if expected is nd.OPEN:
        raise Skip
    require(
        verdict is expected, "{} is {}, and it is {}", dumps(lines), "accepted" if verdict else "rejected",
        "correct" if expected else "wrong",
    )
    rules = sorted({line[3] for line in nd.lines_of(lines) if line[0] == "f"} - {"premise", "assumption"})
    boxes = any(line[0] == "b" for line in lines)
    return not expected or boxes, ["correct" if expected else "wrong"] + ["%s, %s" % (r, "correct" if expected else "wrong") for r in rules]


NOT_RULES = [None, 0, 1, True, "", "copy", "premise", "assumption", "and_e1", "NaturalDeductionRule.copy", "sorry", 3.5, ()]


def alien(case):
    """A line whose justification is not a rule is rejected."""
    logic, lines = case["logic"], case["proof"]
    flat = nd.flat(lines, logic)
    index = [0]

    def change(content):
        """Replace the justification of one of the lines."""
        for i, x in enumerate(content):
            if isinstance(x, list):
                change(x)
            elif isinstance(x, tuple) and not isinstance(content[i - 1], Term):
                if index[0] == case["line"]:
                    cites = x[1:] if case["cites"] else ()
                    content[i] = (list if case["list"] else tuple)((NOT_RULES[case["rule"]],) + tuple(cites))
                index[0] += 1

    change(flat)
    require(nd.ND.check(nd.ND.Proof(nd.flat(lines, logic))) is True, "{} is correct, and it is rejected", dumps(lines))
    if index[0] <= case["line"]:
        raise Skip
    verdict = nd.ND.check(nd.ND.Proof(flat))
    require(
        verdict is False, "{} is accepted, with {!r} for a rule of line {}: {!r}", dumps(lines), NOT_RULES[case["rule"]],
        case["line"], verdict,
    )
    return True, [repr(NOT_RULES[case["rule"]])]


@st.composite
def aliens(draw):
    logic = draw(st.sampled_from(["pl", "fol"]))
    case = draw(ndgen.correct(logic, 5))
    count = sum(1 for line in nd.lines_of(case["proof"]) if line[0] == "f")
    return {
        "logic": logic, "proof": case["proof"], "line": draw(st.integers(0, max(count - 1, 0))),
        "rule": draw(st.integers(0, len(NOT_RULES) - 1)), "cites": draw(st.booleans()), "list": draw(st.booleans()),
    }


def shown(proof):
    """The lines of a library proof, as strings."""
    for row, content, justification in proof:
        yield (row, list(shown(content)) if isinstance(content, list) else repr(content) + str(content), str(justification))


PARTS = [
    Part("steps", check, cases=ndgen.single_steps),
    Part("boxes", check, cases=ndgen.box_steps),
    Part("far", check, cases=ndgen.far_steps),
    Part("box endings", check, cases=ndgen.box_endings),
    Part("wide", check, cases=ndgen.wide_steps),
    Part("wide quantifiers", check, cases=ndgen.wide_quantifiers),
    Part("schemas", check, cases=ndgen.schemas),
    Part("nested", check, cases=ndgen.nested(9, ndgen.schemas, ndgen.quantifier_steps, ndgen.generic_steps, ndgen.box_steps, ndgen.single_steps, ndgen.wide_quantifiers)),
    Part("dressed propositional", check, ndgen.mutated_dressed("pl"), quick=1500, thorough=40000),
    Part("dressed first-order", check, ndgen.mutated_dressed("fol"), quick=1000, thorough=40000),
    Part("more citations", check, cases=ndgen.more_steps),
    Part("not a rule", alien, aliens(), quick=800, thorough=20000),
    Part("terms", check, cases=ndgen.copy_steps),
    Part("disjunctions", check, cases=ndgen.case_steps),
    Part("quantifiers", check, cases=ndgen.quantifier_steps),
    Part("generic boxes", check, cases=ndgen.generic_steps),
    Part("namesakes", check, cases=ndgen.namesakes),
    Part("substitutions", check, cases=ndgen.substitutions),
    Part("mutated propositional", check, ndgen.mutated("pl"), quick=4000, thorough=150000),
    Part("mutated first-order", check, ndgen.mutated("fol"), quick=4000, thorough=150000),
    Part("side conditions", check, ndgen.quantified(), quick=3000, thorough=100000),
]
FINDING_PARTS = [Part("ambiguous names", check)]
