"""C12: a formula keeps the operands it is given, in order, and carries the tag of its logic."""
from hypothesis import strategies as st

from .. import gen
from ..core import dumps, freeze, require
from ..engine import Part
from ..folgen import fol_formula
from ..spec import LOGIC, BINARY, UNARY, base, build, fol, key, ldl, norm, term, walk, walk_term

ID = "C12"
RULE = (
    "a case is an operator of LTL, PLTL, LDL, of the regular expressions or of FOL with a list of operands; the formula "
    "is read back through its accessors (operands, argument, regular_expression, tail_formula, variable, formula, "
    "name), and the tag of the logic is checked at each node; non-trivial: at least one operand is not an atom"
)
ASSUMPTIONS = ["operands are formulae of the logic that the operator applies to"]




def check(case):
    logic, spec = case["logic"], case["spec"]
    op = spec[0]
    where = "re" if op in ("seq", "union", "star", "test", "prop") else logic
    f = build(spec, where)
    require(f.logic == LOGIC[where], "{} has logic {}", dumps(spec), f.logic)
    result = walk(f, where)
    expected = norm(spec)
    # temporal and regular operators (unlike boolean ones) do not simplify
    require(
        result[0] == op and len(result) == len(spec), "{}\n  is built as {}", dumps(spec), dumps(result)
    )
    for i, (x, y) in enumerate(zip(expected[1:], result[1:])):
        same = key(x) == key(y) if isinstance(x, list) and x and isinstance(x[0], str) else freeze(x) == freeze(y)
        require(same, "operand {} of {}\n  is {}", i, dumps(spec), dumps(y))
    if op in BINARY.get(logic, ()) or op in ("seq", "union"):
        operands = f.operands
        require(isinstance(operands, tuple), "the operands of {!r} are not a tuple: {!r}", f, operands)
        require(tuple(f.operands) == tuple(operands), "the operands change: {!r}, {!r}", operands, f.operands)
    return any(isinstance(x, list) and x and x[0] != "atom" for x in spec[1:]), [where, op, "arity %d" % min(len(spec) - 1, 8)]


def objects(case):
    """The accessors return the very operands, and building the node again gives an equal formula."""
    logic, op, operands = case["logic"], case["op"], [build(x, case["sub"]) for x in case["operands"]]
    table = dict(UNARY.get(logic, {}), **BINARY.get(logic, {}))
    table.update({"seq": ldl.Seq, "union": ldl.Union, "star": ldl.Star})
    if op in ("dia", "box"):
        cls = ldl.Diamond if op == "dia" else ldl.Box
        tail = build(case["tail"], "ldl")
        f = cls(operands[0], tail)
        require(
            f.regular_expression == operands[0] and f.tail_formula == tail, "the parts of {!r} are {!r} and {!r}", f,
            f.regular_expression, f.tail_formula,
        )
        require(f == cls(f.regular_expression, f.tail_formula), "{!r} is not built again from its parts", f)
        return True, [op]
    f = table[op](*operands)
    if op in UNARY.get(logic, {}) or op == "star":
        require(f.argument == operands[0], "the argument of {!r} is {!r}", f, f.argument)
        require(f == table[op](f.argument), "{!r} is not built again from its argument", f)
    else:
        require(tuple(f.operands) == tuple(operands), "the operands of {!r} are {!r}", f, f.operands)
        require(f == table[op](*f.operands), "{!r} is not built again from its operands", f)
    return True, [op, "arity %d" % min(len(operands), 8)]


def first_order(case):
    spec = case["spec"]
    f = build(spec, "fol")
    result = walk(f, "fol")
    require(key(result) == key(norm(spec)), "{}\n  is built as {}", dumps(spec), dumps(result))
    p = fol.Predicate("P", [fol.Variable("x")] * len(case["terms"]))
    terms = [term(t) for t in case["terms"]]
    if terms:
        g = p(*terms)
        require(walk(g, "fol") == ["pred", "P", case["terms"]], "P applied to {!r} is {!r}", terms, g)
        h = fol.Function("f", [fol.Variable("x")] * len(terms))(*terms)
        require(walk_term(h) == ["fun", "f", case["terms"]], "f applied to {!r} is {!r}", terms, h)
        require([walk_term(x) for x in p.operands] == [["var", "x"]] * len(terms), "the application changed {!r}", p)
    return spec[0] not in ("pred", "tt", "ff"), ["root %s" % result[0]]


@st.composite
def cases(draw):
    logic = draw(st.sampled_from(["ltl", "pltl", "ldl"]))
    maker = gen.Maker(draw, logic)
    if logic != "ldl":
        op = draw(st.sampled_from(gen.UNARY[logic] + gen.BINARY[logic]))
        operands = [maker.formula(logic, 2)] if op in gen.UNARY[logic] else maker.operands(logic, 2)
        return {"logic": logic, "spec": [op] + operands}
    op = draw(st.sampled_from(["dia", "box", "seq", "union", "star", "test", "prop"]))
    if op in ("dia", "box"):
        return {"logic": logic, "spec": [op, maker.regex(2), maker.formula("ldl", 2)]}
    if op in ("seq", "union"):
        return {"logic": logic, "spec": [op] + maker.operands("re", 2)}
    sub = {"star": "re", "test": "ldl", "prop": "pl"}[op]
    return {"logic": logic, "spec": [op, maker.formula(sub, 2)]}


@st.composite
def nodes(draw):
    logic = draw(st.sampled_from(["ltl", "pltl", "ldl"]))
    maker = gen.Maker(draw, logic)
    if logic != "ldl":
        op = draw(st.sampled_from(gen.UNARY[logic] + gen.BINARY[logic]))
        n = 1 if op in gen.UNARY[logic] else draw(st.sampled_from(gen.ARITY))
        return {"logic": logic, "op": op, "sub": logic, "operands": [maker.formula(logic, 1) for _ in range(n)]}
    op = draw(st.sampled_from(["dia", "box", "seq", "union", "star"]))
    n = 1 if op in ("dia", "box", "star") else draw(st.sampled_from(gen.ARITY))
    case = {"logic": logic, "op": op, "sub": "re", "operands": [maker.regex(1) for _ in range(n)]}
    if op in ("dia", "box"):
        case["tail"] = maker.formula("ldl", 1)
    return case


def every(tier):
    """Three operators, one inside another."""
    for logic in ("ltl", "pltl"):
        for spec in gen.triples(logic, 1 if tier == "thorough" or logic == "pltl" else 2):
            if spec[0] not in gen.BOOL + ["not"]:
                yield {"logic": logic, "spec": spec}
    for level in gen.regexes():
        for i, r in enumerate(level):
            yield {"logic": "ldl", "spec": [("dia", "box")[i % 2], r, [["tt"], ["ff"]][i % 3 == 0]]}


@st.composite
def quantified(draw):
    from ..folgen import term as fol_term

    return {"spec": draw(fol_formula(draw(st.integers(0, 3)))), "terms": draw(st.lists(fol_term(fuel=2), max_size=4))}


PARTS = [
    Part("nested", check, cases=every),
    Part("operators", check, cases(), quick=8000, thorough=200000),
    Part("accessors", objects, nodes(), quick=6000, thorough=150000),
    Part("first order", first_order, quantified(), quick=4000, thorough=100000),
]
