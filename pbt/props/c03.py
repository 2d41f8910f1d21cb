"""C03: printing and parsing are inverse of each other."""
from hypothesis import strategies as st

from .. import gen, text
from ..core import dumps, freeze, require
from ..engine import Part
from ..spec import BINARY, PARSE, UNARY, build, depth, expand, key, norm, ops, walk

from pylogics_modalities.utils.to_string import to_string

ID = "C03"
RULE = (
    "a case is a formula of one of the four logics, built with the constructors or parsed from a text; it is printed "
    "with to_string, and the text is parsed back; non-trivial: the printed formula has at least two operators"
)
ASSUMPTIONS = ["no atom is named like a keyword of its logic", "first-order formulae have no parser, hence no round trip"]


def check(case):
    logic = case["logic"]
    if "text" in case:
        f = PARSE[logic](case["text"])
    else:
        f = build(case["spec"], logic)
    before = walk(f, logic)
    expected = norm(expand(case["spec"], logic))
    s = to_string(f)
    require(type(s) is str, "to_string returned {!r}", s)
    g = PARSE[logic](s)
    after = walk(g, logic)
    require(
        freeze(after) == freeze(before),
        "{} {}\n  printed as {!r}\n  parsed back as {}", logic, dumps(before), s, dumps(after),
    )
    require(
        key(after) == key(expected),
        "{} {}\n  printed as {!r}\n  parsed back as {}", logic, dumps(expected), s, dumps(after),
    )
    require(f == g and not f != g and hash(f) == hash(g), "{!r} and its round trip {!r} are not equal", f, g)
    require(to_string(g) == s, "printing is not stable: {!r}, then {!r}", s, to_string(g))
    used = ops(before)
    labels = [logic, "depth %d" % min(depth(before), 8)]
    labels += ["op %s/%s" % (logic, op) for op in sorted(used - {"atom", "prop"})]
    return len(used - {"atom", "prop"}) >= 2, labels


@st.composite
def towers(draw):
    logic = draw(st.sampled_from(gen.LOGICS))
    return {"logic": logic, "spec": draw(gen.chain(logic, shorthands=True))}


def pairs(_tier):
    """Every operator as an operand of every other one, at every index; every unusual name."""
    a, b = ["atom", "a"], ["atom", "b"]
    for logic in ("pl", "ltl", "pltl"):
        leaves = [a, ["tt"], ["ff"]] + ([["ptrue"], ["pfalse"]] if logic != "pl" else [])
        nary = gen.BOOL + list(BINARY.get(logic, ()))
        unary = ["not"] + list(UNARY.get(logic, ()))
        small = leaves + [[op, a, b] for op in nary] + [[op, a] for op in unary] + [[op, a, b, a] for op in nary]
        small += {"ltl": [["last"]], "pltl": [["start"]]}.get(logic, [])
        for x in small:
            yield {"logic": logic, "spec": x}
            for op in unary:
                yield {"logic": logic, "spec": [op, x]}
            for op in nary:
                for y in small:
                    yield {"logic": logic, "spec": [op, x, y]}
        for w in gen.ODD:
            if w not in text.RESERVED[logic]:
                yield {"logic": logic, "spec": ["atom", w]}
                for op in unary:
                    yield {"logic": logic, "spec": [op, ["atom", w]]}
                for op in nary:
                    yield {"logic": logic, "spec": [op, ["atom", w], ["atom", "b"]]}
    pa, pb = ["prop", a], ["prop", ["and", a, ["not", b]]]
    regexes = [pa, pb, ["prop", ["tt"]], ["prop", ["ff"]], ["prop", ["not", a]], ["test", ["tt"]], ["test", ["last"]]]
    regexes += [["star", pa], ["star", ["star", pa]], ["star", ["test", ["tt"]]], ["test", ["not", ["end"]]]]
    regexes += [["seq", pa, pb], ["union", pa, pb], ["union", pa, pa], ["seq", pa, pb, pa]]
    regexes += [["prop", [op, a, b]] for op in gen.BOOL]
    for x in regexes:
        for y in regexes:
            for r in (["seq", x, y], ["union", x, y], ["star", ["seq", x, y]], ["star", ["union", x, y]]):
                yield {"logic": "ldl", "spec": ["dia", r, ["tt"]]}
        for m in ("dia", "box"):
            yield {"logic": "ldl", "spec": [m, x, ["ff"]]}
            yield {"logic": "ldl", "spec": ["not", [m, x, ["end"]]]}
            for op in gen.BOOL:
                yield {"logic": "ldl", "spec": [op, [m, x, ["ff"]], ["last"]]}
                yield {"logic": "ldl", "spec": [m, ["test", [op, [m, x, ["ff"]], ["last"]]], ["tt"]]}
                yield {"logic": "ldl", "spec": [m, x, [op, [m, x, ["ff"]], ["last"]]]}


PARTS = [
    Part("pairs", check, cases=pairs),
    Part("built", check, gen.logic_and_formula(fuel=(1, 4), shorthands=True), quick=12000, thorough=300000),
    Part("parsed", check, gen.printed(fuel=(1, 4), shorthands=True), quick=4000, thorough=80000),
    Part("towers", check, towers(), quick=2400, thorough=30000),
]
