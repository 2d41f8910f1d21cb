"""C05: what the constructors simplify keeps its meaning."""
import itertools
import operator
import zlib
from functools import reduce

from hypothesis import strategies as st

from .. import gen, sem
from ..core import dumps, require
from ..engine import Part
from ..spec import BOOLEAN, atoms, build, children, key, size, sublogic, walk

ID = "C05"
RULE = (
    "a case is a tree of operators of one of the four logics, with many constants, repeated and complementary operands, "
    "built by the constructors or by the operators & | ~ >>; the tree and the formula that is built are compared at "
    "every position of random finite traces (propositional formulae: under all the valuations of up to 7 atoms); "
    "non-trivial: the formula that is built differs from the tree, i.e. something was simplified"
)
ASSUMPTIONS = [
    "propositional 'true' and 'false' of LTL and PLTL are the negation of each other, and are evaluated inside the trace",
    "chains of binary temporal operators associate to the right (they are never restructured, so this is immaterial)",
]


def overloaded(spec, logic):
    """Build a formula with the operators of Python wherever there is one."""
    op = spec[0]
    kids = [overloaded(c, sublogic(op, logic, i)) for i, c in enumerate(children(spec))]
    if op == "not":
        return ~kids[0]
    if op == "and":
        return reduce(operator.and_, kids)
    if op == "or":
        return reduce(operator.or_, kids)
    if op == "implies":  # right associative
        return reduce(lambda acc, x: x >> acc, reversed(kids))
    if op in BOOLEAN:
        return BOOLEAN[op](*kids)
    return build_over(spec, kids, logic)


def build_over(spec, kids, logic):
    """Build a node over sub-formulae that are built already."""
    from .. import spec as s

    op = spec[0]
    if not kids:
        return build(spec, logic)
    if op in s.UNARY.get(logic, ()):
        return s.UNARY[logic][op](*kids)
    if op in s.BINARY.get(logic, ()):
        return s.BINARY[logic][op](*kids)
    return {
        "dia": s.ldl.Diamond, "box": s.ldl.Box, "seq": s.ldl.Seq, "union": s.ldl.Union, "star": s.ldl.Star,
        "test": s.ldl.Test, "prop": s.ldl.Prop,
    }[op](*kids)


def compare(case):
    logic, spec = case["logic"], case["spec"]
    f = overloaded(spec, logic) if case.get("operators") else build(spec, logic)
    result = walk(f, logic)
    if logic == "pl":
        names = atoms(spec)
        extra = [a for a in atoms(result) if a not in names]
        require(not extra, "{} became {}, with other atoms", dumps(spec), dumps(result))
        names = names[:7]
        for bits in itertools.product([False, True], repeat=len(names)):
            valuation = {n for n, b in zip(names, bits) if b}
            require(
                sem.pl(spec, valuation) == sem.pl(result, valuation),
                "{}\n  became {}\n  the values of which differ in {}", dumps(spec), dumps(result), sorted(valuation),
            )
    for trace in case.get("traces", []):
        ev = sem.Trace(trace)
        expected, got = ev.table(spec, logic), ev.table(result, logic)
        require(
            expected == got,
            "{}\n  became {}\n  on the trace {} the values are {} and {}", dumps(spec), dumps(result), trace, expected, got,
        )
    changed = key(result) != key(spec)
    return changed, [logic, "simplified" if changed else "kept"] + ["to a constant"] * (size(result) == 1 < size(spec))


@st.composite
def cases(draw, logics=("pl", "ltl", "pltl", "ldl")):
    logic = draw(st.sampled_from(list(logics)))
    maker = gen.Maker(draw, logic, exotic=0, constants=draw(st.integers(0, 2)) > 0, names=gen.FEW)
    fuel = draw(st.integers(1, 4))
    kind = draw(st.sampled_from(gen.BOOL + ["any"]))
    spec = maker.formula(logic, fuel) if kind == "any" else [kind] + maker.operands(logic, fuel)
    case = {"logic": logic, "spec": spec}
    if draw(st.integers(0, 2)) == 0:
        case["operators"] = 1
    if logic != "pl":
        case["traces"] = draw(st.lists(gen.trace(max_size=4), min_size=1, max_size=3))
    return case


def operand_lists(tier):
    """All the short lists of operands, from a pool with constants, complements and nested operators."""
    a, b = ["atom", "a"], ["atom", "b"]
    pool = [a, ["not", a], b, ["tt"], ["ff"], ["and", a, b], ["or", a, b]]
    for op in gen.BOOL:
        for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
            for seq in itertools.product(pool, repeat=n):
                yield {"logic": "pl", "spec": [op] + list(seq)}
    pool += [["implies", a, b], ["iff", a, b], ["not", ["and", b, a]], ["not", ["or", b, a]], ["not", ["iff", a, b]]]
    pool += [["not", b], ["iff", a, ["not", b]], ["implies", b, a]]
    for op in gen.BOOL:
        for n in (2, 3):
            for i, seq in enumerate(itertools.product(pool, repeat=n)):
                yield {"logic": "pl", "spec": [op] + list(seq)}
                if n == 2 or i % 5 == 0 or tier == "thorough":
                    yield {"logic": "pl", "spec": [op] + list(seq), "operators": 1}
    # an operator over three atoms, next to literals of theirs
    literals = [x for n in "abc" for x in (["atom", n], ["not", ["atom", n]])]
    n = 0
    for op in gen.BOOL:
        for inner in gen.BOOL:
            for i, j in itertools.combinations(range(6), 2):
                for kids in itertools.product([["atom", "a"], ["atom", "b"], ["atom", "c"], ["not", ["atom", "a"]]], repeat=3):
                    n += 1
                    if n % 4 == 0 or tier == "thorough":
                        x, y = (literals[i], literals[j])[:: 1 if n % 8 else -1]
                        yield {"logic": "pl", "spec": [op, x, y, [inner] + list(kids)]}
    traces = [[["a"], []], [[], ["a"]], [["a", "b"]], [[]]]
    for logic, unary in (("ltl", "next"), ("pltl", "before")):
        pool = [a, ["not", a], ["tt"], ["ff"], ["ptrue"], ["pfalse"], [unary, a], ["not", [unary, a]]]
        for op in gen.BOOL:
            for n in (2, 3):
                for seq in itertools.product(pool, repeat=n):
                    yield {"logic": logic, "spec": [op] + list(seq), "traces": traces}
    m = ["dia", ["prop", a], ["tt"]]
    pool = [m, ["not", m], ["tt"], ["ff"], ["box", ["prop", a], ["tt"]], ["dia", ["prop", ["not", a]], ["tt"]]]
    for op in gen.BOOL:
        for n in (2, 3):
            for seq in itertools.product(pool, repeat=n):
                yield {"logic": "ldl", "spec": [op] + list(seq), "traces": traces}


def kin(tier):
    """Operators over formulae that are alike, but not the same."""
    traces = [[["a"], [], ["a", "b"]], [[], ["a", "b"], ["b"]], [["b"]]]
    for logic in gen.LOGICS:
        for i, spec in enumerate(gen.related(logic, 1 if logic == "pl" or tier == "thorough" else 16)):
            case = {"logic": logic, "spec": spec}
            if logic != "pl":
                case["traces"] = traces
            if logic != "pl" or i % 2:
                yield case
            if i % 4 == 0 or (logic == "pl" and i % 2 == 0):
                yield dict(case, operators=1)


def neighbours(tier):
    """Operators over two formulae that differ at one place only."""
    traces = [[["a"], [], ["a", "b"]], [[], ["a", "b"], ["b"]], [["b"]]]
    for logic, one, two in gen.neighbours(tier):
        some = zlib.crc32(dumps([one, two]).encode())
        for j, op in enumerate(gen.BOOL if tier == "thorough" else ["and", "or", ("implies", "iff")[some % 2]]):
            kids = [one, two][:: -1 if some >> (j + 1) & 1 else 1]
            case = {"logic": logic, "spec": [op] + kids}
            if logic != "pl":
                case["traces"] = traces
            yield case


PARTS = [
    Part("operand lists", compare, cases=operand_lists),
    Part("alike", compare, cases=kin),
    Part("neighbours", compare, cases=neighbours),
    Part("random", compare, cases(), quick=16000, thorough=400000),
]
