"""C07: negation is an involution that swaps the constants; implication and equivalence simplify as documented."""
import itertools
import zlib

from hypothesis import strategies as st

from .. import gen
from ..core import dumps, require
from ..engine import Part
from ..folgen import fol_formula
from ..spec import LOGIC, PARSE, base, build, key, negate, norm, size, walk

ID = "C07"
RULE = (
    "a case is a formula of PL, LTL, PLTL, LDL or FOL to negate once and twice in each available way, a constant of any "
    "logic to negate some times, or a list of "
    "operands for an implication or an equivalence; non-trivial: the formula is not an atom, or something is simplified"
)
ASSUMPTIONS = ["constants belong to the logic of the other operands"]


def negations(case):
    logic, spec = case["logic"], case["spec"]
    f = build(spec, logic)
    normal = walk(f, logic)
    require(key(normal) == key(norm(spec)), "{} is built as {}", dumps(spec), dumps(normal))
    expected = negate(normal)
    for how, g in (("Not", base.Not(f)), ("~", ~f)):
        result = walk(g, logic)
        require(key(result) == key(expected), "{} of {} is {}", how, dumps(normal), dumps(result))
        for how2, h in (("Not", base.Not(g)), ("~", ~g)):
            twice = walk(h, logic)
            require(twice == normal, "{} of {} of {} is {}", how2, how, dumps(normal), dumps(twice))
            require(h == f and hash(h) == hash(f), "{} of {} of {!r} is not equal to it: {!r}", how2, how, f, h)
        if type(g) is base.Not:
            inner = g.argument
            require(type(inner) not in (base.Not, base.TrueFormula, base.FalseFormula), "{!r} is a negation of {!r}", g, inner)
    tower = f
    n = case["times"]
    for i in range(n):
        tower = base.Not(tower) if i % 2 else ~tower
    final = walk(tower, logic)
    require(
        key(final) == key(expected) if n % 2 else final == normal, "{} negations of {} are {!r}", n, dumps(normal),
        tower,
    )
    for value in (True, False):
        c = base.make_boolean(value, logic=LOGIC[logic])
        require(walk(c, logic) == (["tt"] if value else ["ff"]), "make_boolean({}) is {!r}", value, c)
        require(walk(~c, logic) == (["ff"] if value else ["tt"]), "the negation of {!r} is {!r}", c, ~c)
    return spec[0] != "atom", [logic, "root %s" % normal[0]]


def connectives(case):
    logic, spec = case["logic"], case["spec"]
    result = walk(build(spec, logic), logic)
    expected = norm(spec)
    require(key(result) == key(expected), "{}\n  is built as {}\n  expected {}", dumps(spec), dumps(result), dumps(expected))
    return key(result) != key(spec), [logic, spec[0], "result %s" % result[0]]


def constants(case):
    """The constants of every logic, those without a parser included."""
    logic = base.Logic[case["logic"]]
    value, how, times = case["value"], case["how"], case["times"]
    classes = {True: base.TrueFormula, False: base.FalseFormula}
    f = classes[value](logic) if case["positional"] else base.make_boolean(value, logic=logic)
    for _ in range(times):
        f = base.Not(f) if how == "Not" else ~f
        value = not value
    expected = classes[value]
    require(type(f) is expected and f.logic is logic, "{} negations of a constant of {} give {!r}", times, logic, f)
    same = expected(logic=logic)
    require(f == same and hash(f) == hash(same), "{!r} is not equal to {!r}", f, same)
    require(f != classes[not value](logic=logic), "{!r} is equal to its negation", f)
    for other in base.Logic:
        require((f == expected(logic=other)) is (other is logic), "{!r} compared with the constant of {}", f, other)
    return times > 0, [logic.name]


def every_constant(tier):
    for logic in base.Logic:
        for value in (True, False):
            for how in ("Not", "~"):
                for positional in (True, False):
                    for times in range(4 if tier == "quick" else 8):
                        yield {"logic": logic.name, "value": value, "how": how, "positional": positional, "times": times}


@st.composite
def any_formula(draw, fuel=(0, 3)):
    logic = draw(st.sampled_from(gen.LOGICS + ["fol"]))
    n = draw(st.integers(*fuel))
    spec = draw(fol_formula(n)) if logic == "fol" else gen.Maker(draw, logic, exotic=12).formula(logic, n)
    return {"logic": logic, "spec": spec, "times": draw(st.integers(0, 9))}


@st.composite
def operand_lists(draw):
    logic = draw(st.sampled_from(gen.LOGICS + ["fol"]))
    op = draw(st.sampled_from(["implies", "iff"]))
    maker = gen.Maker(draw, logic, exotic=12, repeat=0) if logic != "fol" else None
    out = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4, 5, 6, 9, 14]))):
        k = draw(st.integers(0, 9))
        if k < 3 and out:
            out.append(draw(st.sampled_from(out)))
        elif k < 4 and out:
            out.append(["not", draw(st.sampled_from(out))])
        elif k < 6:
            out.append(draw(st.sampled_from([["tt"], ["ff"]])))
        else:
            out.append(draw(fol_formula(1)) if logic == "fol" else maker.formula(logic, draw(st.integers(0, 1))))
    return {"logic": logic, "spec": [op] + out}


def small(tier):
    a, b = ["atom", "a"], ["atom", "b"]
    for logic in ("pl", "ltl", "pltl"):
        pool = [a, b, ["not", a], ["tt"], ["ff"], ["and", a, b], ["and", b, a]]
        for op in ("implies", "iff"):
            for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
                for seq in itertools.product(pool if n < 4 else pool[:6], repeat=n):
                    yield {"logic": logic, "spec": [op] + list(seq)}


def kin(tier):
    """Operands that are alike, but not the same."""
    for logic in gen.LOGICS:
        for spec in gen.related(logic, 1 if logic == "pl" or tier == "thorough" else 5, ("implies", "iff")):
            yield {"logic": logic, "spec": spec}


def neighbours(tier):
    """Operands that differ at one place only."""
    for logic, one, two in gen.neighbours(tier):
        some = zlib.crc32(dumps([one, two]).encode())
        yield {"logic": logic, "spec": [("implies", "iff")[some % 2]] + ([one, two] if some % 3 else [one, two, one])}


PARTS = [
    Part("constants", constants, cases=every_constant),
    Part("small", connectives, cases=small),
    Part("alike", connectives, cases=kin),
    Part("neighbours", connectives, cases=neighbours),
    Part("connectives", connectives, operand_lists(), quick=8000, thorough=200000),
    Part("negations", negations, any_formula(), quick=8000, thorough=200000),
]
