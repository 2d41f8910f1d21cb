"""C06: conjunctions and disjunctions are built in a canonical form."""
import itertools
import zlib

from hypothesis import strategies as st

from .. import gen
from ..core import Violation, dumps, require
from ..engine import Part
from ..folgen import fol_formula
from ..spec import BOOLEAN, build, key, negate, norm, walk

ID = "C06"
RULE = (
    "a case is a list of operands (nested conjunctions and disjunctions, repetitions, complements, constants) given to "
    "And or Or, in PL, LTL, PLTL, LDL or FOL; the result is compared with the canonical form of the reference, operand "
    "by operand, and its invariants are checked; non-trivial: the result is not the list of operands as it was given"
)
ASSUMPTIONS = ["constants belong to the logic of the other operands"]


def check(case):
    logic, op, operands = case["logic"], case["op"], case["operands"]
    identity, absorbing = (["tt"], ["ff"]) if op == "and" else (["ff"], ["tt"])
    built = [build(x, logic) for x in operands]
    if case.get("fold"):
        f, expected = built[0], norm(operands[0])
        for x, y in zip(built[1:], operands[1:]):
            f = f & x if op == "and" else f | x
            expected = norm([op, expected, y])
    else:
        f, expected = BOOLEAN[op](*built), norm([op] + operands)
    result = walk(f, logic)
    what = "%s of %s" % (op, dumps(operands))
    require(dump_equal(result, expected), "{}\n  is {}\n  expected {}", what, dumps(result), dumps(expected))
    if result[0] == op:
        kids = result[1:]
        keys = [key(k) for k in kids]
        require(len(kids) >= 2, "{} is {}, which has a single operand", what, dumps(result))
        require(all(k[0] != op for k in kids), "{} is {}, which is not flat", what, dumps(result))
        require(len(set(keys)) == len(keys), "{} is {}, which has repeated operands", what, dumps(result))
        require(identity not in kids and absorbing not in kids, "{} is {}, which has constants", what, dumps(result))
        require(
            not any(key(negate(k)) in keys for k in kids), "{} is {}, which has an operand and its negation", what,
            dumps(result),
        )
        # canonical forms are fixed points
        again = BOOLEAN[op](*f.operands)
        require(dump_equal(walk(again, logic), result), "{} is not built again from its operands: {!r}", f, again)
        require(dump_equal(walk(BOOLEAN[op](f, f), logic), result), "{} of {!r} twice is not itself", op, f)
    require(dump_equal(walk(BOOLEAN[op](f), logic), result), "{} of a single operand is not the operand: {!r}", op, f)
    return result != [op] + operands, [logic, op, "arity %d" % min(len(operands), 12), "result %s" % result[0]]


def dump_equal(x, y):
    """Equal, operand by operand, up to the order inside the operands of commutative operators."""
    if x[0] == y[0] and x[0] in ("and", "or"):
        return len(x) == len(y) and all(key(i) == key(j) for i, j in zip(x[1:], y[1:]))
    return key(x) == key(y)


@st.composite
def cases(draw):
    logic = draw(st.sampled_from(gen.LOGICS + ["fol"]))
    op = draw(st.sampled_from(["and", "or"]))
    other = "or" if op == "and" else "and"
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20]))
    maker = gen.Maker(draw, logic, exotic=12) if logic != "fol" else None

    def leaf(fuel=1):
        return draw(fol_formula(fuel)) if logic == "fol" else maker.formula(logic, fuel)

    out = []

    def operand(d):
        k = draw(st.integers(0, 15))
        if k < 5 or (not out and k < 8):
            x = leaf(draw(st.integers(0, 1)))
        elif k < 6:
            x = leaf(2)
        elif k < 8:
            x = draw(st.sampled_from(out))
        elif k < 9 and out:
            x = ["not", draw(st.sampled_from(out))]
        elif k < 10:
            x = draw(st.sampled_from([["tt"], ["ff"], ["tt"]] if op == "and" else [["tt"], ["ff"], ["ff"]]))
        elif d > 0:
            nested = draw(st.sampled_from([op, op, op, other, other, "iff", "implies"]))
            if out and draw(st.integers(0, 3)) == 0:
                kids = [draw(st.sampled_from(out)) for _ in range(draw(st.integers(2, 3)))]
                x = [nested] + [negate(norm(y)) if draw(st.integers(0, 2)) == 2 else y for y in kids]
            else:
                x = [nested] + [operand(d - 1) for _ in range(draw(st.integers(2, 3)))]
            if k == 15:
                x = ["not", x]
        else:
            x = leaf(0)
        out.append(x)
        return x

    operands = [operand(3) for _ in range(n)]
    case = {"logic": logic, "op": op, "operands": operands}
    if len(operands) > 1 and draw(st.integers(0, 4)) == 0:
        case["fold"] = 1
    return case


def small(tier):
    a, b, c = ["atom", "a"], ["atom", "b"], ["atom", "c"]
    pool = [a, b, ["not", a], ["tt"], ["ff"], ["and", a, b], ["or", a, b], ["and", b, c], ["not", ["and", a, b]]]
    for op in ("and", "or"):
        for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
            for seq in itertools.product(pool, repeat=n):
                yield {"logic": "pl", "op": op, "operands": list(seq)}
        for n in range(2, 40):
            yield {"logic": "ltl", "op": op, "operands": [["atom", "p%d" % i] for i in range(n)]}
            yield {"logic": "ltl", "op": op, "operands": [["next", ["atom", "p%d" % (i % 7)]] for i in range(n)]}


def kin(tier):
    """Operands that are alike, but not the same."""
    for logic in gen.LOGICS:
        for i, spec in enumerate(gen.related(logic, 1 if logic == "pl" or tier == "thorough" else 5, ("and", "or"))):
            yield {"logic": logic, "op": spec[0], "operands": spec[1:]}
            if logic == "pl" or i % 5 == 0:
                yield {"logic": logic, "op": spec[0], "operands": spec[1:], "fold": 1}


def neighbours(tier):
    """Operands that differ at one place only."""
    for logic, one, two in gen.neighbours(tier):
        some = zlib.crc32(dumps([one, two]).encode())
        yield {"logic": logic, "op": ("and", "or")[some % 2], "operands": [one, two] if some % 3 else [one, two, one]}


PARTS = [
    Part("small", check, cases=small),
    Part("alike", check, cases=kin),
    Part("neighbours", check, cases=neighbours),
    Part("random", check, cases(), quick=16000, thorough=400000),
]
