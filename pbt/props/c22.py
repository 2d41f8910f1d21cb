"""C22: the native string and the representation of a formula show it in full."""
import json
import sys

from hypothesis import strategies as st

from .. import gen
from ..core import dumps, interpreter, require
from ..engine import Part
from ..folgen import fol_formula
from ..folgen import term as fol_term
from ..spec import base, build, cancels, children, freeze, key, rebuild, sublogic, term, walk
from .c08 import edit, edit_term, shuffle

ID = "C22"
RULE = (
    "a case is a pair of formulae (of any logic), the second one "
    "made from the first by a small edit or by permuting operands, or a pair of terms, or a batch of formulae that is also "
    "built in another interpreter with another hash seed; the oracle compares what the accessors of the two formulae "
    "give; non-trivial: the two formulae differ"
)
ASSUMPTIONS = [
    "variables and constants have different names, and names do not contain the punctuation of terms",
    "no atom or predicate is named 'false' (a known finding)",
    "the two false (and the two true) constants of the temporal logics are not told apart",
]
# what stands for an operator in the string of some formula
SYMBOLS = {"iff": "equivalence", "wnext": "weak_next"}
SYMBOLS.update({op: op for op in ("not", "and", "or", "implies", "next", "always", "eventually", "before", "once", "historically", "box")})
SYMBOLS["dia"] = "diamond"
LOGICS = ["pl", "ltl", "pltl", "ldl", "re", "fol"]


def shown_term(t):
    """What the string of a term has to tell."""
    return ("fun", t[1]) + tuple(map(shown_term, t[2])) if t[0] == "fun" else t[1]


def shown(spec):
    """What the string of a formula has to tell."""
    op = spec[0]
    if op in ("tt", "ptrue"):
        return "true constant"
    if op in ("ff", "pfalse"):
        return "false constant"
    if op == "pred":
        return ("pred", spec[1]) + tuple(map(shown_term, spec[2]))
    head = (op, spec[1]) if op in ("forall", "exists", "atom") else (op,)
    return head + tuple(map(shown, children(spec)))


def alike(spec):
    """The formula with variables in place of constants, up to the order of commutative operands."""
    def named(t):
        return ["fun", t[1], [named(x) for x in t[2]]] if t[0] == "fun" else ["var", t[1]]

    def go(x):
        if x[0] == "pred":
            return ["pred", x[1], [named(t) for t in x[2]]]
        return rebuild(x, [go(y) for y in children(x)])

    return key(go(spec))


def string(f):
    s = str(f)
    require(type(s) is str and s != "", "the string of {!r} is {!r}", f, s)
    require(str(f) == s and "{}".format(f) == s, "the string of {} changes", s)
    return s


def odd(t):
    """A term of which the name has punctuation."""
    return any(c in t[1] for c in ",() ") or (t[0] == "fun" and any(map(odd, t[2])))


def strange(spec):
    if spec[0] == "pred":
        return any(map(odd, spec[2]))
    return any(map(strange, children(spec)))


def pair(case):
    logic = case["logic"]
    one, two = case["spec"], case["spec2"]
    if logic == "fol" and (strange(one) or strange(two)):
        return False, ["outside"]
    f, g = build(one, logic), build(two, logic)
    one, two = walk(f, logic), walk(g, logic)
    if alike(one) != alike(two):
        require(repr(f) != repr(g), "{}\n  and {}\n  have the same representation {!r}", dumps(one), dumps(two), repr(f))
    if {"tt", "ff", "ptrue", "pfalse"} & {one[0], two[0]}:
        return False, ["constant"]
    s, t = string(f), string(g)
    if freeze(one) == freeze(two):
        require(s == t, "{} and {}\n  are the same formula, and their strings are {!r} and {!r}", dumps(case["spec"]), dumps(case["spec2"]), s, t)
    elif shown(one) != shown(two):
        require(s != t, "{}\n  and {}\n  have the same string {!r}", dumps(one), dumps(two), s)
    if not cancels(case["spec"]):
        again = string(build(case["spec"], logic))
        require(again == s, "{} built twice has the strings {!r} and {!r}", dumps(one), s, again)
    return shown(one) != shown(two), [logic, "different" if shown(one) != shown(two) else "same"]


def terms(case):
    one, two = case["t1"], case["t2"]
    if odd(one) or odd(two):
        return False, ["outside"]
    s, t = string(term(one)), string(term(two))
    require((s == t) is (shown_term(one) == shown_term(two)), "the strings of {} and {} are {!r} and {!r}", dumps(one), dumps(two), s, t)
    r = repr(term(one)), repr(term(two))
    require(r[0] != r[1] or shown_term(one) == shown_term(two), "the representation of {} and {} is {!r}", dumps(one), dumps(two), r[0])
    return shown_term(one) != shown_term(two), ["term"]


def batch(case):
    """The string is the same in an interpreter with another hash seed, and whatever was built before."""
    items = [x for x in case["formulas"] if not cancels(x["spec"])]
    mine = [string(build(x["spec"], x["logic"])) for x in items]
    base.reset_cache()
    back = [string(build(x["spec"], x["logic"])) for x in reversed(items)][::-1]
    for x, s, t in zip(items, mine, back):
        require(s == t, "{} has the string {!r}, and {!r} after other formulae", dumps(x["spec"]), s, t)
    answer = interpreter("c22", items, case["hashseed"])
    for x, s, t in zip(items, mine, answer):
        require(s == t, "{} has the string {!r}, and {!r} with hash seed {}", dumps(x["spec"]), s, t, case["hashseed"])
    return len(items) > 1, ["%d formulae" % (len(items) // 10 * 10)]


def other_side():
    """The other interpreter of 'batch'."""
    print(json.dumps([str(build(x["spec"], x["logic"])) for x in json.load(sys.stdin)]))


def make(draw, logic, fuel):
    if logic == "fol":
        return draw(fol_formula(fuel))
    if logic == "re":
        return regex(draw, fuel)
    return gen.Maker(draw, logic, exotic=8, constants=draw(st.integers(0, 3)) == 3).formula(logic, fuel)


def regex(draw, fuel):
    """A regular expression over propositional formulae, with tests of boolean constants."""
    kinds = ["prop", "prop", "test"] + (["seq", "union", "star", "union", "seq"] if fuel > 0 else [])
    kind = draw(st.sampled_from(kinds))
    if kind == "test":
        return ["test", draw(st.sampled_from([["tt"], ["ff"]]))]
    if kind == "prop":
        return ["prop", gen.Maker(draw, "ldl", exotic=8, constants=False).formula("pl", min(fuel, 1))]
    if kind == "star":
        return ["star", regex(draw, fuel - 1)]
    return [kind] + [regex(draw, fuel - 1) for _ in range(draw(st.sampled_from([2, 2, 3, 4])))]


def wrap(draw, logic, spec):
    """Move a parenthesis: group some of the operands, or a operator over some of them."""
    kids = children(spec)
    if kids and draw(st.integers(0, 7)) == 7:
        # once more the same operator
        if spec[0] in ("forall", "exists"):
            return [spec[0], draw(st.sampled_from([spec[1], spec[1], "x"])), spec]
        return rebuild(spec, kids[:-1] + [spec]) if spec[0] not in ("prop", "test") else spec
    if kids and draw(st.integers(0, 1)):
        i = draw(st.integers(0, len(kids) - 1))
        if spec[0] not in ("prop", "test"):
            return rebuild(spec, kids[:i] + [wrap(draw, sublogic(spec[0], logic, i), kids[i])] + kids[i + 1:])
    if kids and spec[0] in gen.BOOL and logic in ("pl", "ltl", "pltl") and draw(st.integers(0, 1)):
        # an operand with its operator becomes several operands, one of which is named after the operator
        i = draw(st.integers(0, len(kids) - 1))
        if kids[i][0] in SYMBOLS and children(kids[i]):
            return [spec[0]] + kids[:i] + [["atom", SYMBOLS[kids[i][0]]]] + children(kids[i]) + kids[i + 1:]
    if len(kids) > 2 and spec[0] in ("implies", "iff", "until", "release", "since", "triggers", "seq", "union", "wuntil", "srelease"):
        i = draw(st.integers(0, len(kids) - 2))
        return rebuild(spec, kids[:i] + [[spec[0]] + kids[i:i + 2]] + kids[i + 2:])
    if len(kids) == 1 and len(children(kids[0])) == 1 and logic in ("ltl", "pltl"):
        return rebuild(kids[0], [rebuild(spec, children(kids[0]))])
    return edit(draw, logic, spec)


@st.composite
def pairs(draw):
    logic = draw(st.sampled_from(LOGICS))
    spec = make(draw, logic, draw(st.integers(0, 3)))
    kind = draw(st.sampled_from(["edit", "edit", "edit", "wrap", "wrap", "shuffle", "new"]))
    if kind == "edit":
        other = edit(draw, logic, spec)
    elif kind == "wrap":
        other = wrap(draw, logic, spec)
    elif kind == "shuffle":
        other = shuffle(draw, spec)
    else:
        other = make(draw, logic, draw(st.integers(0, 2)))
    return {"logic": logic, "spec": spec, "spec2": other}


@st.composite
def term_pairs(draw):
    one = draw(fol_term(fuel=2))
    return {"t1": one, "t2": edit_term(draw, one) if draw(st.booleans()) else draw(fol_term(fuel=2))}


@st.composite
def batches(draw):
    formulas = []
    for _ in range(draw(st.integers(20, 60))):
        logic = draw(st.sampled_from(LOGICS))
        formulas.append({"logic": logic, "spec": make(draw, logic, draw(st.integers(0, 2)))})
    return {"formulas": formulas, "hashseed": draw(st.integers(0, 2 ** 32 - 1))}


def small(tier):
    """All the pairs of formulae with one operator over two atoms, or two unary ones."""
    a, b = ["atom", "a"], ["atom", "b"]
    for logic in ("pl", "ltl", "pltl"):
        unary, binary = ["not"] + gen.UNARY[logic], gen.BOOL + gen.BINARY[logic]
        some = [a, b] + [[u, a] for u in unary] + [[op, x, y] for op in binary for x in (a, b) for y in (a, b)]
        some += [[op, a, b, c] for op in binary for c in (a, ["atom", "c"])]
        some += [[u, [v, a]] for u in unary for v in unary] + [[op, [op, a, b], ["atom", "c"]] for op in binary]
        some += [[op, a, [op, b, ["atom", "c"]]] for op in binary]
        for x in some:
            for y in some:
                if x != y:
                    yield {"logic": logic, "spec": x, "spec2": y}
    p, q = ["prop", a], ["prop", b]
    some = [p, q, ["test", ["tt"]], ["star", p], ["prop", ["not", a]]] + [[op, x, y] for op in ("seq", "union") for x in (p, q) for y in (p, q)]
    some += [["star", x] for x in some] + [[op, p, q, p] for op in ("seq", "union")] + [[op, [op, p, q], p] for op in ("seq", "union")]
    some += [["prop", [op, a, b]] for op in gen.BOOL]
    for x in some:
        for y in some:
            if x != y:
                yield {"logic": "re", "spec": x, "spec2": y}
    x, t = ["dia", p, ["tt"]], ["box", q, ["ff"]]
    tests = [p, q, ["star", p], ["test", x], ["seq", p, q], ["union", p, q], ["prop", ["not", a]], ["star", ["test", t]]]
    some = [[op, r, f] for op in ("dia", "box") for r in tests for f in (["tt"], ["ff"], x, t)]
    some += [["not", f] for f in (x, t)] + [[op, f, g] for op in gen.BOOL for f in (x, t) for g in (x, t)]
    some += [[op, r, [op2, r, f]] for op in ("dia", "box") for op2 in ("dia", "box", "not") for r in (p, q) for f in (x, t) if op2 != "not"]
    for x in some:
        for y in some:
            if x != y:
                yield {"logic": "ldl", "spec": x, "spec2": y}


def wide(tier):
    for logic, one, two in gen.wide_pairs(tier):
        yield {"logic": logic, "spec": one, "spec2": two}


def neighbours(tier):
    for logic, one, two in gen.neighbours(tier, gen.LOGICS + ["re"]):
        yield {"logic": logic, "spec": one, "spec2": two}


def nested(tier):
    """Terms with the same names in the same order, and parentheses at different places."""
    def trees(names, depth):
        # every list of terms that reads as the names, in which the names after the first may become arguments
        if not names:
            yield []
            return
        head, tail = names[0], names[1:]
        for k in range(len(tail) + 1 if depth else 1):
            for inner in trees(tail[:k], depth - 1):
                for rest in trees(tail[k:], depth):
                    yield [["fun", head, inner] if k else ["const", head]] + rest

    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        lists = list(trees(["f", "g", "h", "k", "m"][:n], 3))
        for i, one in enumerate(lists):
            for two in lists[i:]:
                yield {"t1": ["fun", "q", one], "t2": ["fun", "q", two]}


PARTS = [
    Part("small", pair, cases=small),
    Part("wide", pair, cases=wide),
    Part("neighbours", pair, cases=neighbours),
    Part("nested terms", terms, cases=nested),
    Part("pairs", pair, pairs(), quick=12000, thorough=300000),
    Part("terms", terms, term_pairs(), quick=3000, thorough=50000),
    Part("other interpreters", batch, batches(), quick=24, thorough=600),
]
# for the known findings: atoms and predicates named 'false' are not generated
FINDING_PARTS = [Part("ambiguous names", pair)]
