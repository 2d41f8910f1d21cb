"""C01: the parsers build the formula that the documented grammar assigns to the text."""
import itertools

from hypothesis import strategies as st

from .. import gen, text
from ..core import freeze, dumps, require
from ..engine import Part
from ..spec import BINARY, PARSE, UNARY, cancels, expand, key, norm, ops, size, walk

ID = "C01"
RULE = (
    "a case is a spec (a tree of the documented grammar) of one of the four logics with one of the texts the grammar "
    "assigns to it (spellings, blanks and redundant parentheses drawn at random); it is non-trivial when the tree has "
    "at least two operators"
)
ASSUMPTIONS = [
    "an alphabetic operator is followed by a blank (U+0020), a double quote or a parenthesis, as the grammars demand",
    "no atom is named like a keyword of its logic",
    "trees of at most a few hundred nodes and depth 30",
]


def check(case):
    logic, spec = case["logic"], case["spec"]
    parsed = walk(PARSE[logic](case["text"]), logic)
    expected = norm(expand(spec, logic))
    require(
        key(parsed) == key(expected),
        "parse_{}({!r})\n  returned {}\n  expected {}",
        logic, case["text"], dumps(parsed), dumps(expected),
    )
    if not cancels(expand(spec, logic)):
        require(
            freeze(parsed) == freeze(expected),
            "the order of the operands of parse_{}({!r})\n  is {}\n  expected {}",
            logic, case["text"], dumps(parsed), dumps(expected),
        )
    used = ops(spec)
    n = size(spec)
    labels = [logic, "size %s" % ("1-3" if n < 4 else "4-9" if n < 10 else "10-29" if n < 30 else "30+")]
    labels += ["op %s/%s" % (logic, op) for op in sorted(used - {"atom", "prop"})]
    return len(used - {"atom", "prop"}) >= 2, labels


@st.composite
def towers(draw):
    logic = draw(st.sampled_from(gen.LOGICS))
    spec = draw(gen.chain(logic, shorthands=True))
    return {"logic": logic, "spec": spec, "text": text.render(spec, logic, gen.picker(draw))}


def nestings(_tier):
    """Every way of nesting three operators, printed with the fewest parentheses and with both extreme styles."""
    leaves = [["atom", "a"], ["atom", "b"], ["atom", "c"], ["atom", "d"]]
    for logic in ("pl", "ltl", "pltl"):
        binary = gen.BOOL + list(BINARY.get(logic, ()))
        unary = ["not"] + list(UNARY.get(logic, ()))
        small = [[op, x, y] for op in binary for x, y in [leaves[:2]]] + [[op, leaves[0]] for op in unary]
        other = [[op, leaves[2], leaves[3]] for op in binary] + [[op, leaves[3]] for op in unary] + [leaves[2]]
        specs = [[op, x, y] for op in binary for x in small for y in other]
        specs += [[op, leaves[2], x] for op in binary for x in small]
        specs += [[op, x] for op in unary for x in small]
        specs += [[op, *leaves[:3]] for op in binary] + [[op, x, *leaves[2:]] for op in binary for x in small]
        for spec in specs:
            yield {"logic": logic, "spec": spec, "text": text.render(spec, logic, text.plain)}
            yield {"logic": logic, "spec": spec, "text": text.render(spec, logic, lambda n: 1 if n < 8 else 0)}
    res = [["prop", ["atom", "a"]], ["test", ["tt"]], ["prop", ["not", ["atom", "a"]]]]
    level1 = [["seq", x, y] for x in res for y in res] + [["union", x, y] for x in res for y in res]
    level1 += [["star", x] for x in res] + [["test", ["not", ["ff"]]], ["test", ["and", ["last"], ["end"]]]]
    level1 += [["prop", [op, ["atom", "a"], ["atom", "b"]]] for op in gen.BOOL]
    level2 = [[op, x, y] for op in ("seq", "union") for x in level1 for y in res + level1[:3]]
    level2 += [[op, y, x] for op in ("seq", "union") for x in level1 for y in res] + [["star", x] for x in level1]
    level2 += [["test", [m, x, ["ff"]]] for m in ("dia", "box") for x in level1]
    level2 += [["test", [b, [m, x, ["ff"]], ["tt"]]] for m in ("dia", "box") for x in res for b in gen.BOOL]
    for r in res + level1 + level2:
        for m in ("dia", "box"):
            spec = [m, r, ["tt"]]
            yield {"logic": "ldl", "spec": spec, "text": text.render(spec, "ldl", text.plain)}
    small = [["dia", res[0], ["tt"]], ["not", ["end"]], ["last"]] + [[b, ["tt"], ["end"]] for b in gen.BOOL]
    for x, y, z in itertools.product(small, repeat=3):
        for b in gen.BOOL:
            yield {"logic": "ldl", "spec": [b, x, y, z], "text": text.render([b, x, y, z], "ldl", text.plain)}
    for x in small:
        for spec in (["not", x], ["box", res[1], x], ["dia", ["star", res[0]], x]):
            yield {"logic": "ldl", "spec": spec, "text": text.render(spec, "ldl", text.plain)}


def deeper(tier):
    """Three operators, one inside another, with the fewest parentheses, and with more of them."""
    for logic in ("pl", "ltl", "pltl"):
        for i, spec in enumerate(gen.triples(logic, 1 if tier == "thorough" or logic != "ltl" else 3)):
            yield {"logic": logic, "spec": spec, "text": text.render(spec, logic, text.plain if i % 2 else lambda n: n - 1 if n < 8 else 0)}
    for level in gen.regexes():
        for i, r in enumerate(level):
            spec = [("dia", "box")[i % 2], r, ["tt"]]
            yield {"logic": "ldl", "spec": spec, "text": text.render(spec, "ldl", text.plain)}


def long(_tier):
    """Long chains of operators, and of unary operators."""
    for logic in ("pl", "ltl", "pltl", "ldl"):
        for n in (16, 17, 32, 33, 64, 65, 101, 257):
            kids = [["atom", "a%d" % i] for i in range(n)]
            if logic == "ldl":
                kids = [["dia", ["prop", a], ["tt"]] for a in kids]
            specs = [[op] + kids for op in gen.BOOL + list(BINARY.get(logic, ()))]
            if logic == "ldl":
                specs = specs[:2] + [["box", [op] + [["prop", a] for a in [["atom", "b%d" % (i % 5)] for i in range(n)]], ["ff"]] for op in ("seq", "union")]
            for op in ["not"] + list(UNARY.get(logic, ())):
                spec = kids[0]
                for _ in range(min(n, 65)):
                    spec = [op, spec]
                specs.append(spec)
            for spec in specs:
                yield {"logic": logic, "spec": spec, "text": text.render(spec, logic, text.plain)}


def names(_tier):
    """Every unusual name, alone and next to operators."""
    for logic in ("pl", "ltl", "pltl", "ldl"):
        for w in gen.ODD + sum(gen.FAMILIES, []):
            if w in text.RESERVED[logic]:
                continue
            a = ["atom", w]
            specs = [a, ["not", a], ["and", a, ["atom", "b"]], ["implies", ["atom", "b"], a], ["iff", a, ["not", a]]]
            specs += [["or", ["tt"], a, ["ff"]]]
            for op in list(UNARY.get(logic, ())):
                specs.append([op, a])
            for op in list(BINARY.get(logic, ())):
                specs += [[op, a, ["atom", "b"]], [op, ["atom", "b"], a]]
            for spec in specs:
                if logic == "ldl":
                    spec = ["dia", ["prop", spec], ["tt"]]
                for pick in (text.plain, lambda n: 1 if n < 8 else 0, lambda n: n - 1 if n < 8 else 0):
                    yield {"logic": logic, "spec": spec, "text": text.render(spec, logic, pick)}


PARTS = [
    Part("nestings", check, cases=nestings),
    Part("deeper", check, cases=deeper),
    Part("long", check, cases=long),
    Part("names", check, cases=names),
    Part("random", check, gen.printed(fuel=(1, 4), shorthands=True), quick=16000, thorough=400000),
    Part("towers", check, towers(), quick=2400, thorough=40000),
]
