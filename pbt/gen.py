"""Hypothesis strategies. Every generated value is JSON-able."""
import itertools

from hypothesis import strategies as st

from . import text as txt
from .spec import children, negate, norm, sublogic

LOGICS = ["pl", "ltl", "pltl", "ldl"]
FEW = ["a", "b", "c", "d"]
MANY = FEW + ["e", "f", "g", "h", "p", "q", "r", "s"]
ODD = [
    "trueish", "true1", "true_", "true-x", "falsehood", "falsey", "tt_", "tts", "ttrue", "ffoo", "ff-1", "lastly",
    "last-one", "ending", "end_", "first", "starts", "start-up", "a-b", "a--b", "a-b-c", "_", "__", "_0", "x_Y-Z",
    "aU", "u", "aUb", "gG", "xX", "a1", "p__q", "z9-9z", "endtt", "sO", '"a b"', '"("', '"U"', '"true"', '"tt"',
    '" "', '"!&|<->"', '"~"', '"a->b"', "\"it's\"", '"x[!]"', '"\\\\"', '"\\n"', '"last"',
    '"a  b"', '"a   b"', '" a b"', '"a b "', '"  "', '" a"', '"a "', '"a"', '"A b"', '"a B"',
]
# names that differ a little
FAMILIES = [
    ["someLongName", "somelongname", "someLongname", "someLongName_", "someLong-Name", "some_long_name"],
    ["a" * n for n in (1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)] + ["a" * 70 + c for c in ("b", "-b", "A", "_", "0")],
    ['"a b"', '"a  b"', '" a b"', '"a b "', '"ab"', '"A b"', '"a_b"', "a_b", "a-b", "ab", "aB", '"a-b"'],
    ["x1", "x01", "x10", "x_1", "x-1", "x", "x1_", "_x1", "x11", '"x1"', '"x 1"', '"1"'],
    ["not_a", "next", "and", "or", "implies", "equivalence", "until", "always", "prop", "seq", '"and a b"', '"(a)"', '"(and a b)"', '"not a"'],
    ["a%d" % i for i in range(16)],
]
HEAD = "abcdefghijklmnopqrstuvwxyz_"
TAIL = HEAD + HEAD.upper() + "0123456789"
PRINTABLE = "".join(chr(c) for c in range(32, 127) if chr(c) != '"')

_plain_word = st.builds(
    lambda h, t: h + t, st.sampled_from(HEAD), st.text(alphabet=TAIL, max_size=6)
)
_hyphen_word = st.builds(
    lambda h, b, t: h + b + t, st.sampled_from(HEAD), st.text(alphabet=TAIL + "-", min_size=1, max_size=6),
    st.sampled_from(TAIL),
)
_quoted_word = st.builds(lambda b: '"' + b + '"', st.text(alphabet=PRINTABLE, min_size=1, max_size=6))
_blank_word = st.builds(lambda b: '"' + b + '"', st.text(alphabet="  ab", min_size=1, max_size=8))
_long_word = st.builds(lambda h, n: h * n, st.sampled_from(["a", "ab-c", "x_1", "true", "p-"]), st.integers(8, 40)).map(
    lambda s: s.rstrip("-")
)
word = st.one_of(st.sampled_from(ODD), _plain_word, _hyphen_word, _quoted_word, _blank_word, _long_word)


@st.composite
def name(draw, logic=None, exotic=6, pool=FEW):
    """Name of an atom; one in 'exotic' is an unusual one."""
    if exotic and draw(st.integers(0, exotic - 1)) == exotic - 1:
        w = draw(word)
        if logic is None or w not in txt.RESERVED[logic]:
            return w
    return draw(st.sampled_from(list(pool)))


UNARY = {
    "pl": [], "ltl": ["next", "wnext", "always", "eventually"],
    "pltl": ["before", "wbefore", "once", "historically"], "ldl": [],
}
BINARY = {
    "pl": [], "ltl": ["until", "release", "wuntil", "srelease"], "pltl": ["since", "triggers"], "ldl": [],
}
BOOL = ["and", "or", "implies", "iff"]
ARITY = [2, 2, 2, 2, 2, 3, 3, 4, 5, 7, 12]
WIDE = [13, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100]


class Maker:
    """Draws specs of the logics."""

    def __init__(self, draw, logic, exotic=6, shorthands=False, constants=None, repeat=None, names=None, wide=True):
        self.draw, self.exotic, self.shorthands = draw, exotic, shorthands
        self.root = logic
        # modes: constants and repeated operands make the constructors simplify, and hide what is above them
        self.constants = draw(st.booleans()) if constants is None else constants
        # one operand in 'repeat' is related to an earlier sibling
        self.repeat = draw(st.sampled_from([0, 4, 8])) if repeat is None else repeat
        if names is None and exotic and draw(st.integers(0, 9)) == 9:
            names = draw(st.sampled_from(FAMILIES))
        self.names = names
        self.wide = wide
        self.pool = FEW if self.repeat == 4 else MANY

    def pick(self, options):
        return self.draw(st.sampled_from(options))

    def chance(self, n):
        return self.draw(st.integers(0, n - 1)) == n - 1

    def atom(self, logic):
        if self.names:
            return ["atom", self.pick(self.names)]
        # atoms of the formulae inside LDL must not be LDL keywords either
        return ["atom", self.draw(name(self.root, self.exotic, self.pool))]

    def leaf(self, logic):
        if logic == "re":
            return ["prop", self.leaf("pl")]
        constants = [["tt"], ["ff"]]
        if logic in ("ltl", "pltl"):
            constants += [["ptrue"], ["pfalse"]]
        if self.shorthands:
            constants += {"ltl": [["last"]], "pltl": [["start"]], "ldl": [["last"], ["end"]]}.get(logic, [])
        if logic == "ldl":
            if not self.constants or self.chance(2):
                return [self.pick(["dia", "box"]), ["prop", self.leaf("pl")], self.pick(constants)]
            return self.pick(constants)
        if self.constants and self.chance(4):
            return self.pick(constants)
        return self.atom(logic)

    def formula(self, logic, fuel):
        if fuel <= 0:
            return self.leaf(logic)
        if logic == "re":
            return self.regex(fuel)
        kinds = ["leaf", "not"] + BOOL + UNARY[logic] + BINARY[logic]
        if logic == "ldl":
            kinds += ["dia", "box", "dia", "box"]
        kind = self.pick(kinds)
        if kind == "leaf":
            return self.leaf(logic)
        if kind == "not" or kind in UNARY[logic]:
            return [kind, self.formula(logic, fuel - 1)]
        if kind in ("dia", "box"):
            return [kind, self.regex(fuel - 1), self.formula("ldl", fuel - 1)]
        return [kind] + self.operands(logic, fuel)

    def operands(self, logic, fuel):
        n = self.pick(ARITY)
        if n == 12 and self.wide and self.chance(6):
            return self.many(logic, self.pick(WIDE))
        fuel = fuel - 1 if n < 5 else min(fuel - 1, 1)
        out = []
        for _ in range(n):
            if out and self.repeat and self.chance(self.repeat):
                old = self.pick(out)
                if logic == "re":
                    out.append(old)
                    continue
                k = self.draw(st.integers(0, 3))
                if k == 3:
                    # an operator over operands that are there already
                    kind = self.pick(BOOL + BINARY[logic])
                    others = [self.pick(out), self.leaf(logic) if self.chance(2) else self.pick(out)]
                    if self.chance(2):
                        others.reverse()
                    old = [kind] + [negate(x) if self.chance(3) else x for x in ([old] + others)[: self.pick([2, 2, 3])]]
                out.append(negate(old) if k == 1 or (k == 3 and self.chance(3)) else old)
            else:
                out.append(self.formula(logic, fuel))
        return out

    def many(self, logic, n):
        """A long list of operands, most of which are different atoms."""
        self.wide = False
        out = []
        for i in range(n):
            a = ["atom", "a%d" % i]
            if logic == "re":
                a = ["prop", a]
            elif logic == "ldl":
                a = [["dia", "box"][i % 2], ["prop", a], ["tt"]]
            out.append(a)
        for _ in range(self.draw(st.integers(0, 3))):
            x = self.draw(st.sampled_from(out)) if self.repeat else self.formula(logic, 1)
            out[self.draw(st.integers(0, n - 1))] = x
        return out

    def regex(self, fuel):
        if fuel <= 0:
            return self.leaf("re")
        kind = self.pick(["leaf", "prop", "seq", "union", "star", "test", "star", "test"])
        if kind == "leaf":
            return self.leaf("re")
        if kind == "prop":
            return ["prop", self.formula("pl", fuel - 1)]
        if kind == "star":
            return ["star", self.regex(fuel - 1)]
        if kind == "test":
            return ["test", self.formula("ldl", fuel - 1)]
        return [kind] + self.operands("re", fuel)


@st.composite
def formula(draw, logic, fuel=(0, 4), **options):
    """A spec of the logic."""
    maker = Maker(draw, logic, **options)
    return maker.formula(logic, draw(st.integers(*fuel)))


@st.composite
def logic_and_formula(draw, logics=tuple(LOGICS), fuel=(0, 4), **options):
    """A pair (logic, spec)."""
    logic = draw(st.sampled_from(list(logics)))
    return {"logic": logic, "spec": draw(formula(logic, fuel, **options))}


def picker(draw, wild=True):
    """A style driven by Hypothesis (see text.py)."""
    if not wild:
        return txt.plain
    return lambda n: draw(st.integers(0, n - 1)) if n > 1 else 0


@st.composite
def printed(draw, logics=tuple(LOGICS), fuel=(0, 4), **options):
    """A spec with one of its texts."""
    case = draw(logic_and_formula(logics, fuel, **options))
    case["text"] = txt.render(case["spec"], case["logic"], picker(draw))
    return case


def trace(names=FEW, min_size=1, max_size=4):
    """A finite trace: a list of the lists of the true atoms."""
    return st.lists(st.lists(st.sampled_from(names), unique=True, max_size=len(names)), min_size=min_size, max_size=max_size)


deep = st.integers(5, 30)


@st.composite
def chain(draw, logic, **options):
    """A deep spec: a tower of operators over a small spec."""
    maker = Maker(draw, logic, **options)
    spec = maker.formula(logic, 1)
    for _ in range(draw(deep)):
        kinds = ["not"] + BOOL + UNARY[logic] + BINARY[logic] + (["dia", "box"] if logic == "ldl" else [])
        kind = maker.pick(kinds)
        if kind == "not" or kind in UNARY[logic]:
            spec = [kind, spec]
        elif kind in ("dia", "box"):
            if maker.chance(2):
                spec = [kind, maker.leaf("re"), spec]
            else:
                spec = [kind, ["test", spec], ["tt"]]
        else:
            other = maker.leaf(logic)
            spec = [kind, spec, other] if maker.chance(2) else [kind, other, spec]
    return spec


def triples(logic, every=1):
    """Specs with three operators, one inside another, at each place; a few of them, or all."""
    leaves = [["atom", "a"], ["atom", "b"], ["atom", "c"], ["atom", "d"], ["atom", "e"]]
    unary, binary = ["not"] + UNARY[logic], BOOL + BINARY[logic]

    def over(x, spare):
        for op in unary:
            yield [op, x]
        for op in binary:
            yield [op, x, spare]
            yield [op, spare, x]

    n = 0
    for x in [[op, leaves[0]] for op in unary] + [[op, leaves[0], leaves[1]] for op in binary]:
        for y in over(x, leaves[2]):
            for z in over(y, leaves[3]):
                n += 1
                if n % every == 0:
                    yield z


def regexes():
    """Regular expressions with up to three operators."""
    p, q, t = ["prop", ["atom", "a"]], ["prop", ["atom", "b"]], ["test", ["tt"]]
    zero = [p, q, t]
    one = [["star", x] for x in zero] + [[op, x, y] for op in ("seq", "union") for x in zero for y in zero]
    one += [["test", ["dia", p, ["tt"]]], ["test", ["box", t, ["ff"]]], ["prop", ["not", ["atom", "a"]]]]
    two = [["star", x] for x in one] + [[op, *z] for op in ("seq", "union") for x in one for y in zero for z in ((x, y), (y, x))]
    two += [["test", ["box", x, ["ff"]]] for x in one] + [[op, x, q, p] for op in ("seq", "union") for x in one] + [[op, p, q, x] for op in ("seq", "union") for x in one]
    three = [["star", x] for x in two] + [[op, *z] for op in ("seq", "union") for x in two for z in ((x, p), (p, x))]
    three += [["test", ["dia", x, ["tt"]]] for x in two]
    pairs = [[op, x, y] for op in ("seq", "union") for i, x in enumerate(one) for y in one[i % 2 :: 2]]
    return zero, one, two, three, [["star", x] if i % 3 else ["test", ["dia", x, ["tt"]]] for i, x in enumerate(pairs)]


def relatives(logic):
    """Formulae that are made of the same two atoms, with at most one operator that is not boolean, and their negations."""
    if logic == "pl":
        x, y, z = ["atom", "a"], ["atom", "b"], ["atom", "c"]
        literals = [x, ["not", x], y, z]
        out = literals + [["not", y]]
        for op in ("and", "or"):
            for n in (2, 3, 4):
                for seq in itertools.combinations(literals, n):
                    if n == 2 or seq[:2] != (x, ["not", x]):
                        out.append([op] + list(seq))
                        out.append([op] + list(reversed(seq)))
        return [f for f in out if f not in (["and", x, ["not", x]], ["or", x, ["not", x]])] + [
            [op, p, q] for op in ("implies", "iff") for p in literals[:3] for q in literals[:3] if p != q
        ]
    if logic == "ldl":
        x, y = ["dia", ["prop", ["atom", "a"]], ["tt"]], ["dia", ["prop", ["atom", "b"]], ["tt"]]
        out = [x, negate(x), y, negate(y)]
        tails = [x, negate(x), ["tt"], ["ff"]]
        tests = [["prop", ["atom", "a"]], ["prop", ["not", ["atom", "a"]]], ["prop", ["tt"]], ["prop", ["ff"]], ["test", x]]
        tests += [["test", negate(x)], ["star", ["prop", ["atom", "a"]]], ["star", ["test", x]]]
        out += [[op, r, f] for op in ("dia", "box") for r in tests for f in tails if [op, r, f] != x]
        out += [negate(f) for f in out[4:]]
    else:
        x, y = ["atom", "a"], ["atom", "b"]
        out = [x, negate(x), y, negate(y)]
        out += [[op, f] for op in UNARY[logic] for f in out[:4] + [["tt"], ["ff"], ["ptrue"], ["pfalse"]]]
        out += [[op, f, g] for op in BINARY[logic] for f, g in itertools.permutations([x, negate(x), y, negate(y)], 2)]
        out += [negate(f) for f in out[4:]]
    return out


def related(logic, every=1, ops=("and", "or", "implies", "iff")):
    """Operators over two or three relatives."""
    pool = relatives(logic)
    n = 0
    for op in ops:
        for f in pool:
            for g in pool:
                n += 1
                if n % every == 0:
                    yield [op, f, g]
                if n % (9 * every) == 0:
                    yield [op, f, g, pool[(7 * n) % len(pool)]]


def edits(kids, other):
    """Lists that are nearly the list of operands: (name, list), 'group' stands for two operands made one."""
    n = len(kids)
    m = n // 2
    yield "swap", kids[:-2] + [kids[-1], kids[-2]]
    yield "swap", [kids[1], kids[0]] + kids[2:]
    yield "swap", kids[:m - 1] + [kids[m], kids[m - 1]] + kids[m + 1:]
    yield "swap", [kids[-1]] + kids[1:-1] + [kids[0]]
    yield "reverse", kids[::-1]
    yield "rotate", kids[1:] + kids[:1]
    yield "drop", kids[:-1]
    yield "drop", kids[1:]
    yield "drop", kids[:m] + kids[m + 1:]
    yield "repeat", kids + kids[-1:]
    yield "repeat", kids + kids[:1]
    yield "change", kids[:-1] + [other]
    yield "change", [other] + kids[1:]
    yield "change", kids[:m] + [other] + kids[m + 1:]
    yield "change", kids[:-1] + kids[:1]
    yield "add", kids + [other]
    yield "same", list(kids)


def wide_pairs(tier):
    """Operators over many operands, and nearly the same operators: (logic, spec, spec)."""
    sizes = (5, 9, 17, 33) if tier == "quick" else (5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 129, 257)
    for logic in LOGICS + ["re", "fol"]:
        for n in sizes:
            kids, other = [["atom", "a%d" % i] for i in range(n)], ["atom", "b"]
            if logic == "re":
                kids, other = [["prop", x] for x in kids], ["star", ["prop", other]]
            elif logic == "ldl":
                kids, other = [["dia", ["prop", x], ["tt"]] for x in kids], ["box", ["prop", other], ["tt"]]
            elif logic == "fol":
                kids, other = [["pred", "P", [["const", "a%d" % i]]] for i in range(n)], ["pred", "P", [["var", "x"]]]
            for op in ["seq", "union"] if logic == "re" else BOOL + BINARY.get(logic, []):
                for _, new in edits(kids, other):
                    yield logic, [op] + kids, [op] + new
                yield logic, [op] + kids, [op] + kids[:-2] + [[op] + kids[-2:]]
                yield logic, [op] + kids, [op, [op] + kids[:2]] + kids[2:]
                yield logic, [op] + kids, [op, [op] + kids[:-1], kids[-1]]
                if logic != "re":
                    yield logic, [op] + kids, [op] + kids[:-1] + [negate(kids[-1])]
            if logic == "fol":
                ts, other = [[("const", "var")[i % 2], "a%d" % i] for i in range(n)], ["const", "b"]
                for _, new in edits(ts, other):
                    yield logic, ["pred", "R", ts], ["pred", "R", new]
                    yield logic, ["pred", "P", [["fun", "f", ts]]], ["pred", "P", [["fun", "f", new]]]
                for k in (1, 2, n - 1):
                    yield logic, ["pred", "R", ts], ["pred", "R", ts[:-k] + [["fun", "f", ts[-k:]]]]
                    yield logic, ["pred", "R", [["fun", "f", ts]]], ["pred", "R", [["fun", "f", ts[:-k]]] + ts[-k:]]


OPERATORS = {"re": ["star", "seq", "union", "test", "prop"], "ldl": ["not"] + BOOL + ["dia", "box"]}
for _logic in ("pl", "ltl", "pltl"):
    OPERATORS[_logic] = ["not"] + UNARY[_logic] + BOOL + BINARY[_logic]
LEAVES = {
    "pl": [["atom", "a"], ["atom", "b"], ["tt"], ["ff"]], "re": [["prop", ["atom", "a"]], ["prop", ["atom", "b"]], ["test", ["tt"]], ["prop", ["tt"]]],
    "ldl": [["dia", ["prop", ["atom", "a"]], ["tt"]], ["tt"], ["ff"], ["box", ["prop", ["tt"]], ["ff"]]],
    "ltl": [["atom", "a"], ["atom", "b"], ["tt"], ["ff"], ["ptrue"]], "pltl": [["atom", "a"], ["atom", "b"], ["tt"], ["ff"], ["ptrue"]],
}


def nodes(logic, depth, rest=0):
    """Formulae with an operator at each level down to a depth, and the i-th leaf elsewhere."""
    leaves = LEAVES[logic]
    if depth == 0:
        yield leaves[rest % 2]
        return
    for op in OPERATORS[logic]:
        sorts = {"dia": ["re", "ldl"], "box": ["re", "ldl"], "test": ["ldl"], "prop": ["pl"], "star": ["re"]}.get(op)
        if sorts is None:
            sorts = [logic] * (1 if op == "not" or op in UNARY.get(logic, ()) else 2)
        for place, sort in enumerate(sorts):
            for inner in nodes(sort, depth - 1, rest):
                yield [op] + [inner if i == place else LEAVES[s][(rest + 1) % 2] for i, s in enumerate(sorts)]


def changes(spec, logic):
    """The specs that differ from it at one place: another operator or leaf, one operand less, one negation more."""
    kids = children(spec)
    op = spec[0]
    sorts = [sublogic(op, logic, i) for i in range(len(kids))]
    if not kids:
        for leaf in LEAVES[logic]:
            if leaf != spec:
                yield leaf
    else:
        for other in OPERATORS[logic]:
            if other != op and (other in ("dia", "box")) == (op in ("dia", "box")) and other not in ("test", "prop") and op not in ("test", "prop"):
                if (other in ("not", "star") or other in UNARY.get(logic, ())) == (len(kids) == 1):
                    yield [other] + kids
        if len(kids) > 1 and sorts[0] == sorts[1]:
            yield [op] + kids[::-1]
        for sort, k in zip(sorts, kids):
            if sort == logic:
                yield k
    if logic != "re":
        yield ["not", spec]
    else:
        yield ["star", spec]
    for i, (sort, k) in enumerate(zip(sorts, kids)):
        for new in changes(k, sort):
            yield [op] + kids[:i] + [new] + kids[i + 1:]


def near(logic, depth=2, every=1):
    """Pairs of formulae that differ at one place: (spec, spec)."""
    n = 0
    for spec in nodes(logic, depth):
        for other in changes(spec, logic):
            n += 1
            if n % every == 0 and norm(other) != norm(spec):
                yield spec, other


def neighbours(tier, logics=("pl", "ltl", "pltl", "ldl")):
    """Pairs of formulae with up to three operators that differ at one place, of some logics: (logic, spec, spec)."""
    for logic in logics:
        every = {"ltl": 3, "pltl": 2}.get(logic, 1) if tier == "quick" else 1
        for depth in (1, 2):
            for one, two in near(logic, depth, every):
                yield logic, one, two
        if tier == "thorough" or logic not in ("ltl", "pltl"):
            for one, two in near(logic, 3, 12 if tier == "quick" else 3):
                yield logic, one, two
