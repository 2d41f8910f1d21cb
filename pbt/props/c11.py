"""C11: ill-formed formulae cannot be built."""
import itertools

from hypothesis import strategies as st

from .. import gen
from ..core import Violation, dumps, require
from ..engine import Part
from ..folgen import fol_formula
from ..folgen import term as fol_term
from ..spec import BINARY, BOOLEAN, UNARY, base, build, fol, key, ldl, negate, norm, term, walk

ID = "C11"
RULE = (
    "a case is an operator with operands, at least one of which is of a sort that the operator does not apply to (a "
    "formula of another logic, a regular expression, a term, or no formula at all), or which are too many or too few; "
    "the construction has to raise an exception, and not to disturb the well-formed ones that follow; non-trivial: every case"
)
ASSUMPTIONS = ["the constants true and false may be of another logic than the other operands of a boolean operator"]

OTHERS = {"none": None, "int": 3, "str": "a", "list": [], "class": base.And, "logic": base.Logic.PL, "true": True}
SORTS = ["pl", "ltl", "pltl", "ldl", "re", "fol"]
TABLE = {}
for _logic in ("ltl", "pltl"):
    TABLE.update({"%s %s" % (_logic, k): (v, _logic) for k, v in {**UNARY[_logic], **BINARY[_logic]}.items()})
TABLE.update({"seq": (ldl.Seq, "re"), "union": (ldl.Union, "re"), "star": (ldl.Star, "re")})
TABLE.update({"test": (ldl.Test, "ldl"), "prop": (ldl.Prop, "pl")})
UNARY_NAMES = sorted(
    ["%s %s" % (lg, k) for lg in UNARY for k in UNARY[lg]] + ["star", "test", "prop"]
)
NARY_NAMES = sorted(set(TABLE) - set(UNARY_NAMES))


def value(x):
    """An operand: ["f", logic, spec], ["t", term] or ["o", name]."""
    if x[0] == "f":
        return build(x[2], x[1])
    if x[0] == "t":
        return term(x[1])
    return OTHERS[x[1]]


def refused(make, what):
    """The construction fails."""
    try:
        f = make()
    except Exception:  # noqa: any exception is a refusal
        return
    raise Violation("%s is accepted, and gives %r" % (what, f))


def operator(case):
    cls = TABLE[case["op"]][0]
    operands = [value(x) for x in case["operands"]]
    refused(lambda: cls(*operands), "%s of %s" % (case["op"], dumps(case["operands"])))
    usable(case)
    return True, [case["op"], case["kind"]]


def usable(case):
    """A refused construction does not prevent the following ones."""
    for x in case["operands"]:
        if x[0] == "f":
            f = value(x)
            require(key(walk(f, x[1])) == key(norm(x[2])), "after a refused construction, {} is {!r}", dumps(x), f)
            if x[1] != "re":
                n = base.Not(f)
                require(
                    key(walk(n, x[1])) == key(negate(norm(x[2]))), "after a refused construction, the negation of {} is {!r}",
                    dumps(x), n,
                )


def boolean(case):
    op = case["op"]
    operands = [value(x) for x in case["operands"]]
    # the constants may be of any logic
    kept = [x for x in case["operands"] if x[0] != "f" or x[1] == "re" or norm(x[2])[0] not in ("tt", "ff", "ptrue", "pfalse")]
    if case["operands"] and all(x[0] == "f" and x[1] != "re" for x in kept) and len({x[1] for x in kept}) < 2:
        from ..core import Skip

        raise Skip
    what = "%s of %s" % (op, dumps(case["operands"]))
    if op == "not":
        refused(lambda: base.Not(operands[0]), what)
    elif op == "~":
        refused(lambda: ~operands[0], what)
    elif op == "&":
        refused(lambda: operands[0] & operands[1], what)
    elif op == "|":
        refused(lambda: operands[0] | operands[1], what)
    elif op == ">>":
        refused(lambda: operands[0] >> operands[1], what)
    else:
        refused(lambda: BOOLEAN[op](*operands), what)
    usable(case)
    return True, [op, case["kind"]] + ["index %d" % min(i, 4) for i in case["wrong"]]


def modality(case):
    cls = ldl.Diamond if case["op"] == "dia" else ldl.Box
    operands = [value(x) for x in case["operands"]]
    refused(lambda: cls(*operands), "%s of %s" % (case["op"], dumps(case["operands"])))
    usable(case)
    return True, [case["op"], case["kind"]]


def quantifier(case):
    cls = fol.ForAll if case["op"] == "forall" else fol.Exists
    operands = [value(x) for x in case["operands"]]
    refused(lambda: cls(*operands), "%s of %s" % (case["op"], dumps(case["operands"])))
    usable(case)
    return True, [case["op"], case["kind"]]


def application(case):
    args = [term(t) for t in case["declared"]]
    p = fol.Predicate("P", args) if case["op"] == "pred" else fol.Function("f", args)
    operands = [value(x) for x in case["operands"]]
    refused(lambda: p(*operands), "%r called with %s" % (p, dumps(case["operands"])))
    if any(x[0] != "t" for x in case["operands"]):
        cls, name = (fol.Predicate, "P") if case["op"] == "pred" else (fol.Function, "f")
        for kind in (list, tuple):
            refused(lambda: cls(name, kind(operands)), "%s of %s" % (case["op"], dumps(case["operands"])))
        refused(lambda: cls("other", operands[::-1]), "%s of %s, reversed" % (case["op"], dumps(case["operands"])))
    return True, [case["op"], case["kind"], "arity %d" % len(args)]


def names(case):
    """Names are checked wherever an atom is made."""
    from .c13 import valid
    from ..spec import ATOMIC

    s = case["name"]
    if isinstance(s, str) and valid(s):
        from ..core import Skip

        raise Skip
    for cls in ATOMIC.values():
        refused(lambda: cls(s), "the name %r of %s" % (s, cls))
    return True, []


def formula_of(draw, sort, fuel=1):
    if sort == "fol":
        return ["f", "fol", draw(fol_formula(draw(st.integers(0, fuel))))]
    maker = gen.Maker(draw, "ldl" if sort == "re" else sort, exotic=0)
    return ["f", sort, maker.formula(sort, draw(st.integers(0, fuel)))]


def junk(draw, sorts, terms=True):
    """Something which is not of the sort that is needed."""
    kind = draw(st.sampled_from(["formula", "formula", "formula", "term", "other"]))
    if kind == "term" and terms:
        return "term", ["t", draw(fol_term())]
    if kind == "other" or not sorts:
        return "no formula", ["o", draw(st.sampled_from(sorted(OTHERS)))]
    sort = draw(st.sampled_from(sorts))
    return "formula of " + sort, formula_of(draw, sort)


@st.composite
def operators(draw):
    op = draw(st.sampled_from(sorted(TABLE)))
    sort = TABLE[op][1]
    kind = draw(st.sampled_from(["sort", "sort", "sort", "arity"]))
    if kind == "arity":
        n = draw(st.sampled_from([0, 2, 3] if op in UNARY_NAMES else [0, 1]))
        return {"op": op, "operands": [formula_of(draw, sort) for _ in range(n)], "kind": "arity %d" % n}
    n = 1 if op in UNARY_NAMES else draw(st.sampled_from([2, 2, 3, 4]))
    operands = [formula_of(draw, sort) for _ in range(n)]
    wrong = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
    what = None
    for i in wrong:
        what, operands[i] = junk(draw, [s for s in SORTS if s != sort])
    return {"op": op, "operands": operands, "kind": what}


@st.composite
def booleans(draw):
    op = draw(st.sampled_from(sorted(BOOLEAN) * 2 + ["not", "~", "&", "|", ">>"]))
    if op in ("not", "~"):
        if op == "~" or draw(st.booleans()):
            return {"op": op, "operands": [formula_of(draw, "re")], "kind": "formula of re", "wrong": [0]}
        what, x = junk(draw, ["re"])
        return {"op": op, "operands": [x], "kind": what, "wrong": [0]}
    n = 2 if op not in BOOLEAN else draw(st.sampled_from([0, 2, 2, 3, 4, 5]))
    if n == 0:
        return {"op": op, "operands": [], "kind": "arity 0", "wrong": []}
    sort = draw(st.sampled_from([s for s in SORTS if s != "re"] * 2 + ["re"]))
    operands = [formula_of(draw, sort) for _ in range(n)]
    if sort == "re":
        return {"op": op, "operands": operands, "kind": "formula of re", "wrong": list(range(n))}
    low = 0 if op in BOOLEAN else 1
    wrong = draw(st.lists(st.integers(low, n - 1), min_size=1, max_size=n - 1, unique=True))
    what = None
    for i in wrong:
        what, operands[i] = junk(draw, [s for s in SORTS if s != sort])
    return {"op": op, "operands": operands, "kind": what, "wrong": wrong}


@st.composite
def modalities(draw):
    op = draw(st.sampled_from(["dia", "box"]))
    operands = [formula_of(draw, "re"), formula_of(draw, "ldl")]
    which = draw(st.sampled_from([[0], [1], [0, 1], "swap", "arity"]))
    what = which
    if which == "swap":
        operands.reverse()
    elif which == "arity":
        operands = operands[: draw(st.integers(0, 1))] if draw(st.booleans()) else operands + [formula_of(draw, "ldl")]
    else:
        for i in which:
            what, operands[i] = junk(draw, [s for s in SORTS if s != ("re", "ldl")[i]])
    return {"op": op, "operands": operands, "kind": what}


@st.composite
def quantifiers(draw):
    op = draw(st.sampled_from(["forall", "exists"]))
    operands = [["t", ["var", draw(st.sampled_from("xyz"))]], formula_of(draw, "fol", 2)]
    kind = draw(st.sampled_from(["variable", "variable", "formula", "formula", "arity", "swap"]))
    if kind == "variable":
        t = draw(fol_term().filter(lambda t: t[0] != "var"))
        operands[0] = draw(st.sampled_from([["t", t], ["o", "str"], ["o", "none"], operands[1]]))
    elif kind == "formula":
        what, operands[1] = junk(draw, [s for s in SORTS if s != "fol"])
    elif kind == "swap":
        operands.reverse()
    else:
        operands = operands[: draw(st.integers(0, 1))] if draw(st.booleans()) else operands + [operands[1]]
    return {"op": op, "operands": operands, "kind": kind}


@st.composite
def applications(draw):
    op = draw(st.sampled_from(["pred", "fun"]))
    declared = draw(st.lists(fol_term(), max_size=4))
    kind = draw(st.sampled_from(["arity", "sort"]))
    n = len(declared)
    if kind == "arity" or n == 0:
        m = draw(st.integers(0, 5).filter(lambda m: m != n))
        return {"op": op, "declared": declared, "operands": [["t", draw(fol_term())] for _ in range(m)], "kind": "arity"}
    operands = [["t", draw(fol_term())] for _ in range(n)]
    operands[draw(st.integers(0, n - 1))] = draw(
        st.sampled_from([["o", "str"], ["o", "none"], ["o", "int"], formula_of(draw, "fol", 0), formula_of(draw, "pl", 0)])
    )
    return {"op": op, "declared": declared, "operands": operands, "kind": "sort"}


def wide(tier):
    """Operators with many operands, one of which is wrong."""
    def atom(sort, i):
        name = ["atom", "a%d" % i]
        return ["f", sort, {
            "pl": name, "ltl": name, "pltl": name, "ldl": ["dia", ["prop", name], ["tt"]], "re": ["prop", name], "fol": ["pred", "P%d" % i, []],
        }[sort]]

    for n in (6, 12, 24, 48) if tier == "thorough" else (6, 12, 24):
        for i in sorted({0, 1, n // 2, n - 2, n - 1}):
            for sort in SORTS:
                ops = [op for op in NARY_NAMES if TABLE[op][1] == sort] + sorted(BOOLEAN) * (sort != "re")
                for op in ops:
                    bad = [atom(other, n) for other in SORTS if other != sort] + [["o", "none"], ["o", "str"], ["t", ["const", "a"]]]
                    if op not in BOOLEAN:
                        bad += [["f", other, [c]] for other in ("pl", "ldl", "ltl") if other != sort for c in ("tt", "ff")]
                    for x in bad:
                        operands = [atom(sort, j) for j in range(n)]
                        operands[i] = x
                        yield {"op": op, "operands": operands, "kind": "%d operands" % n, "wrong": [i]}


    for n in (6, 12, 24):
        for op in ("pred", "fun"):
            args = [["t", ["const", "a%d" % j]] for j in range(n)]
            for i in (0, 1, n // 2, n - 2, n - 1):
                for x in (["o", "none"], ["o", "str"], atom("fol", 0), atom("pl", 0)):
                    yield {"op": op, "declared": [a[1] for a in args], "operands": args[:i] + [x] + args[i + 1:], "kind": "%d operands" % n}
            for m in (0, 1, n - 1):
                yield {"op": op, "declared": [a[1] for a in args], "operands": args[:m], "kind": "%d of %d operands" % (m, n)}
            yield {"op": op, "declared": [a[1] for a in args], "operands": args + args[:1], "kind": "%d of %d operands" % (n + 1, n)}


def terms(tier):
    """Boolean operators over terms, wherever they are among the operands."""
    p, q = ["f", "fol", ["pred", "P", []]], ["f", "fol", ["pred", "Q", [["var", "x"]]]]
    ts = [["t", x] for x in (["var", "x"], ["const", "a"], ["fun", "f", []], ["fun", "f", [["var", "x"]]])]
    pool = [p, q, ["f", "fol", ["not", p[2]]], ["f", "fol", ["tt"]], ["f", "fol", ["ff"]]] + ts
    for op in sorted(BOOLEAN):
        for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
            for kids in itertools.product(pool, repeat=n):
                if any(x in ts for x in kids):
                    yield {"op": op, "operands": list(kids), "kind": "%d operands, terms" % n, "wrong": [i for i, x in enumerate(kids) if x in ts]}


def many(case):
    if "declared" in case:
        return application(case)
    return (boolean if case["op"] in BOOLEAN else operator)(case)


NAMES = st.one_of(
    st.sampled_from(["", "A", "Ab", "1a", "a-", "-a", '"', '""', '"a', 'a"', "a b", "a.b", "a\n", "é", "aé", '"é"', '"a"b"', 3, None, 1.5]),
    st.text(max_size=5),
)

PARTS = [
    Part("wide", many, cases=wide),
    Part("terms", boolean, cases=terms),
    Part("temporal and regular operators", operator, operators(), quick=5000, thorough=80000),
    Part("boolean operators", boolean, booleans(), quick=6000, thorough=100000),
    Part("modalities", modality, modalities(), quick=2000, thorough=20000),
    Part("quantifiers", quantifier, quantifiers(), quick=2000, thorough=20000),
    Part("applications", application, applications(), quick=1500, thorough=20000),
    Part("names", names, st.fixed_dictionaries({"name": NAMES}), quick=1500, thorough=20000),
]
