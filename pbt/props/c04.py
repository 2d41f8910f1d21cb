"""C04: evaluation of propositional formulae is that of the truth tables."""
import itertools
from collections import Counter, OrderedDict, defaultdict

from hypothesis import strategies as st

from .. import gen, sem
from ..core import Violation, dumps, require
from ..engine import Part
from ..folgen import fol_formula
from ..spec import PARSE, atoms, build, expand, norm, size, children

from pylogics_modalities.exceptions import PylogicsError
from pylogics_modalities.semantics.base import base_semantics
from pylogics_modalities.semantics.pl import evaluate_pl
from pylogics_modalities.syntax.base import AtomName

ID = "C04"
RULE = (
    "a case is a propositional formula with an interpretation (a set, or a dictionary with explicit false values and "
    "irrelevant entries), or with all the interpretations of its atoms, or a node of any logic with an arbitrary truth "
    "value for each operand; non-trivial: the formula has at least two nodes below the root"
)
ASSUMPTIONS = ["interpretations are sets of names, or dictionaries from names to booleans"]


class Atoms(set):
    """Also a set."""


class Guess(dict):
    """A dictionary that makes up what it does not have."""

    def __missing__(self, key):
        return True


class Wordy(defaultdict):
    """The same, and remembers it."""

    def __init__(self, *args):
        super().__init__(lambda: True, *args)


def evaluate(f, interpretation, spec, true_atoms):
    copy = type(interpretation)(interpretation)
    got = evaluate_pl(f, interpretation)
    expected = sem.pl(spec, true_atoms)
    require(
        type(got) is bool and got == expected,
        "evaluate_pl of {} in {!r} is {!r}, expected {}", dumps(spec), interpretation, got, expected,
    )
    require(interpretation == copy, "evaluate_pl changed the interpretation: {!r} to {!r}", copy, interpretation)


def single(case):
    spec = case["spec"]
    f = PARSE["pl"](case["text"]) if "text" in case else build(spec, "pl")
    names, values = case["names"], case["values"]
    true_atoms = {n for n, v in zip(names, values) if v}
    evaluate(f, set(true_atoms), spec, true_atoms)
    evaluate(f, dict(zip(names, values)), spec, true_atoms)
    evaluate(f, {n: True for n in true_atoms}, spec, true_atoms)
    evaluate(f, {AtomName(n): v for n, v in zip(names, values)}, spec, true_atoms)
    evaluate(f, OrderedDict(reversed(list(zip(names, values)))), spec, true_atoms)
    evaluate(f, Atoms(true_atoms), spec, true_atoms)
    # atoms that are not mentioned are false, whatever the dictionary would say of them
    evaluate(f, Guess(zip(names, values)), spec, true_atoms)
    evaluate(f, Wordy(zip(names, values)), spec, true_atoms)
    evaluate(f, Counter(true_atoms), spec, true_atoms)
    evaluate(f, {n: int(v) for n, v in zip(names, values)}, spec, true_atoms)
    missing = set(atoms(spec)) - set(names)
    return size(spec) >= 3, ["missing atoms"] * bool(missing) + ["value %s" % sem.pl(spec, true_atoms)]


def table(case):
    spec = case["spec"]
    names = atoms(spec)[:7]
    f = build(spec, "pl")
    seen = set()
    for bits in itertools.product([False, True], repeat=len(names)):
        true_atoms = {n for n, b in zip(names, bits) if b}
        if case.get("dict"):
            evaluate(f, dict(zip(names, bits)), spec, true_atoms)
        else:
            evaluate(f, set(true_atoms), spec, true_atoms)
        seen.add(sem.pl(spec, true_atoms))
    return size(spec) >= 3, ["contingent" if len(seen) == 2 else "constant"]


def node(case):
    """The semantics of the boolean operators, over operands of any logic evaluated by any function."""
    logic, spec, values = case["logic"], case["spec"], case["values"]
    f = build(spec, logic)
    normal = norm(spec)
    if normal[0] not in sem.BOOL:
        try:
            result = base_semantics(f, lambda *a, **k: True, 1, key=2)
        except PylogicsError:
            return False, ["not boolean"]
        raise Violation("base_semantics of %r, which is not a boolean operator, is %r" % (f, result))
    operands = [f.argument] if normal[0] == "not" else list(f.operands)
    value = [values[i % len(values)] for i in range(len(operands))]
    calls = []

    def fn(sub, *args, **kwargs):
        calls.append((args, kwargs))
        # operands are pairwise distinct, but in implications
        return value[next(i for i, o in enumerate(operands) if o is sub)]

    # the same object can be an operand of an implication many times
    for i, o in enumerate(operands):
        value[i] = value[next(j for j, p in enumerate(operands) if p is o)]
    got = base_semantics(f, fn, 1, [2], key="k")
    expected = sem.boolean(normal[0], value)
    require(
        type(got) is bool and got == expected,
        "base_semantics of {!r} with operands {} is {!r}, expected {}", f, value, got, expected,
    )
    require(all(c == ((1, [2]), {"key": "k"}) for c in calls), "the extra arguments are not passed on: {!r}", calls)
    return len(operands) >= 2, [logic, normal[0], "arity %d" % min(len(operands), 8)]


def evaluated(spec):
    """The formulae below the boolean operators of a formula."""
    if spec[0] in sem.BOOL:
        return [x for kid in spec[1:] for x in evaluated(kid)]
    return [spec]


def unsupported(case):
    """Formulae of other logics are not evaluated as propositional ones."""
    logic = case["logic"]
    spec = norm(case["spec"] if logic == "fol" else expand(case["spec"], logic))
    if any(x[0] in ("tt", "ff", "ptrue", "pfalse") for x in evaluated(spec)):
        return False, ["constants"]
    f = build(spec, logic)
    try:
        got = evaluate_pl(f, {"a": True, "b": True} if case.get("dict") else {"a", "b"})
    except PylogicsError:
        return True, [logic, spec[0]]
    raise Violation("evaluate_pl of %r, a formula of %s, is %r" % (f, logic, got))


KINDS = {
    "list": list, "tuple": tuple, "frozenset": frozenset, "text": " ".join, "keys": lambda x: dict.fromkeys(x).keys(),
    "iterator": iter, "none": lambda x: None, "number": len,
}


def refused(case):
    """Interpretations that are neither sets nor dictionaries are refused, as soon as an atom is evaluated."""
    f = build(case["spec"], "pl")
    try:
        got = evaluate_pl(f, KINDS[case["kind"]](case["names"]))
    except Exception:
        return True, [case["kind"]]
    raise Violation("evaluate_pl of %s in the interpretation %s of %r is %r" % (dumps(case["spec"]), case["kind"], case["names"], got))


def other_interpretations(tier):
    a, b = ["atom", "a"], ["atom", "b"]
    for kind in sorted(KINDS):
        for spec in [a, b, ["not", a]] + [[op, x, y] for op in gen.BOOL for x, y in ((a, b), (["not", a], b), (b, ["and", a, ["atom", "c"]]))]:
            for names in ([], ["a"], ["b"], ["a", "b"], ["a", "b", "c"]):
                yield {"spec": spec, "kind": kind, "names": names}


@st.composite
def interpreted(draw):
    case = {"spec": draw(gen.formula("pl", (1, 5)))}
    if draw(st.booleans()):
        from .. import text

        case["text"] = text.render(case["spec"], "pl", gen.picker(draw))
    pool = list(dict.fromkeys(atoms(case["spec"]) + gen.FEW + ["zz", '"q"']))
    names = draw(st.lists(st.sampled_from(pool), unique=True, max_size=len(pool)))
    case["names"] = names
    case["values"] = draw(st.lists(st.booleans(), min_size=len(names), max_size=len(names)))
    return case


@st.composite
def nodes(draw):
    logic = draw(st.sampled_from(gen.LOGICS))
    maker = gen.Maker(draw, logic, repeat=6)
    kind = draw(st.sampled_from(gen.BOOL + gen.BOOL + ["not", "any"]))
    if kind == "any":
        spec = maker.formula(logic, 2)
    elif kind == "not":
        spec = ["not", maker.formula(logic, 1)]
    else:
        spec = [kind] + maker.operands(logic, draw(st.integers(1, 2)))
    return {"logic": logic, "spec": expand(spec, logic), "values": draw(st.lists(st.booleans(), min_size=1, max_size=8))}


def small(tier):
    """All the formulae with one or two nested operators over two atoms and the constants."""
    leaves = [["atom", "a"], ["atom", "b"], ["tt"], ["ff"]]
    one = [["not", x] for x in leaves] + [[op, x, y] for op in gen.BOOL for x in leaves for y in leaves]
    for x in leaves + one:
        yield {"spec": x}
        yield {"spec": ["not", x], "dict": 1}
    for op in gen.BOOL:
        for x in leaves + one:
            for y in leaves + one:
                yield {"spec": [op, x, y]}
        for seq in itertools.product(leaves[:3] + [["not", ["atom", "a"]], ["atom", "c"]], repeat=4):
            yield {"spec": [op] + list(seq), "dict": 1}
        for n in range(2, 7):
            yield {"spec": [op] + [["atom", x] for x in "abcdef"[:n]]}
            yield {"spec": [op] + [["atom", x] for x in "abcdef"[:n]], "dict": 1}


def wide(tier):
    """Many operands, of which at most one has a value of its own."""
    for op in gen.BOOL:
        for n in list(range(2, 21)) + [31, 32, 33, 34, 64, 65, 100] + [200, 300] * (tier == "thorough"):
            names = ["a%d" % i for i in range(n)]
            spec = [op] + [["atom", x] for x in names]
            for special in {None, 0, 1, n // 2, n - 2, n - 1}:
                for value in (True, False):
                    yield {"spec": spec, "names": names, "values": [value if i != special else not value for i in range(n)]}
                    yield {"logic": "ltl", "spec": spec, "values": [value if i != special else not value for i in range(n)]}


def wide_check(case):
    return node(case) if "logic" in case else single(case)


@st.composite
def other_logics(draw):
    logic = draw(st.sampled_from(["ltl", "pltl", "ldl", "re", "fol"]))
    n = draw(st.integers(0, 2))
    spec = draw(fol_formula(n)) if logic == "fol" else gen.Maker(draw, logic, names=gen.FEW).formula(logic, n)
    case = {"logic": logic, "spec": spec}
    if draw(st.booleans()):
        case["dict"] = 1
    return case


PARTS = [
    Part("other interpretations", refused, cases=other_interpretations),
    Part("small", table, cases=small),
    Part("wide", wide_check, cases=wide),
    Part("single", single, interpreted(), quick=12000, thorough=300000),
    Part("table", table, st.fixed_dictionaries({"spec": gen.formula("pl", (1, 4), exotic=12)}), quick=4000, thorough=80000),
    Part("node", node, nodes(), quick=8000, thorough=150000),
    Part("unsupported", unsupported, other_logics(), quick=2500, thorough=20000),
]
