"""C10: formulae survive pickling and copying, also into another interpreter."""
import base64
import copy
import json
import pickle
import sys

from hypothesis import strategies as st

from .. import gen
from ..core import Violation, dumps, freeze, interpreter, require
from ..engine import Part
from ..folgen import fol_formula
from ..folgen import term as fol_term
from ..spec import BOOLEAN, LOGIC, LOGIC_NAME, PARSE, base, build, key, norm, term, walk, walk_term

from pylogics_modalities.syntax import fol
from pylogics_modalities.utils.to_string import to_string

ID = "C10"
RULE = (
    "a case is a formula of any logic (or a term), of which the hash may have been computed, or which has been used "
    "before, and a way to copy it (copy, deepcopy, pickle with any protocol, chains of them, inside containers, or "
    "into another interpreter with another hash seed); non-trivial: the formula has at least one operator"
)
ASSUMPTIONS = ["the interpreters run the same version of the library"]

WAYS = ["copy", "deepcopy"] + ["pickle%d" % i for i in range(pickle.HIGHEST_PROTOCOL + 1)]


def duplicate(x, way):
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, protocol=int(way[6:])))


def touch(f, logic, what):
    """Use the formula (which caches its hash, and those of its parts)."""
    if what == "hash":
        hash(f)
    elif what == "set":
        len({f, build(["tt"], "pl")})
    elif what == "print" and logic in PARSE:
        to_string(f)
    elif what == "compare":
        f == f


def single(case):
    logic, spec = case["logic"], case["spec"]
    f = build(spec, logic)
    touch(f, logic, case["touch"])
    original = walk(f, logic)
    expected = freeze(original)
    x = f
    for way in case["ways"]:
        y = duplicate(x, way)
        require(freeze(walk(y, logic)) == expected, "{} of {!r}\n  is {!r}", way, f, y)
        require(type(y) is type(f) and y.logic == f.logic, "{} of {!r} has another type, or logic: {!r}", way, f, y)
        x = y
    require(freeze(walk(f, logic)) == expected, "{} changed {!r}", case["ways"], original)
    require(x == f and f == x and not x != f, "{} of {!r} is not equal to it", case["ways"], f)
    require(hash(x) == hash(f), "{} of {!r} has another hash", case["ways"], f)
    require(len({x, f}) == 1, "{} of {!r} is another element of sets", case["ways"], f)
    if logic != "fol":
        require(repr(x) == repr(f), "{} of {!r} is shown as {!r}", case["ways"], f, x)
    g = build(spec, logic)
    require(x == g and hash(x) == hash(g), "{} of {!r} is not equal to the same formula built again", case["ways"], f)
    if logic in PARSE:
        require(to_string(x) == to_string(f), "{} of {!r} prints {!r}, not {!r}", case["ways"], f, to_string(x), to_string(f))
    if logic != "re":
        # the copy can be used in place of the formula
        n = base.Not(x)
        require(n == base.Not(f) and base.Not(n) == f, "the negation of a copy of {!r} is {!r}", f, n)
        require(base.And(x, f) == f, "the conjunction of {!r} and a copy is {!r}", f, base.And(x, f))
        for op, cls in sorted(BOOLEAN.items()):
            a, b = cls(x, n), cls(f, base.Not(f))
            require(a == b, "{} of a copy of {!r} and its negation is {!r}, not {!r}", op, f, a, b)
    return original[0] not in ("atom", "tt", "ff", "ptrue", "pfalse"), [logic, "touch " + case["touch"]] + sorted(set(case["ways"]))


def containers(case):
    """Formulae that share parts, inside containers."""
    logic = case["logic"]
    fs = [build(s, logic) for s in case["specs"]]
    if logic != "re":
        fs.append(base.And(*fs))
        fs.append(base.Not(fs[0]))
    expected = [freeze(walk(f, logic)) for f in fs]
    if case["touch"]:
        hash(tuple(fs))
    what = {"list": fs, "dict": {f: i for i, f in enumerate(fs)}, "set": set(fs), "nested": [(fs, frozenset(fs))]}[case["container"]]
    y = duplicate(what, case["way"])
    classes = {key(walk(f, logic)) for f in fs}
    if case["container"] == "list":
        require([freeze(walk(g, logic)) for g in y] == expected, "{} of {!r} is {!r}", case["way"], what, y)
        require(y == fs, "{} of {!r} is {!r}", case["way"], what, y)
    elif case["container"] == "dict":
        require(y == what and all(y[f] == what[f] for f in fs), "{} of {!r} is {!r}", case["way"], what, y)
        require({key(walk(g, logic)) for g in y} == classes and len(y) == len(classes), "{} of {!r} is {!r}", case["way"], what, y)
    elif case["container"] == "set":
        require(y == what and all(f in y for f in fs) and len(y) == len(classes), "{} of {!r} is {!r}", case["way"], what, y)
    else:
        require(y == what and all(f in y[0][1] for f in fs), "{} of {!r} is {!r}", case["way"], what, y)
    return True, [logic, case["container"], case["way"]]


def values(t):
    """The values of the constants of a term."""
    if type(t) is fol.Constant:
        yield t.value
    elif type(t) is fol.Function:
        for x in t.operands:
            yield from values(x)


def valued(t, value):
    """A term whose constants have a value."""
    if t[0] == "const":
        return fol.Constant(t[1], value)
    return fol.Function(t[1], [valued(x, value) for x in t[2]]) if t[0] == "fun" else term(t)


def terms(case):
    t = term(case["term"]) if case["value"] is None else valued(case["term"], case["value"])
    if case["touch"]:
        hash(t)
    u = duplicate(t, case["way"])
    require(walk_term(u) == case["term"] and walk_term(t) == case["term"], "{} of {!r} is {!r}", case["way"], t, u)
    require(u == t and hash(u) == hash(t) and u == term(case["term"]), "{} of {!r} is not equal to it", case["way"], t)
    require(list(values(u)) == list(values(t)), "{} of {!r} has constants of values {}", case["way"], t, list(values(u)))
    p = fol.Predicate("P", [t])
    q = duplicate(p, case["way"])
    require(q == p and list(values(q.operands[0])) == list(values(t)), "{} of {!r} is {!r}, with other values", case["way"], p, q)
    return True, [case["way"]]


def transfer(case):
    """Formulae are pickled in another interpreter, with another hash seed, and read in this one (and conversely)."""
    items = case["formulas"]
    request = {"formulas": items, "protocol": case["protocol"], "touch": case["touch"]}
    mine = []
    for x in items:
        f = build(x["spec"], x["logic"])
        touch(f, x["logic"], case["touch"])
        mine.append(base64.b64encode(pickle.dumps([f, {f: 1}], protocol=case["protocol"])).decode())
    request["pickles"] = mine
    answer = interpreter("c10", request, case["hashseed"])
    for message in answer["messages"]:
        raise Violation("in an interpreter with hash seed %s: %s" % (case["hashseed"], message))
    for x, data in zip(items, answer["pickles"]):
        received(x, base64.b64decode(data))
    return len(items) > 1, ["protocol %d" % case["protocol"], "touch " + case["touch"]]


def received(x, data):
    """Check a formula that comes from another interpreter."""
    logic, spec = x["logic"], x["spec"]
    try:
        f, table = pickle.loads(data)
    except Exception as e:  # noqa
        raise Violation("%s cannot be unpickled in another interpreter: %r" % (dumps(spec), e))
    g = build(spec, logic)
    require(key(walk(f, logic)) == key(norm(spec)), "{} is unpickled as {!r}", dumps(spec), f)
    require(f == g and g == f, "{} is unpickled as {!r}, which is not equal to it", dumps(spec), f)
    require(hash(f) == hash(g), "{} is unpickled with a stale hash", dumps(spec))
    require(f in {g} and g in {f} and len({f, g}) == 1, "{} is unpickled as another element of sets", dumps(spec))
    require(table.get(g) == 1 and list(table) == [g], "the table of {} is unpickled as {!r}", dumps(spec), table)
    if logic != "re":
        require(base.And(f, g) == g, "the conjunction of {} and its copy is {!r}", dumps(spec), base.And(f, g))


def other_side():
    """The other interpreter of 'transfer'."""
    request = json.load(sys.stdin)
    messages, pickles = [], []
    for x, data in zip(request["formulas"], request["pickles"]):
        try:
            received(x, base64.b64decode(data))
        except Violation as v:
            messages.append(str(v))
        f = build(x["spec"], x["logic"])
        touch(f, x["logic"], request["touch"])
        pickles.append(base64.b64encode(pickle.dumps([f, {f: 1}], protocol=request["protocol"])).decode())
    print(json.dumps({"messages": messages, "pickles": pickles}))


def make(draw, logic, fuel):
    if logic == "fol":
        return draw(fol_formula(fuel))
    return gen.Maker(draw, "ldl" if logic == "re" else logic, exotic=8).formula(logic, fuel)


TOUCH = st.sampled_from(["nothing", "hash", "set", "print", "compare"])
ALL = gen.LOGICS + ["re", "fol"]


@st.composite
def singles(draw):
    logic = draw(st.sampled_from(ALL))
    return {
        "logic": logic, "spec": make(draw, logic, draw(st.integers(0, 3))), "touch": draw(TOUCH),
        "ways": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)),
    }


@st.composite
def groups(draw):
    logic = draw(st.sampled_from(ALL))
    return {
        "logic": logic, "specs": [make(draw, logic, draw(st.integers(0, 2))) for _ in range(draw(st.integers(1, 4)))],
        "touch": draw(st.booleans()), "way": draw(st.sampled_from(WAYS)),
        "container": draw(st.sampled_from(["list", "dict", "set", "nested"])),
    }


@st.composite
def transfers(draw):
    formulas = []
    for _ in range(draw(st.integers(20, 60))):
        logic = draw(st.sampled_from(ALL))
        formulas.append({"logic": logic, "spec": make(draw, logic, draw(st.integers(0, 2)))})
    return {
        "formulas": formulas, "touch": draw(TOUCH), "protocol": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)),
        "hashseed": draw(st.integers(0, 2 ** 32 - 1)),
    }


def every(_tier):
    """Every operator, every way, with the hash cached or not."""
    a, b = ["atom", "a"], ["atom", "b"]
    samples = []
    for logic in ("pl", "ltl", "pltl"):
        some = [a, ["tt"], ["ff"], ["not", a]] + [[op, a, b] for op in gen.BOOL]
        some += [[op, a] for op in gen.UNARY[logic]] + [[op, a, b] for op in gen.BINARY[logic]]
        some += [["ptrue"], ["pfalse"], ["not", ["ptrue"]]] if logic != "pl" else []
        some += [["not", x] for x in some[4:]]
        # operators of many operands
        many = [["atom", n] for n in "abcdefgh"]
        some += [[op] + many[:n] for op in gen.BOOL + gen.BINARY[logic] for n in (3, 5, 8)]
        samples += [(logic, s) for s in some]
    p = ["prop", a]
    regexes = [p, ["prop", ["not", a]], ["test", ["tt"]], ["star", p], ["seq", p, p], ["union", p, ["test", ["ff"]]]]
    regexes += [[op] + [["prop", ["atom", n]] for n in "abcdef"[:n]] for op in ("seq", "union") for n in (3, 6)]
    samples += [("re", r) for r in regexes]
    samples += [("ldl", [m, r, ["tt"]]) for m in ("dia", "box") for r in regexes]
    samples += [("ldl", ["not", [m, r, ["tt"]]]) for m in ("dia", "box") for r in regexes]
    q = ["pred", "P", [["var", "x"]]]
    samples += [("fol", s) for s in (q, ["not", q], ["forall", "x", q], ["exists", "x", ["not", q]], ["pred", "A", []])]
    samples += [("fol", ["pred", "R", [["var", n] for n in "xyzuvw"]])]
    samples += [("fol", ["pred", "R", [["const", "a"], ["fun", "f", [["var", "y"]]]]])]
    for logic, spec in samples:
        for way in WAYS:
            for t in ("nothing", "hash", "set"):
                yield {"logic": logic, "spec": spec, "touch": t, "ways": [way]}


PARTS = [
    Part("every operator", single, cases=every),
    Part("formulae", single, singles(), quick=8000, thorough=200000),
    Part("containers", containers, groups(), quick=3000, thorough=60000),
    Part(
        "terms", terms,
        st.fixed_dictionaries({"value": st.sampled_from([None, 0, 3, "v"]), "term": fol_term(fuel=2), "way": st.sampled_from(WAYS), "touch": st.booleans()}),
        quick=800, thorough=8000,
    ),
    Part("other interpreters", transfer, transfers(), quick=48, thorough=1600),
]
